PROPERTY = 'P02'
NEEDS = 'a republish with the generation and properties kept and another TTL'
BREAKS = 'the publish is acknowledged although nothing of it takes effect: the old TTL stays'
EDITS = [('paf/sd.py', """if service_props != service.props() or ttl != service.ttl():""", """if service_props != service.props():""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    need(ok(a.publish(5, 1, ttl=60)), "publish")
    m = a.publish(5, 1, ttl=90)
    need(failed(m, "same-generation-but-different"), "same generation with another TTL: %r" % m)

run(main)
'''
