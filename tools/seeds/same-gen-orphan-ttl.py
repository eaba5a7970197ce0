PROPERTY = 'P02'
NEEDS = 'an orphan republished under its generation with another TTL'
BREAKS = 'it is accepted and the TTL replaced'
EDITS = [('paf/sd.py', '                if service_props != service.props() or ttl != service.ttl():\n', '                if service_props != service.props() or \\\n                   (ttl != service.ttl() and not service.is_orphan()):\n')]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)) and ok(b.hello(2, 2, 2)), "hello")
    need(ok(a.publish(5, 3, ttl=60)), "publish")
    a.close()
    b.ping()
    m = b.publish(5, 3, ttl=61)
    need(failed(m, "same-generation-but-different"), "%r" % m)

run(main)
'''
