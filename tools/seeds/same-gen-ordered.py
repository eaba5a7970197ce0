PROPERTY = 'P02'
NEEDS = 're-publication of the same generation with the properties in another order'
BREAKS = 'it is refused as different'
EDITS = [('paf/sd.py', '                if service_props != service.props() or ttl != service.ttl():\n', '                if list(service_props.items()) != \\\n                   list(service.props().items()) or ttl != service.ttl():\n')]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    need(ok(a.publish(5, 1, props={"a": ["x"], "b": ["y"]}, ttl=30)), "publish")
    m = a.publish(5, 1, props={"b": ["y"], "a": ["x"]}, ttl=30)
    need(ok(m), "same again: %r" % m)

run(main)
'''
