PROPERTY = 'P02'
NEEDS = 'a property value 1 against the string "1" in a republication'
BREAKS = 'they count as the same'
EDITS = [('paf/sd.py', '                if service_props != service.props() or ttl != service.ttl():\n', '                if repr(sorted((k, sorted(map(str, vs)))\n                               for k, vs in service_props.items())) != \\\n                   repr(sorted((k, sorted(map(str, vs))) for k, vs\n                               in service.props().items())) or \\\n                   ttl != service.ttl():\n')]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1, 2, 2)) and ok(a.publish(5, 1, props={"k": [1]}, ttl=9)), "publish")
    m = a.publish(5, 1, props={"k": ["1"]}, ttl=9)
    need(failed(m, "same-generation-but-different"), "%r" % m)

run(main)
'''
