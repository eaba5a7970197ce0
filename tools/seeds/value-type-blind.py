PROPERTY = 'P02'
NEEDS = 'a publish at the current generation which differs only in a value being a string instead of the integer'
BREAKS = 'it is acknowledged although the record does not change'
EDITS = [('paf/sd.py', """                if service_props != service.props() or ttl != service.ttl():
""", """                if props_differ(service_props, service.props()) or \\
                   ttl != service.ttl():
"""), ('paf/sd.py', """class DB:
    def __init__(self):
""", """def props_differ(a, b):
    # the order of the keys, and of the values of a key, is of no significance
    def normalize(props):
        return sorted((key, sorted(map(str, values)))
                      for key, values in props.items())
    return normalize(a) != normalize(b)


class DB:
    def __init__(self):
""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    need(ok(a.publish(5, 1, {"port": [80], "name": ["x"]})), "publish")
    need(ok(a.publish(5, 1, {"name": ["x"], "port": [80]})), "publish the same")
    m = a.publish(5, 1, {"port": ["80"], "name": ["x"]})
    need(failed(m), "acknowledged: %r, but listed as %r" % (m, a.services()))

run(main)
'''
