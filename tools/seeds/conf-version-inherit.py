PROPERTY = 'P19'
NEEDS = 'two domains in the file, of which only the first restricts the protocol version'
BREAKS = 'the restriction applies to the second as well'
EDITS = [('paf/conf.py', """        version_min = proto.MIN_VERSION
        version_max = proto.MAX_VERSION

        version = domain""", """        if domain_num == 0:
            version_min = proto.MIN_VERSION
            version_max = proto.MAX_VERSION

        version = domain""")]
DEMO = '''
CONF = """
domains:
  - addrs: [ "ux:d" ]
    protocol_version: { max: 2 }
  - addrs: [ "ux:e" ]
"""

def main():
    d = Daemon(conf=CONF)
    a, b = Conn("ux:d"), Conn("ux:e")
    m, n = a.hello(1), b.hello(1)
    need(ok(m) and m["protocol-version"] == 2, "%r" % m)
    need(ok(n) and n["protocol-version"] == 3, "%r" % n)

run(main)
'''
