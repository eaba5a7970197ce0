PROPERTY = 'P08'
NEEDS = 'a server configured to version 3 only and a client of version 2'
BREAKS = 'a version below the configured range is selected'
EDITS = [('paf/conf.py', """        min_version = max(client_version_min, self.version_min)

        if min_version <= max_version:""", """        if client_version_min <= max_version:""")]
DEMO = '''
CONF = """
domains:
  - addrs: [ "ux:d" ]
    protocol_version:
      min: 3
"""

def main():
    d = Daemon(conf=CONF)
    a = Conn()
    m = a.hello(1, 2, 2)
    need(failed(m, "unsupported-protocol-version"), "version 2 at a server of version 3: %r" % m)
    need(ok(Conn().hello(2)), "hello")

run(main)
'''
