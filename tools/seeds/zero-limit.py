PROPERTY = 'P05'
NEEDS = 'a configured limit of zero'
BREAKS = 'it counts as no limit'
EDITS = [('paf/sd.py', """        if max is not None and used == max:
            raise""", """        if max and used == max:
            raise""")]
DEMO = '''
CONF = """
domains:
  - addrs: [ "ux:d" ]
resources:
  user:
    subscriptions: 0
"""

def main():
    d = Daemon(conf=CONF)
    a = Conn()
    need(ok(a.hello(1)), "hello")
    ta, m = a.subscribe(7)
    need(failed(m, "insufficient-resources"), "first subscription of none: %r" % m)

run(main)
'''
