PROPERTY = 'P19'
NEEDS = 'a configuration file with a user limit and -c'
BREAKS = 'the user limit is changed too'
EDITS = [('paf/daemon.py', '                    conf.resources.total.set_limit("clients", clients)\n', '                    conf.resources.total.set_limit("clients", clients)\n                    conf.resources.user.set_limit("clients", clients)\n')]
DEMO = '''
def main():
    d = Daemon(args=["-c", "3"], conf="domains:\\n  - addrs: [ \\"ux:d\\" ]\\nresources:\\n  user:\\n    clients: 1\\n")
    a, b = Conn(), Conn()
    need(ok(a.hello(1)), "hello")
    m = b.hello(2)
    need(failed(m, "insufficient-resources"), "second client: %r" % m)

run(main)
'''
