PROPERTY = 'P23'
NEEDS = 'two domains with different protocol version limits'
BREAKS = 'the limits of the last domain hold in all of them'
EDITS = [('paf/server.py', """        self.proto_version_limit = proto_version_limit
        self.idle_limit = idle_limit
        self.event_loop = event_loop
        self.server_socks = {}
""", """        Server.proto_version_limit = proto_version_limit
        self.idle_limit = idle_limit
        self.event_loop = event_loop
        self.server_socks = {}
""")]
DEMO = '''
def main():
    d = Daemon(conf="domains: [{sockets: ['ux:d']}, {sockets: ['ux:e'], protocol_version: {max: 2}}]\\n")
    m = Conn("ux:d").hello(1, 2, 3)
    need(ok(m) and m["protocol-version"] == 3, "first domain: %r" % m)
    m = Conn("ux:e").hello(1, 2, 3)
    need(ok(m) and m["protocol-version"] == 2, "second domain: %r" % m)

run(main)
'''
