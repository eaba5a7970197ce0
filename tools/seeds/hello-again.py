PROPERTY = 'P08'
NEEDS = 'a client that repeats its hello with a lower maximum version'
BREAKS = 'the version of the connection changes although the handshake was done'
EDITS = [('paf/server.py', """                       LogCategory.PROTOCOL)
            yield ta.complete(self.proto_version)
            return
""", """                       LogCategory.PROTOCOL)
            version = self.proto_version_limit.get_highest_allowed(min_version,
                                                                   max_version)
            if version is not None:
                self.proto_version = version
            yield ta.complete(self.proto_version)
            return
""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    m = a.hello(1, 2, 3)
    need(ok(m) and m["protocol-version"] == 3, "hello")
    m = a.hello(1, 2, 2)
    need(ok(m) and m["protocol-version"] == 3, "again: %r" % m)

run(main)
'''
