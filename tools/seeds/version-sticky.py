PROPERTY = 'P08'
NEEDS = 'a client refused with one version range that retries on the same connection with another'
BREAKS = 'the version of the first attempt is selected'
EDITS = [('paf/server.py', """        self.proto_version = \\
            self.proto_version_limit.get_highest_allowed(min_version,
                                                         max_version)
""", """        if self.proto_version is None:
            self.proto_version = \\
                self.proto_version_limit.get_highest_allowed(min_version,
                                                             max_version)
""")]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1)), "hello")
    need(failed(b.hello(1, 2, 2), "client-id-exists"), "second")
    a.close(); time.sleep(0.3)
    m = b.hello(1, 2, 3)
    need(ok(m) and m["protocol-version"] == 3, "retry: %r" % m)

run(main)
'''
