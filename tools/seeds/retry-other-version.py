PROPERTY = 'P08'
NEEDS = 'a hello refused for its id and repeated with another range'
BREAKS = 'the version of the first attempt is used'
EDITS = [('paf/server.py', '        self.proto_version = \\\n            self.proto_version_limit.get_highest_allowed(min_version,\n                                                         max_version)\n', '        if self.proto_version is None:\n            self.proto_version = \\\n                self.proto_version_limit.get_highest_allowed(min_version,\n                                                             max_version)\n')]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)), "hello")
    need(failed(b.hello(1, 3, 3), "client-id-exists"), "second")
    a.close()
    time.sleep(0.2)
    m = b.hello(1, 2, 2)
    need(ok(m) and m["protocol-version"] == 2, "%r" % m)

run(main)
'''
