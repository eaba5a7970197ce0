PROPERTY = 'P03'
NEEDS = 'a TTL of more than a week'
BREAKS = 'the orphan is removed after a week'
EDITS = [('paf/sd.py', '    def orphan_timeout(self):\n        return self.orphan_since() + self.ttl()\n', '    def orphan_timeout(self):\n        return self.orphan_since() + min(self.ttl(), 7 * 24 * 3600)\n')]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)) and ok(b.hello(2, 2, 2)), "hello")
    need(ok(a.publish(5, ttl=10 * 24 * 3600)), "publish")
    a.close()
    b.ping()
    d.advance(8 * 24 * 3600)
    need(5 in b.services(), "removed after eight days")

run(main)
'''
