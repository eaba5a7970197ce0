PROPERTY = 'P09'
NEEDS = 'a client with more than eight services, the oldest of which has the lowest TTL'
BREAKS = 'a dead client is detected much too late'
EDITS = [('paf/sd.py', """return min([service.ttl() for service in self.services.values()])""", """return min([service.ttl() for service in
                    list(self.services.values())[-8:]])""")]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 3, 3)) and ok(b.hello(2, 2, 2)), "hello")
    for i in range(12):
        need(ok(a.publish(i + 1, ttl=5 if i == 0 else 100)), "publish")
    d.advance(5.6, 0.4)
    d.advance(5.6, 0.4)
    got = b.services()
    need(all("orphan-since" in m for m in got.values()), "silent for 11 s, and still there: %r" % sorted(got))

run(main)
'''
