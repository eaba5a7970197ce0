PROPERTY = "P09"
NEEDS = "a version 3 client whose only service of a low TTL is unpublished while another of high TTL remains, then silence between the two limits"
BREAKS = "the idle limit is that of the oldest service instead of the lowest TTL: the client is dropped late or early"
EDITS = [("paf/sd.py", """        return min([service.ttl() for service in self.services.values()])
""", """        return next(iter(self.services.values())).ttl()
""")]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    need(ok(a.publish(5, ttl=100)), "publish")
    need(ok(a.publish(6, ttl=5)), "publish")
    for _ in range(9):
        d.advance(1)
        b.drain()
    need(a.closed(), "silent for 9 s with a TTL of 5 s, but not dropped")
    c = Conn()
    need(ok(c.hello(3)) and ok(c.publish(8, ttl=5)) and ok(c.publish(9, ttl=100)), "publish")
    d.advance(3)
    need(c.ping(), "dropped early")

run(main)
'''
