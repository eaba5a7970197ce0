PROPERTY = 'P09'
NEEDS = 'a client that unpublishes its service with the lowest TTL and then is silent for longer than that'
BREAKS = 'it is dropped although its maximum idle time is longer by now'
EDITS = [('paf/sd.py', """        self.remove_service(service)

        # give opportunity to recalcute idle timer based on changed TTL
        self.active()
""", """        self.remove_service(service)
""")]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 3, 3)) and ok(b.hello(2, 2, 2)), "hello")
    need(ok(a.publish(5, ttl=4)), "publish")
    need(ok(a.unpublish(5)), "unpublish")
    d.advance(2.5, 0.3)
    d.advance(16, 0.3)
    need(not a.closed(0.2), "dropped after 19 s")

run(main)
'''
