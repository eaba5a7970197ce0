PROPERTY = "P03"
NEEDS = "an orphan republished with a higher generation and a longer TTL before its deadline, then time past the old deadline"
BREAKS = "the old deadline stays armed and removes the service of a connected owner"
EDITS = [("paf/sd.py", """            if was_orphan and not is_orphan:
                self.remove_orphan_timer(service)
""", """            if was_orphan and not is_orphan:
                if service.ttl() <= service.prev_ttl():
                    self.remove_orphan_timer(service)
""")]
DEMO = '''
def main():
    d = Daemon()
    a, s = Conn(), Conn()
    need(ok(a.hello(1)) and ok(s.hello(2)), "hello")
    need(ok(a.publish(5, ttl=4)), "publish")
    a.close()
    s.drain()
    a = Conn()
    need(ok(a.hello(1)), "hello again")
    need(ok(a.publish(5, gen=2, ttl=9)), "republish")
    d.advance(3)
    a.drain()
    d.advance(3)
    need(d.alive(), "server gone: " + d.output()[-300:])
    need(5 in s.services(), "service of a connected owner removed")

run(main)
'''
