PROPERTY = "P01"
NEEDS = "a live subscription, and a second client of the same user republishing somebody's (not orphaned) service at the same generation"
BREAKS = "the change of owner is not notified: the subscriber keeps the old owner"
EDITS = [("paf/sd.py", """            if self.matches(before) and self.matches(after):
                self.match_cb(self.sub_id, MatchType.MODIFIED, service)
""", """            if self.matches(before) and self.matches(after):
                # ownership is no part of what is subscribed to
                if service.generation() != service.prev_generation() or \\
                   service.was_orphan() != service.is_orphan():
                    self.match_cb(self.sub_id, MatchType.MODIFIED, service)
""")]
DEMO = '''
def main():
    d = Daemon()
    a, b, s = Conn(), Conn(), Conn()
    for i, c in enumerate((a, b, s)):
        need(ok(c.hello(i + 1)), "hello")
    need(ok(a.publish(5)), "publish")
    s.subscribe(9)
    s.drain()
    need(ok(b.publish(5)), "republish")
    got = s.drain()
    need(len(got) == 1 and got[0]["client-id"] == 2, "owner change notified as %r" % got)

run(main)
'''
