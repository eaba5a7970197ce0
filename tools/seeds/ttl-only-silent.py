PROPERTY = 'P01'
NEEDS = 'a republish that changes the TTL only'
BREAKS = 'subscribers are not told'
EDITS = [('paf/sd.py', '            if self.matches(before) and self.matches(after):\n                self.match_cb(self.sub_id, MatchType.MODIFIED, service)', '            if self.matches(before) and self.matches(after):\n                if before != after or \\\n                   service.prev_client_id() != service.client_id() or \\\n                   service.prev_orphan_since() != service.orphan_since() or \\\n                   service.prev_ttl() < service.ttl():\n                    self.match_cb(self.sub_id, MatchType.MODIFIED, service)')]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)) and ok(b.hello(2, 2, 2)), "hello")
    ta = a.send("subscribe", subscription_id=1)
    need(a.recv()["msg-type"] == "accept", "accept")
    need(ok(b.publish(7, 1, {"name": ["x"]}, 30)), "publish")
    need(a.recv()["match-type"] == "appeared", "appeared")
    need(ok(b.publish(7, 2, {"name": ["x"]}, 20)), "publish")
    m = a.recv()
    need(m["match-type"] == "modified" and m["ttl"] == 20, "notified: %r" % m)

run(main)
'''
