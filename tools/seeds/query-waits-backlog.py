PROPERTY = 'P09'
NEEDS = 'a tracked client half idle while messages are waiting for it'
BREAKS = 'it is not asked whether it is alive before it is dropped'
EDITS = [('paf/server.py',
  '        elif self.is_tracked() and not self.has_outstanding_track_query():\n',
  '        elif self.is_tracked() and not self.sendable() and \\\n'
  '                not self.has_outstanding_track_query():\n')]
DEMO = '''
def main():
    d = Daemon()
    w = Conn()
    need(ok(w.hello(1, 2, 2)), "hello")
    a = Conn()
    need(ok(a.hello(2)), "hello")
    a.send("track")
    need(a.recv()["msg-type"] == "accept", "track")
    a.send("subscribe", subscription_id=1) if False else a.send("subscribe", **{"subscription-id": 1})
    need(a.recv()["msg-type"] == "accept", "subscribe")
    # far more than the connection holds
    big = {"k": ["x" * 60000]}
    for i in range(80):
        need(ok(w.publish(1, i, big)), "publish")
    d.advance(16.9)
    w.ping()
    kinds = []
    try:
        for i in range(82):
            m = a.recv()
            kinds.append((m["ta-cmd"], m.get("track-type")))
    except Exception:
        pass
    need(("track", "query") in kinds, "no query: %d messages" % len(kinds))

run(main)
'''
