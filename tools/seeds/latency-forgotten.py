PROPERTY = 'P25'
NEEDS = 'a clients listing while a later query to a tracked client is unanswered'
BREAKS = 'the latency measured before is no longer listed'
EDITS = [('paf/server.py', """        self.track_query_ts = time.time()
""", """        self.track_query_ts = time.time()
        self.track_latency = None
""")]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 3, 3)), "hello")
    need(ok(b.hello(2, 3, 3)), "hello")
    ta = a.send("track")
    need(a.recv()["msg-type"] == "accept", "track")
    d.advance(17)
    need(a.recv()["track-type"] == "query", "no query")
    a.send("track", ta, "inform", track_type="reply")
    need(b.ping(), "ping")
    d.advance(17)
    need(a.recv()["track-type"] == "query", "no second query")
    tb = b.send("clients")
    seen = {}
    while True:
        m = b.recv()
        if m["msg-type"] == "complete":
            break
        if m["msg-type"] == "notify":
            seen[m["client-id"]] = m
    need("latency" in seen[1], "listed: %r" % seen)

run(main)
'''
