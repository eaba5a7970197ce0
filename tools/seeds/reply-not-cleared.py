PROPERTY = 'P25'
NEEDS = 'a tracked client that replies to a query and is idle again'
BREAKS = 'the query counts as outstanding for ever: no further one is sent, and the client is dropped'
EDITS = [('paf/server.py', """            self.track_latency = time.time() - self.track_query_ts
            self.track_query_ts = None
""", """            self.track_latency = time.time() - self.track_query_ts
""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    ta = a.send("track")
    need(a.until(ta, last=("accept", "fail"))[-1]["msg-type"] == "accept", "track")
    for i in range(3):
        d.advance(17, 0.4)
        m = a.recv()
        need(m and m.get("track-type") == "query", "query %d: %r" % (i, m))
        a.send("track", ta=ta, kind="inform", track_type="reply")
        a.ping()

run(main)
'''
