PROPERTY = "P25"
NEEDS = "a tracked client that is sent a query, does not reply but sends something else, and is probed again"
BREAKS = "a second query is sent while one is outstanding"
EDITS = [("paf/server.py", """        elif self.is_tracked() and not self.has_outstanding_track_query():
            self.track_query(self.tas[self.track_ta_id])
""", """        elif self.is_tracked() and (
                not self.has_outstanding_track_query() or
                self.sd.client_last_seen(self.client_id) >
                self.track_query_ts):
            self.track_query(self.tas[self.track_ta_id])
""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    ta = a.send("track")
    need(a.until(ta, last=("accept", "fail"))[-1]["msg-type"] == "accept", "track")
    d.advance(17, 0.4)
    need(a.recv().get("track-type") == "query", "no query")
    a.ping()
    d.advance(17, 0.4)
    more = a.drain()
    need(more == [], "second query while one is outstanding: %r" % more)
    a.send("track", ta=ta, kind="inform", track_type="reply")
    need(a.ping(), "reply not accepted")

run(main)
'''
