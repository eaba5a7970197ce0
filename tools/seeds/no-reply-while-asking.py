PROPERTY = 'P25'
NEEDS = "a client's query while it owes a reply to the server's own"
BREAKS = 'the query is never answered'
EDITS = [('paf/server.py', """            yield ta.notify(proto.TRACK_TYPE_REPLY)
""", """            if not self.has_outstanding_track_query():
                yield ta.notify(proto.TRACK_TYPE_REPLY)
""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    t = a.send("track")
    a.until(t, last=("accept",))
    d.advance(18, 0.3)
    m = a.recv(2)
    need(m and m.get("track-type") == "query", "%r" % m)
    a.send("track", ta=t, kind="inform", track_type="query")
    m = a.recv(2)
    need(m and m.get("track-type") == "reply", "%r" % m)

run(main)
'''
