PROPERTY = 'P25'
NEEDS = 'a second answered query'
BREAKS = 'the latency listed remains that of the first'
EDITS = [('paf/server.py', '            self.track_latency = time.time() - self.track_query_ts\n', '            if self.track_latency is None:\n                self.track_latency = time.time() - self.track_query_ts\n')]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)) and ok(b.hello(2, 3, 3)), "hello")
    b.send("track", 50)
    need(b.recv()["msg-type"] == "accept", "track")
    c = Conn()
    lat = []
    for wait in (0.05, 0.9):
        need(failed(c.hello(2, 3, 3), "client-id-exists"), "second")
        m = b.recv()
        need(m.get("track-type") == "query", "%r" % m)
        time.sleep(wait)
        b.send("track", 50, "inform", track_type="reply")
        r = b.ask("clients")
        lat += [m["latency"] for m in r if m.get("client-id") == 2]
    need(len(lat) == 2 and lat[1] > 0.8, "%r" % lat)

run(main)
'''
