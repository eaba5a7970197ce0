PROPERTY = 'P25'
NEEDS = 'a second track reply with another latency than the first'
BREAKS = 'the latency reported is not that of the last query'
EDITS = [('paf/server.py',
  '            self.track_latency = time.time() - self.track_query_ts\n',
  '            latency = time.time() - self.track_query_ts\n'
  '            if self.track_latency is not None:\n'
  '                latency = 0.875 * self.track_latency + 0.125 * latency\n'
  '            self.track_latency = latency\n')]
DEMO = '''
def main():
    d = Daemon()
    w = Conn()
    need(ok(w.hello(1, 2, 3)), "hello")
    wta = w.send("track")
    need(w.recv()["msg-type"] == "accept", "track")
    a = Conn()
    need(ok(a.hello(2)), "hello")
    ta = a.send("track")
    need(a.recv()["msg-type"] == "accept", "track")

    def round(latency):
        for i in range(40):
            d.advance(1)
            # the observer keeps itself alive
            w.send("track", wta, "inform", track_type="query")
            while True:
                m = w.recv()
                if m["ta-cmd"] == "track" and m["track-type"] == "query":
                    w.send("track", wta, "inform", track_type="reply")
                elif m["ta-cmd"] == "track":
                    break
            if select.select([a.s], [], [], 0.1)[0]:
                need(a.recv()["track-type"] == "query", "query")
                d.advance(latency)
                a.send("track", ta, "inform", track_type="reply")
                break
        else:
            raise Bad("never asked")
        r = [m for m in w.ask("clients") if m and m.get("client-id") == 2]
        return r[0]["latency"]

    x = round(5)
    need(4.9 < x < 7, "first latency %r" % x)
    x = round(1)
    need(0.9 < x < 2.5, "second latency %r" % x)

run(main)
'''
