PROPERTY = 'P09'
NEEDS = 'a tracked client that sends nothing but replies to queries'
BREAKS = 'it is dropped although it answers'
EDITS = [('paf/server.py', """            if self.handshaked:
                self.sd.client_active(self.client_id)

            for""", """            if self.handshaked and in_msg.is_request():
                self.sd.client_active(self.client_id)

            for""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1, 3, 3)), "hello")
    ta = a.send("track")
    need(a.recv()["msg-type"] == "accept", "track")
    queries = 0
    for i in range(12):
        d.advance(4)
        try:
            while True:
                m = a.recv(0.2)
                need(m is not None, "dropped although it answered %d queries" % queries)
                queries += 1
                a.send("track", ta, "inform", track_type="reply")
        except Bad as e:
            if "no message" not in str(e):
                raise
    need(a.ping(), "dropped")
    need(queries, "not asked")

run(main)
'''
