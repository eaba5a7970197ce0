PROPERTY = 'P25'
NEEDS = 'a track transaction with transaction id 0'
BREAKS = 'the connection counts as untracked: a second track is accepted'
EDITS = [('paf/server.py', """        return self.track_ta_id is not None and self.track_ta_id in self.tas
""", """        return bool(self.track_ta_id) and self.track_ta_id in self.tas
""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1, 3, 3)), "hello")
    a.send("track", 0)
    need(a.recv()["msg-type"] == "accept", "track")
    a.send("track", 99)
    m = a.recv()
    need(m["msg-type"] == "fail" and m["fail-reason"] == "track-exists", "second: %r" % m)

run(main)
'''
