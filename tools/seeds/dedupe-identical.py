PROPERTY = 'P16'
NEEDS = 'two equal messages queued one after the other for a client, as two replies in one track transaction'
BREAKS = 'the second one is dropped'
EDITS = [('paf/server.py', """        self.out_wire_msgs.append(out_wire_msg)
""", """        if len(self.out_wire_msgs) == 0 or \\
           self.out_wire_msgs[-1] != out_wire_msg:
            self.out_wire_msgs.append(out_wire_msg)
""")]
DEMO = '''
def main():
    os.environ["XCM_SHIM_EAGAIN"] = ENV["XCM_SHIM_EAGAIN"] = "3"
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1, 3, 3)), "hello")
    ta = a.send("track")
    need(a.recv()["msg-type"] == "accept", "track")
    for i in range(40):
        a.send("track", ta, "inform", track_type="query")
    n = 0
    for i in range(40):
        m = a.recv()
        need(m and m["track-type"] == "reply", "reply %d: %r" % (i, m))

run(main)
'''
