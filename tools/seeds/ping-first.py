PROPERTY = 'P16'
NEEDS = 'a ping while notifications wait to be sent'
BREAKS = 'the answer to the ping overtakes what was queued before'
EDITS = [('paf/server.py', '    def ping_request(self, ta):\n        yield ta.complete()\n', '    def ping_request(self, ta):\n        # keep latency measurements independent of the amount of\n        # notifications waiting\n        self.out_wire_msgs.appendleft(ta.complete())\n        self.update_source()\n        return []\n')]
DEMO = '''
def main():
    d = Daemon(env={"XCM_SHIM_EAGAIN": "2"})
    a = Conn()
    need(ok(a.hello(1)), "hello")
    for i in range(20):
        need(ok(a.publish(i, 1, {"n": ["x"]})), "publish")
    b = Conn()
    need(ok(b.hello(2)), "hello")
    for k in range(10):
        b.send("services", 100 + 2 * k)
        b.send("ping", 101 + 2 * k)
    done = set()
    while len(done) < 20:
        m = b.recv()
        if m["msg-type"] == "complete":
            done.add(m["ta-id"])
            need(m["ta-id"] % 2 == 0 or m["ta-id"] - 1 in done, "%r before the end of the listing" % m)

run(main)
'''
