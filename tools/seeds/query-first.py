PROPERTY = 'P16'
NEEDS = 'messages waiting for a slow tracked client when the server probes it'
BREAKS = 'the query overtakes the messages queued before it'
EDITS = [('paf/server.py', """        self.respond(ta.notify(proto.TRACK_TYPE_QUERY))""", """        # not to be delayed by a long queue
        self.out_wire_msgs.appendleft(ta.notify(proto.TRACK_TYPE_QUERY))
        self.update_source()""")]
DEMO = '''
def main():
    d = Daemon(env={"XCM_SHIM_EAGAIN": "3"})
    a, b, c = Conn(), Conn(), Conn()
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    ta = a.send("track")
    need(a.until(ta, last=("accept", "fail"))[-1]["msg-type"] == "accept", "track")
    sub = a.send("subscribe", subscription_id=3)
    need(a.until(sub, last=("accept", "fail"))[-1]["msg-type"] == "accept", "subscribe")
    big = "x" * 30000
    for i in range(40):
        need(ok(b.publish(i, props={"name": [big]})), "publish")
    need(failed(c.hello(1), "client-id-exists"), "second hello")
    kinds = []
    while len(kinds) < 41:
        m = a.recv()
        kinds.append(m.get("track-type") or m["msg-type"])
    need(kinds == 40 * ["notify"] + ["query"], "order: %r" % kinds)

run(main)
'''
