PROPERTY = 'P16'
NEEDS = 'a slow reader with more than 512 messages waiting when a send would block'
BREAKS = 'the message is lost'
EDITS = [('paf/server.py', """                self.out_wire_msgs.appendleft(out_wire_msg)
""", """                if len(self.out_wire_msgs) < 4 * SOFT_OUT_WIRE_LIMIT:
                    self.out_wire_msgs.appendleft(out_wire_msg)
""")]
DEMO = '''
def main():
    d = Daemon()
    a, s = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)) and ok(s.hello(2, 2, 2)), "hello")
    for i in range(10):
        s.subscribe(100 + i)
    n = 200
    for i in range(n):
        need(ok(a.publish(5, i + 1, {"name": ["x" * 2000]})), "publish")
    got = {}
    end = time.time() + 20
    s_in, s.inbox = s.inbox, []
    for m in s_in:
        got.setdefault(m["ta-id"], []).append(m["generation"])
    while sum(len(v) for v in got.values()) < 10 * n and time.time() < end:
        try:
            m = s.recv(1.5)
        except Bad:
            break
        got.setdefault(m["ta-id"], []).append(m["generation"])
    for ta, g in got.items():
        need(g == list(range(1, n + 1)), "transaction %d: %d of %d notifications" % (ta, len(g), n))
    need(len(got) == 10, "%d" % len(got))

run(main)
'''
