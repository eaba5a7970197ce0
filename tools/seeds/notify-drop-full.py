PROPERTY = 'P16'
NEEDS = 'a subscriber that does not read, more than 1024 messages behind'
BREAKS = 'everything beyond is dropped silently'
EDITS = [('paf/server.py', """    def respond(self, out_wire_msg):
""", """    def respond(self, out_wire_msg):
        if len(self.out_wire_msgs) >= 8 * SOFT_OUT_WIRE_LIMIT:
            return
""")]
DEMO = '''
def main():
    d = Daemon()
    a, s = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)) and ok(s.hello(2, 2, 2)), "hello")
    for i in range(20):
        s.subscribe(100 + i)
    n = 150
    for i in range(n):
        need(ok(a.publish(5, i + 1, {"name": ["x" * 2000]})), "publish")
    got = {}
    end = time.time() + 20
    for m in s.inbox:
        got.setdefault(m["ta-id"], []).append(m["generation"])
    while sum(len(v) for v in got.values()) < 20 * n and time.time() < end:
        try:
            m = s.recv(1.5)
        except Bad:
            break
        got.setdefault(m["ta-id"], []).append(m["generation"])
    for ta, g in got.items():
        need(g == list(range(1, n + 1)), "transaction %d: %d of %d notifications" % (ta, len(g), n))

run(main)
'''
