PROPERTY = 'P01'
NEEDS = 'several changes of a service while a subscriber reads slowly'
BREAKS = 'only the last change is notified'
EDITS = [('paf/server.py', '        ta = self.sub_tas[sub_id]\n        if match_type == sd.MatchType.DISAPPEARED:\n            self.respond', '        ta = self.sub_tas[sub_id]\n        if match_type == sd.MatchType.MODIFIED and \\\n           len(self.out_wire_msgs) > 1:\n            # replaced by the newer one\n            head = ta.notify(proto_match_type, service.service_id)[:-1]\n            last = self.out_wire_msgs[-1]\n            if last.startswith(head):\n                self.out_wire_msgs.pop()\n        if match_type == sd.MatchType.DISAPPEARED:\n            self.respond')]
DEMO = '''
def main():
    d = Daemon(clock=False)
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)) and ok(b.hello(2, 2, 2)), "hello")
    ta = a.send("subscribe", subscription_id=1)
    need(a.recv()["msg-type"] == "accept", "accept")
    N = 400
    # fill the path to the subscriber
    for i in range(N):
        need(ok(b.publish(7, i, {"name": ["x" * 8000]}, 30)), "publish")
    got = 0
    try:
        while True:
            m = a.recv(2.0)
            need(m["generation"] == got, "generation %d notified instead of %d" % (m["generation"], got))
            got += 1
    except Bad:
        need(got == N, "%d of %d changes notified" % (got, N))

run(main)
'''
