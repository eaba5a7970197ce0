PROPERTY = 'P01'
NEEDS = 'a client that subscribes again under an id it already uses'
BREAKS = 'notifications of the live subscription end up in the refused transaction'
EDITS = [('paf/server.py', '            self.sd.create_subscription(self.client_id, sub_id, filter,\n                                        self.subscription_triggered)\n            self.sub_tas[sub_id] = ta\n', '            self.sub_tas[sub_id] = ta\n            self.sd.create_subscription(self.client_id, sub_id, filter,\n                                        self.subscription_triggered)\n')]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)) and ok(b.hello(2, 2, 2)), "hello")
    ta = a.send("subscribe", subscription_id=1)
    need(a.recv()["msg-type"] == "accept", "accept")
    t2 = a.send("subscribe", subscription_id=1)
    m = a.recv()
    need(m["msg-type"] == "fail" and m["ta-id"] == t2, "second: %r" % m)
    need(ok(b.publish(7)), "publish")
    m = a.recv()
    need(m["ta-id"] == ta and m["msg-type"] == "notify", "notified: %r" % m)

run(main)
'''
