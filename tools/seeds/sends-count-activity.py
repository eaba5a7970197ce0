PROPERTY = 'P09'
NEEDS = 'a silent subscriber to whom notifications are sent'
BREAKS = 'it is never dropped'
EDITS = [('paf/server.py', '                self.conn_sock.send(out_wire_msg)\n', '                self.conn_sock.send(out_wire_msg)\n                if self.handshaked and len(self.sub_tas) > 0:\n                    self.sd.client_active(self.client_id)\n')]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)) and ok(b.hello(2, 3, 3)), "hello")
    b.send("subscribe", 50, subscription_id=7)
    need(b.recv()["msg-type"] == "accept", "accept")
    for i in range(12):
        d.advance(4)
        m = a.publish(5, i + 1)
    need(b.closed(3), "silent for 48 s, and still there")

run(main)
'''
