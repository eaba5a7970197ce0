PROPERTY = 'P22'
NEEDS = 'a client that issues its hello a second or more after it connected'
BREAKS = 'the clients listing reports the time of the handshake as connection time'
EDITS = [('paf/server.py',
  '        self.connect_time = time.time()\n',
  '        self.connect_time = self.accept_time = time.time()\n'),
 ('paf/server.py',
  '                self.handshaked = True\n                self.handshake_cb(self)\n',
  '                self.handshaked = True\n'
  '                self.connect_time = time.time()\n'
  '                self.handshake_cb(self)\n')]
DEMO = '''
def main():
    d = Daemon()
    w = Conn()
    need(ok(w.hello(1, 2, 2)), "hello")
    a = Conn()
    for i in range(3):
        w.ping()
        time.sleep(0.1)
    t = d.now()
    d.advance(1.2)
    need(ok(a.hello(2, 2, 2)), "second hello")
    got = {}
    ta = w.send("clients")
    while True:
        m = w.recv()
        if m["msg-type"] == "complete":
            break
        if m["msg-type"] == "notify":
            got[m["client-id"]] = m["time"]
    need(got[2] <= t, "connected at %r, reported as %r" % (t, got[2]))

run(main)
'''
