PROPERTY = 'P16'
NEEDS = 'a listing of more than 500 services read slowly'
BREAKS = 'the client is disconnected in the middle of its listing'
EDITS = [('paf/server.py',
  '            if self.sendable():\n                self.try_send()\n            self.update_source()',
  '            if self.sendable():\n'
  '                self.try_send()\n'
  '            if len(self.out_wire_msgs) > 512:\n'
  '                self.warning("Dropping slow client.", LogCategory.CORE)\n'
  '                self.terminate()\n'
  '                return\n'
  '            self.update_source()')]
DEMO = '''
def main():
    d = Daemon()
    w = Conn()
    need(ok(w.hello(1, 2, 2)), "hello")
    props = {"k": ["x" * 3000]}
    for i in range(900):
        need(ok(w.publish(i, 1, props)), "publish")
    a = Conn()
    need(ok(a.hello(2, 2, 2)), "hello")
    ta = a.send("services")
    time.sleep(1)
    n = 0
    while True:
        m = a.recv()
        need(m is not None, "disconnected after %d services" % n)
        if m["msg-type"] == "complete":
            break
        n += m["msg-type"] == "notify"
    need(n == 900, "%d services" % n)

run(main)
'''
