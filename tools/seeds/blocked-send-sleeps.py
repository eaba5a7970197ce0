PROPERTY = 'P16'
NEEDS = 'a client which reads nothing until the daemon has a backlog for it'
BREAKS = 'what is left is not sent when it reads again'
EDITS = [('paf/server.py', '    def update_source(self):\n        condition = 0\n        if self.sendable():\n', '    def update_source(self):\n        condition = 0\n        if self.sendable() and not self.blocked:\n'), ('paf/server.py', '                if e.errno != errno.EAGAIN:\n                    raise\n                self.out_wire_msgs.appendleft(out_wire_msg)\n', '                if e.errno != errno.EAGAIN:\n                    raise\n                self.out_wire_msgs.appendleft(out_wire_msg)\n                self.blocked = len(self.out_wire_msgs) < 4\n'), ('paf/server.py', '        self.out_wire_msgs = deque()\n', '        self.out_wire_msgs = deque()\n        self.blocked = False\n')]
DEMO = '''
def main():
    d = Daemon(env={"XCM_SHIM_EAGAIN": "6"})
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)) and ok(b.hello(2, 2, 2)), "hello")
    for i in range(20):
        need(ok(a.publish(i)), "publish")
    for i in range(8):
        r = b.ask("services")
        kinds = [m["msg-type"] for m in r]
        need(kinds == ["accept"] + 20 * ["notify"] + ["complete"], "the listing: %r" % kinds)

run(main)
'''
