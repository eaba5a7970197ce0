PROPERTY = 'P09'
NEEDS = 'a client that publishes with a low TTL right after something else, and falls silent'
BREAKS = 'it is dropped much too late: its timer still goes by the time before'
EDITS = [('paf/sd.py', '    def active(self):\n        if self.idle_state', '    def active(self):\n        # there is no need to move the timers for every single message\n        if self.idle_state == IdleState.ACTIVE and \\\n           time.time() - self.last_seen < 0.25:\n            return\n\n        if self.idle_state')]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1, 3, 3)), "hello")
    need(ok(a.publish(7, 1, {"name": ["x"]}, 1)), "publish")
    for i in range(8):
        d.advance(1, 0.05)
    need(a.closed(), "silent for 8 s, and not dropped")

run(main)
'''
