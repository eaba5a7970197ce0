PROPERTY = 'P09'
NEEDS = 'attempts to connect with the id of a client that is gone, repeated while it is being checked'
BREAKS = 'each attempt puts its drop off'
EDITS = [('paf/sd.py', """        if self.idle_state == IdleState.ACTIVE:
            self.issue_idle_warning()

    def install""", """        if self.idle_state != IdleState.TIMED_OUT:
            self.issue_idle_warning()

    def install""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1, 3, 3)), "hello")
    ta = a.send("track")
    need(a.recv()["msg-type"] == "accept", "track")
    for i in range(12):
        b = Conn()
        m = b.hello(1, 3, 3)
        b.close()
        if ok(m):
            return
        d.advance(4)
    need(False, "still there after 48 s of silence")

run(main)
'''
