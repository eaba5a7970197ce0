PROPERTY = 'P10'
NEEDS = "a second hello for an id within a second of the holder's last message"
BREAKS = 'the holder is not asked whether it is alive'
EDITS = [('paf/sd.py', """        if self.idle_state == IdleState.ACTIVE:
            self.issue_idle_warning()

    def install_idle_timer""", """        if self.idle_state == IdleState.ACTIVE and \\
           time.time() - self.last_seen >= 1:
            self.issue_idle_warning()

    def install_idle_timer""")]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1)), "hello")
    t = a.send("track")
    a.until(t, last=("accept",))
    need(ok(a.ask("ping")[-1]), "ping")
    need(failed(b.hello(1), "client-id-exists"), "second hello")
    m = a.recv(2)
    need(m and m["ta-id"] == t and m.get("track-type") == "query", "holder got %r" % m)

run(main)
'''
