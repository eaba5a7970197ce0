PROPERTY = 'P22'
NEEDS = 'a client that has sent something within the last second before a listing'
BREAKS = 'its idle time is listed since an earlier message'
EDITS = [('paf/sd.py', """        self.last_seen = time.time()

    def check_idle""", """        if time.time() - self.last_seen >= 1:
            self.last_seen = time.time()

    def check_idle""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    d.advance(14)
    b = Conn()
    need(ok(b.hello(2)) and a.ping(), "hello")
    d.advance(0.5)
    need(a.ping(), "ping")
    d.advance(0.7)
    got = {m["client-id"]: m for m in b.ask("clients") if m["msg-type"] == "notify"}
    need(got[1]["idle"] < 1.1, "idle %r" % got[1]["idle"])

run(main)
'''
