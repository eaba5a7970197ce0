PROPERTY = "P22"
NEEDS = "a version 3 clients listing while another client has been handshaked for long and has been active since"
BREAKS = "the idle time shown counts from the last activity of the asking client, not of the listed one"
EDITS = [("paf/server.py", """            idle_time = now - self.sd.client_last_seen(conn.client_id)
""", """            idle_time = now - self.sd.client_last_seen(self.client_id)
""")]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    d.advance(4)
    r = {m["client-id"]: m for m in b.ask("clients") if m["msg-type"] == "notify"}
    need(r[1]["idle"] > 3.9, "idle time of client 1: %r" % r[1]["idle"])
    need(r[2]["idle"] < 1, "idle time of client 2: %r" % r[2]["idle"])

run(main)
'''
