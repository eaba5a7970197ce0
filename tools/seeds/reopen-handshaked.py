PROPERTY = 'P18'
NEEDS = 'the client limit reached while one of the connections has not said hello, which then goes'
BREAKS = 'its slot is not opened to a waiting client'
EDITS = [('paf/server.py', """        if self.max_clients_reached():
            for source in self.server_socks.keys():
""", """        if conn.handshaked and self.max_clients_reached():
            for source in self.server_socks.keys():
""")]
DEMO = '''
def main():
    d = Daemon(["-c", "2"])
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)), "hello")
    time.sleep(0.3)
    c = Conn()
    time.sleep(0.3)
    b.close()
    need(ok(c.hello(3, 2, 2)), "not accepted")

run(main)
'''
