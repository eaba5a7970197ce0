PROPERTY = 'P10'
NEEDS = 'a connection that was refused a client id in use and then closes'
BREAKS = 'closing the refused connection disconnects the holder of the id in the directory'
EDITS = [('paf/server.py', """        if self.handshaked:
            self.sd.client_disconnect(self.client_id)
        self.event_loop.remove""", """        if self.client_id is not None and self.sd.has_client(self.client_id):
            self.sd.client_disconnect(self.client_id)
        self.event_loop.remove""")]
DEMO = '''
def main():
    d = Daemon()
    a, b, c = Conn(), Conn(), Conn()
    need(ok(a.hello(1)) and ok(c.hello(3)), "hello")
    need(ok(a.publish(5)), "publish")
    need(failed(b.hello(1), "client-id-exists"), "second hello")
    b.close()
    time.sleep(0.3)
    need(d.alive(), "server ended")
    need("orphan-since" not in c.services()[5], "holder's service is an orphan")
    need(a.ping() and d.alive(), "holder disturbed")

run(main)
'''
