PROPERTY = 'P24'
NEEDS = 'a termination signal while a connection has not completed the handshake'
BREAKS = 'the server ends in an exception, with a failure status'
EDITS = [('paf/server.py', """        conns = [conn for conn in chain(self.clientless_connections,
                                        self.client_connections.values())]

        for conn in conns:
            conn.terminate()
""", """        for conn in chain(self.clientless_connections,
                          list(self.client_connections.values())):
            conn.terminate()
""")]
DEMO = '''
def main():
    d = Daemon(clock=False)
    a = Conn()
    need(ok(a.hello(1)), "hello")
    b, c = Conn(), Conn()
    time.sleep(0.3)
    rc = d.stop(wait=8)
    need(rc == 0, "exit status %r" % rc)

run(main)
'''
