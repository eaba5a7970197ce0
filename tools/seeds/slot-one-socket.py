PROPERTY = "P18"
NEEDS = "a domain with two sockets, the client limit reached, a client waiting at the socket other than the first when a slot gets free"
BREAKS = "only the first socket accepts again: the waiting client is never accepted"
EDITS = [("paf/server.py", """        if self.max_clients_reached():
            for source in self.server_socks.keys():
                source.update(xcm.SO_ACCEPTABLE)

        if conn.handshaked:
""", """        if self.max_clients_reached():
            for source in self.server_socks.keys():
                source.update(xcm.SO_ACCEPTABLE)
                break

        if conn.handshaked:
""")]
DEMO = '''
CONF = """
domains:
  - addrs: [ "ux:d", "ux:e" ]
resources:
  total:
    clients: 2
"""

def main():
    d = Daemon(conf=CONF)
    a, b = Conn(), Conn()
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    time.sleep(0.2)
    e = Conn("ux:e")
    f = Conn("ux:e")
    time.sleep(0.3)
    b.close()
    time.sleep(0.3)
    m = e.hello(3)
    need(ok(m), "hello of the waiting client: %r" % m)

run(main)
'''
