PROPERTY = 'P04'
NEEDS = 'TLS clients whose subject key id is not available'
BREAKS = 'they are all one user, instead of one per address'
EDITS = [('paf/server.py', """        if self.conn_addr.startswith("tcp") or \\
           (user_id is None and self.conn_addr.startswith("tls")):
            ip_port""", """        if self.conn_addr.startswith("tcp"):
            ip_port""")]
DEMO = '''
CONF = """
domains:
  - sockets: [ { addr: "tls:0.0.0.0:4711", tls: { cert: "/c", key: "/k", tc: "/t" } } ]
"""
A = "tls:0.0.0.0:4711"

def main():
    d = Daemon(conf=CONF, addrs=(A,))
    a, b = Conn(A, "10.0.0.1:1000"), Conn(A, "10.0.0.2:1000")
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    need(ok(a.publish(5)), "publish")
    m = b.unpublish(5)
    need(failed(m, "permission-denied"), "another user unpublishes: %r" % m)

run(main)
'''
