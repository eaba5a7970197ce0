PROPERTY = 'P04'
NEEDS = 'two certificates whose subject key identifiers agree in the first 20 bytes (SHA-256 ones)'
BREAKS = "the two are one user, who may change each other's services"
EDITS = [('paf/server.py', """for b in subject_key_id])""", """for b in subject_key_id[:20]])""")]
DEMO = '''
CONF = """
domains:
  - sockets: [ { addr: "tls:0.0.0.0:4711", tls: { cert: "/c", key: "/k", tc: "/t" } } ]
"""
A = "tls:0.0.0.0:4711"

def main():
    d = Daemon(conf=CONF, addrs=(A,))
    a = Conn(A, ski="01" * 20 + "02")
    b = Conn(A, ski="01" * 20 + "03")
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    need(ok(a.publish(5)), "publish")
    m = b.unpublish(5)
    need(failed(m, "permission-denied"), "another user unpublishes: %r" % m)

run(main)
'''
