PROPERTY = 'P04'
NEEDS = 'two IPv6 addresses of the same /64 network'
BREAKS = 'they count as one user'
EDITS = [('paf/server.py', """            ip = ip_port.rsplit(":", 1)[0]
""", """            ip = ":".join(ip_port.rsplit(":", 1)[0].split(":")[:4])
""")]
DEMO = '''
A = "tcp:[::]:4711"

def main():
    d = Daemon(addrs=(A,))
    a = Conn(A, local="[2001:db8:1:2:3:4:5:6]:1001")
    b = Conn(A, local="[2001:db8:1:2:3:4:5:7]:1002")
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    need(ok(a.publish(5)), "publish")
    m = b.unpublish(5)
    need(failed(m, "permission-denied"), "another user unpublishes: %r" % m)

run(main)
'''
