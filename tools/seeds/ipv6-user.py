PROPERTY = "P04"
NEEDS = "clients of two different IPv6 addresses over tcp (or tls without key identifier)"
BREAKS = "all IPv6 clients whose addresses start alike are one user and may remove each other's services"
EDITS = [("paf/server.py", """            ip = ip_port.rsplit(":", 1)[0]
""", """            ip = ip_port.split(":", 1)[0]
""")]
DEMO = '''
def main():
    d = Daemon(addrs=["tcp:[::]:4711"])
    a = Conn("tcp:[::]:4711", local="[fd00::1]:1234")
    b = Conn("tcp:[::]:4711", local="[fd00::2]:1234")
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    need(ok(a.publish(5)), "publish")
    m = b.unpublish(5)
    need(failed(m, "permission-denied"), "unpublish by another user: %r" % m)
    c = Conn("tcp:[::]:4711", local="[fd00::1]:1300")
    need(ok(c.hello(3)) and ok(c.unpublish(5)), "unpublish by the same user")

run(main)
'''
