PROPERTY = 'P03'
NEEDS = 'orphans of two earlier connections of the same client at once: publish, disconnect, reconnect, publish another, disconnect'
BREAKS = "the server forgets the first connection and fails when its orphan's time is up"
EDITS = [('paf/sd.py', """        self.inactive_connections.append(inactivated)
""", """        self.inactive_connections = [inactivated]
""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)) and ok(a.publish(5, ttl=5)), "publish")
    a.close(); time.sleep(0.2)
    a = Conn()
    need(ok(a.hello(1)) and ok(a.publish(6, ttl=50)), "publish")
    a.close(); time.sleep(0.2)
    d.advance(6, 0.4)
    need(d.alive(), "the server has stopped: " + d.output()[-300:])
    b = Conn()
    need(ok(b.hello(2)), "hello")
    got = b.services()
    need(sorted(got) == [6], "services %r" % sorted(got))

run(main)
'''
