PROPERTY = 'P03'
NEEDS = 'a client that has come back four times, leaving other orphans each time'
BREAKS = 'the oldest of its orphans are forgotten, and stopping them crashes'
EDITS = [('paf/sd.py', '        self.inactive_connections.append(inactivated)', '        self.inactive_connections = \\\n            self.inactive_connections[-3:] + [inactivated]')]
DEMO = '''
def main():
    d = Daemon()
    c = Conn()
    need(ok(c.hello(99, 2, 2)), "hello")
    for i in range(6):
        a = Conn()
        need(ok(a.hello(1, 2, 2)), "hello")
        need(ok(a.publish(i, ttl=5 + i)), "publish")
        a.close()
        time.sleep(0.3)
    need(len(c.services()) == 6, "orphans")
    for i in range(14):
        d.advance(1, 0.05)
    need(c.ping(), "ping")
    need(not c.services(), "left: %r" % c.services())

run(main)
'''
