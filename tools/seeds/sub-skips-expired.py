PROPERTY = 'P01'
NEEDS = 'a subscription made in the last moment of an orphan'
BREAKS = 'an orphan about to be removed does not appear'
EDITS = [('paf/sd.py', '        for service in self.db.get_services():\n            subscription.notify(ChangeType.ADDED, service)\n', '        for service in self.db.get_services():\n            if service.is_orphan() and \\\n               service.orphan_timeout() - time.time() < 1:\n                continue\n            subscription.notify(ChangeType.ADDED, service)\n')]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)) and ok(b.hello(2, 2, 2)), "hello")
    need(ok(a.publish(5, ttl=10)), "publish")
    a.close()
    b.ping()
    d.advance(9.5)
    m = b.ask("services")
    s = b.send("subscribe", None, subscription_id=7)
    need(b.recv()["msg-type"] == "accept", "accept")
    if len(m) == 3:
        n = b.recv()
        need(n["msg-type"] == "notify" and n["match-type"] == "appeared", "%r" % n)

run(main)
'''
