PROPERTY = 'P03'
NEEDS = 'an orphan whose time is up while a subscriber waits'
BREAKS = 'it disappears only with the next listing or publication'
EDITS = [('paf/sd.py', '        timer = self.timer_manager.add(handler, service.orphan_timeout())\n        self.orphan_timers[service_id] = timer\n', '        # expiry is looked at every ten seconds\n        timeout = service.orphan_timeout()\n        timer = self.timer_manager.add(handler, timeout + -timeout % 10)\n        self.orphan_timers[service_id] = timer\n')]
DEMO = '''
def main():
    d = Daemon()
    c = Conn()
    need(ok(c.hello(2, 2, 2)), "hello")
    for k in range(4):
        a = Conn()
        need(ok(a.hello(1, 2, 2)), "hello")
        need(ok(a.publish(7, 1, {"name": ["x"]}, 3)), "publish")
        a.close()
        time.sleep(0.3)
        d.advance(4.1, 0.3)
        need(not c.services(), "still listed")

run(main)
'''
