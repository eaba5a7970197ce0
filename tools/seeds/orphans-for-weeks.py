PROPERTY = 'P03'
NEEDS = 'an orphan with a TTL of more than 11 days'
BREAKS = 'it is removed after 11 days'
EDITS = [('paf/sd.py', '        timer = self.timer_manager.add(handler, service.orphan_timeout())', '        timeout = min(service.orphan_timeout(),\n                      service.orphan_since() + 1000000)\n        timer = self.timer_manager.add(handler, timeout)')]
DEMO = '''
def main():
    d = Daemon(clock=True)
    a = Conn()
    need(ok(a.hello(1, 2, 2)), "hello")
    need(ok(a.publish(5, 1, {"a": [1]}, 2000000)), "publish")
    a.close()
    time.sleep(0.5)
    d.advance(1500000, 1)
    b = Conn()
    need(ok(b.hello(2, 2, 2)), "hello")
    need(list(b.services()) == [5], "the orphan is gone")
    b.close()
    d.advance(600000, 1)
    b = Conn()
    need(ok(b.hello(2, 2, 2)), "hello")
    need(not b.services(), "the orphan is still there")

run(main)
'''
