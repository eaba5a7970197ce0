PROPERTY = 'P10'
NEEDS = 'a client which had a filterless subscription, left orphans and comes back'
BREAKS = 'its former subscription is still listed until the orphans are gone'
EDITS = [('paf/sd.py', '        for subscription in list(inactivated.get_subscriptions()):\n            self.remove_subscription(subscription)\n\n        if inactivated.is_stale():\n', '        for subscription in list(inactivated.get_subscriptions()):\n            if subscription.filter is None and \\\n               not inactivated.is_stale():\n                subscription.match_cb = lambda *args: None\n            else:\n                self.remove_subscription(subscription)\n\n        if inactivated.is_stale():\n')]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1, 2, 2)) and ok(a.publish(5, 1, ttl=60)), "publish")
    a.subscribe(77)
    a.close()
    b = Conn()
    time.sleep(0.2)
    need(ok(b.hello(1, 2, 2)), "hello")
    m = b.ask("subscriptions")
    need(len(m) == 2, "%r" % m)

run(main)
'''
