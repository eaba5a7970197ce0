PROPERTY = 'P23'
NEEDS = 'orphans with the same service id in two domains, one of them reclaimed'
BREAKS = 'reclaiming the service in one domain cancels the expiry in the other'
EDITS = [('paf/sd.py', """        self.db = DB()
        self.orphan_timers = {}
""", """        self.db = DB()
"""),
         ('paf/sd.py', """class ServiceDiscovery:
""", """class ServiceDiscovery:
    orphan_timers = {}

""")]
DEMO = '''
def main():
    d = Daemon(addrs=("ux:d", "ux:e"))
    a, b, w = Conn("ux:d"), Conn("ux:e"), Conn("ux:d")
    need(ok(a.hello(1)) and ok(b.hello(1)) and ok(w.hello(2)), "hello")
    need(ok(a.publish(5, ttl=10)) and ok(b.publish(5, ttl=10)), "publish")
    a.close()
    time.sleep(0.2)
    b.close()
    time.sleep(0.2)
    d.advance(5)
    b = Conn("ux:e")
    need(ok(b.hello(1)) and ok(b.publish(5, ttl=10)), "reclaim")
    d.advance(6)
    try:
        left = w.services()
    except (Bad, TypeError):
        raise Bad("server lost")
    need(5 not in left, "expired orphan still listed")

run(main)
'''
