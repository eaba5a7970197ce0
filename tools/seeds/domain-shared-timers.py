PROPERTY = "P23"
NEEDS = "two domains in one process, with orphans of the same service id in both"
BREAKS = "the orphan timers are kept per process: reclaiming in one domain cancels the deadline of the other"
EDITS = [("paf/sd.py", """        self.db = DB()
        self.orphan_timers = {}
""", """        self.db = DB()
        self.orphan_timers = ServiceDiscovery.pending_orphans
"""), ("paf/sd.py", """class ServiceDiscovery:
    def __init__(self, name, timer_manager, max_user_resources,
""", """class ServiceDiscovery:
    pending_orphans = {}

    def __init__(self, name, timer_manager, max_user_resources,
""")]
DEMO = '''
def main():
    d = Daemon(addrs=["ux:a", "ux:b"])
    for addr in ("ux:a", "ux:b"):
        c = Conn(addr)
        need(ok(c.hello(1)) and ok(c.publish(5, ttl=3)), "publish")
        c.close()
        time.sleep(0.2)
    b = Conn("ux:b")
    need(ok(b.hello(1)), "hello")
    need(ok(b.publish(5, gen=2, ttl=3)), "reclaim")
    a = Conn("ux:a")
    need(ok(a.hello(2)), "hello")
    d.advance(4)
    need(5 not in a.services(), "expired orphan still there")
    need(d.alive(), "server gone")
    need(5 in b.services(), "reclaimed service gone")

run(main)
'''
