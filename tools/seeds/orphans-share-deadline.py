PROPERTY = 'P03'
NEEDS = 'two services with equal TTLs orphaned by the same disconnect, one of which is reclaimed'
BREAKS = 'the other one never expires'
EDITS = [('paf/sd.py', """        def handler():
            self.orphan_timeout(service_id)

        timer = self""", """        deadline = service.orphan_timeout()

        # Orphans left by the same client often expire at the same time.
        for timer in self.orphan_timers.values():
            if timer.expiration_time == deadline:
                self.orphan_timers[service_id] = timer
                return

        def handler():
            orphan_ids = [orphan_id for orphan_id, timer in
                          self.orphan_timers.items()
                          if timer.expiration_time == deadline]
            for orphan_id in orphan_ids:
                self.orphan_timeout(orphan_id)

        timer = self""")]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1)) and ok(b.hello(2, 2, 2)), "hello")
    need(ok(a.publish(5, ttl=20)) and ok(a.publish(6, ttl=20)), "publish")
    a.close()
    time.sleep(0.2)
    need(len(b.services()) == 2, "orphans")
    need(ok(b.publish(5, ttl=20)), "reclaim")
    d.advance(12)
    need(len(b.services()) == 2, "too early")
    d.advance(12)
    got = b.services()
    need(sorted(got) == [5], "still there after 24 s with a TTL of 20 s: %r" % got)

run(main)
'''
