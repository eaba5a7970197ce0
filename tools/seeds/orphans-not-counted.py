PROPERTY = 'P05'
NEEDS = 'a per-user service limit and a user whose clients are gone but whose orphans remain'
BREAKS = 'the orphans are no longer counted; the user gets more services than the limit'
EDITS = [('paf/sd.py', """        consumer = self.consumers[user_id]
        consumer.deallocate(resource_type)
        if not consumer.has_allocations():
            del self.consumers[user_id]
""", """        consumer = self.consumers.get(user_id)
        if consumer is None:
            return
        if consumer.used_resources[resource_type] > 0:
            consumer.deallocate(resource_type)
        if consumer.used_resources[ResourceType.CLIENT] == 0:
            del self.consumers[user_id]
""")]
DEMO = '''
CONF = """
domains:
  - addrs: [ "ux:d" ]
resources:
  user:
    services: 2
"""

def main():
    d = Daemon(conf=CONF)
    a = Conn()
    need(ok(a.hello(1)), "hello")
    need(ok(a.publish(1)) and ok(a.publish(2)), "publish")
    need(failed(a.publish(3), "insufficient-resources"), "limit")
    a.close()
    time.sleep(0.3)
    b = Conn()
    need(ok(b.hello(2)), "hello")
    m = b.publish(3)
    need(failed(m, "insufficient-resources"), "third service of two: %r" % m)

run(main)
'''
