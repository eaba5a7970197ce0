PROPERTY = 'P05'
NEEDS = 'per-user and total limits, and requests refused by the per-user limit'
BREAKS = 'what was refused counts towards the total for good; others are refused although there is room'
EDITS = [('paf/sd.py', """        self.max_total_resources = max_total_resources
        self.consumers = {}

    def""", """        self.max_total_resources = max_total_resources
        self.consumers = {}
        self.totals = resources(0, 0, 0)

    def"""), ('paf/sd.py', """        self.check_total(resource_type)
        consumer =""", """        self.check_total(resource_type)
        self.totals[resource_type] += 1
        consumer ="""), ('paf/sd.py', """        consumer = self.consumers[user_id]
        consumer.deallocate(resource_type)
""", """        consumer = self.consumers[user_id]
        consumer.deallocate(resource_type)
        self.totals[resource_type] -= 1
"""), ('paf/sd.py', """        total = 0
        for consumer in self.consumers.values():
            total += consumer.used_resources[resource_type]
        return total
""", """        return self.totals[resource_type]
""")]
DEMO = '''
CONF = """
domains:
  - addrs: [ "tcp:0.0.0.0:4711" ]
resources:
  user:
    services: 2
  total:
    services: 4
"""
A = "tcp:0.0.0.0:4711"

def main():
    d = Daemon(conf=CONF, addrs=(A,))
    a, b = Conn(A, "10.0.0.1:1000"), Conn(A, "10.0.0.2:1000")
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    need(ok(a.publish(1)) and ok(a.publish(2)), "publish")
    for i in range(3):
        need(failed(a.publish(3 + i), "insufficient-resources"), "limit")
    m = b.publish(10)
    need(ok(m), "third service of four: %r" % m)

run(main)
'''
