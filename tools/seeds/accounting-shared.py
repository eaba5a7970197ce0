PROPERTY = 'P23'
NEEDS = 'two domains and a resource limit'
BREAKS = 'what is used in one domain counts in the other'
EDITS = [('paf/sd.py', """class ResourceManager:
    def __init__(self, max_user_resources, max_total_resources):
        self.max_user_resources = max_user_resources
        self.max_total_resources = max_total_resources
        self.consumers = {}
""", """class ResourceManager:
    consumers = {}

    def __init__(self, max_user_resources, max_total_resources):
        self.max_user_resources = max_user_resources
        self.max_total_resources = max_total_resources
""")]
DEMO = '''
CONF = """
domains:
  - addrs: [ "ux:d" ]
  - addrs: [ "ux:e" ]
resources:
  user:
    services: 2
"""

def main():
    d = Daemon(conf=CONF)
    a, b = Conn("ux:d"), Conn("ux:e")
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    need(ok(a.publish(1)) and ok(a.publish(2)), "publish")
    m = b.publish(3)
    need(ok(m), "first service of the domain: %r" % m)

run(main)
'''
