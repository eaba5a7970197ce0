PROPERTY = 'P10'
NEEDS = 'a client refused for want of resources, and another user who uses the same id afterwards'
BREAKS = 'the id belongs to the refused user; the other one is denied'
EDITS = [('paf/sd.py', """        self.resource_manager.allocate(self.user_id, ResourceType.CLIENT)

        self.db.add_client(self)

        self.active""", """        self.db.add_client(self)

        self.resource_manager.allocate(self.user_id, ResourceType.CLIENT)

        self.active""")]
DEMO = '''
CONF = """
domains:
  - addrs: [ "tcp:0.0.0.0:4711" ]
resources:
  user:
    clients: 1
"""
A = "tcp:0.0.0.0:4711"

def main():
    d = Daemon(conf=CONF, addrs=(A,))
    a, b, c = Conn(A, "10.0.0.1:1000"), Conn(A, "10.0.0.1:1001"), Conn(A, "10.0.0.2:1000")
    need(ok(a.hello(1)), "hello")
    need(failed(b.hello(2), "insufficient-resources"), "limit")
    b.close()
    time.sleep(0.2)
    m = c.hello(2)
    need(ok(m), "the id is free, but %r" % m)

run(main)
'''
