PROPERTY = 'P05'
NEEDS = 'a user with as many services as allowed who captures one of them from another of its clients'
BREAKS = 'it is refused'
EDITS = [('paf/sd.py', '            elif generation > service.generation():\n                if self.client_id != service.client_id() or \\\n                   service.is_orphan():\n                    self.capture_service(service)\n', '            elif generation > service.generation():\n                if self.client_id != service.client_id() or \\\n                   service.is_orphan():\n                    self.resource_manager.allocate(self.user_id,\n                                                   ResourceType.SERVICE)\n                    self.resource_manager.deallocate(service.user_id(),\n                                                     ResourceType.SERVICE)\n                    self.capture_service(service)\n')]
DEMO = '''
def main():
    d = Daemon(conf="domains:\\n  - addrs: [ \\"ux:d\\" ]\\nresources:\\n  user:\\n    services: 2\\n")
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)) and ok(b.hello(2, 2, 2)), "hello")
    need(ok(a.publish(5)) and ok(a.publish(6)), "publish")
    m = b.publish(5, 9)
    need(ok(m), "%r" % m)

run(main)
'''
