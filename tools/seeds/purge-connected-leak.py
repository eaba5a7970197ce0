PROPERTY = 'P05'
NEEDS = 'a client which comes back but lets a former service of its own expire'
BREAKS = 'the unit of the service is not given back'
EDITS = [('paf/sd.py', '    def purge_orphan(self, service):\n        self.remove_service(service)\n\n    def capture', "    def purge_orphan(self, service):\n        self.remove_service(service)\n        if self.is_connected():\n            self.resource_manager.allocate(self.user_id,\n                                           ResourceType.SERVICE)\n            self.kept = getattr(self, 'kept', 0) + 1\n\n    def capture")]
DEMO = '''
def main():
    d = Daemon(conf="domains:\\n  - addrs: [ \\"ux:d\\" ]\\nresources:\\n  user:\\n    services: 2\\n")
    a = Conn()
    need(ok(a.hello(1, 2, 2)), "hello")
    for i in range(3):
        need(ok(a.publish(5, ttl=3)), "publish %d" % i)
        a.close()
        time.sleep(0.2)
        a = Conn()
        need(ok(a.hello(1, 2, 2)), "hello")
        d.advance(4)
        need(ok(a.ask("ping")[-1]), "ping")

run(main)
'''
