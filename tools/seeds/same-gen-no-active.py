PROPERTY = 'P09'
NEEDS = 'a service with a low TTL taken over with the same generation'
BREAKS = 'the idle limit of the new owner is not lowered'
EDITS = [('paf/sd.py', '                        change.orphan_since = None\n                        change.client_id = self.client_id\n                elif service.is_orphan():\n', '                        change.orphan_since = None\n                        change.client_id = self.client_id\n                    return service\n                elif service.is_orphan():\n')]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)) and ok(b.hello(2, 3, 3)), "hello")
    need(ok(a.publish(5, 1, ttl=6)), "publish")
    need(ok(b.publish(5, 1, ttl=6)), "take over")
    d.advance(4, 0.3)
    d.advance(4, 0.3)
    need(b.closed(2), "silent for eight seconds with a TTL of six")

run(main)
'''
