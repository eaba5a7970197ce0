PROPERTY = 'P07'
NEEDS = 'a notification of a service with TTL 0 or generation 0, or without properties'
BREAKS = 'the field is left out of the message'
EDITS = [('paf/proto.py', """                if opt_value is not None:
                    opt_field.put""", """                if opt_value:
                    opt_field.put""")]
DEMO = '''
def main():
    d = Daemon(clock=False)
    a = Conn()
    need(ok(a.hello(0)), "hello")
    a.send("publish", service_id=5, generation=0, service_props={}, ttl=30)
    need(ok(a.recv()), "publish")
    b = Conn()
    need(ok(b.hello(2)), "hello")
    b.send("subscribe", subscription_id=9)
    b.recv()
    m = b.recv()
    need(m.get("generation") == 0 and m.get("service-props") == {} and m.get("client-id") == 0, "notified: %r" % m)

run(main)
'''
