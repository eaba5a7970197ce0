PROPERTY = 'P01'
NEEDS = 'a service republished at a newer generation with the same properties and TTL by its owner'
BREAKS = 'the subscriber is not told and keeps the old generation'
EDITS = [('paf/sd.py', """            before = service.prev_props()
            after = service.props()
            if""", """            before = service.prev_props()
            after = service.props()
            if before == after and \\
               service.prev_ttl() == service.ttl() and \\
               service.prev_client_id() == service.client_id() and \\
               service.prev_orphan_since() == service.orphan_since():
                # nothing of interest to the subscriber
                return
            if""")]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    need(ok(a.publish(5, 1, ttl=30)), "publish")
    b.subscribe(7)
    b.drain()
    need(ok(a.publish(5, 2, ttl=30)), "publish")
    got = b.drain()
    need(any(m.get("generation") == 2 for m in got), "not told of generation 2: %r" % got)

run(main)
'''
