PROPERTY = 'P02'
NEEDS = 'a republish at the same generation with other contents, by another client of the user, which then disconnects'
BREAKS = 'the refused request makes that client the one whose disconnect orphans the service'
EDITS = [('paf/sd.py', """                if service_props != service.props() or ttl != service.ttl():
                    raise SameGenerationButDifferentError(
                        "properties/TTL changed, but generation is left at "
                        "%d" % generation
                    )

                prev_client_id = service.client_id()

                if prev_client_id != self.client_id:
                    self.capture_service(service)

                    with""", """                prev_client_id = service.client_id()

                if prev_client_id != self.client_id:
                    self.capture_service(service)

                different = \\
                    service_props != service.props() or ttl != service.ttl()
                if different:
                    raise SameGenerationButDifferentError(
                        "properties/TTL changed, but generation is left at "
                        "%d" % generation
                    )

                if prev_client_id != self.client_id:
                    with""")]
DEMO = '''
def main():
    d = Daemon()
    a, b, c = Conn(), Conn(), Conn()
    for i, p in enumerate((a, b, c)):
        need(ok(p.hello(i + 1, 2, 2)), "hello")
    need(ok(a.publish(5, 1, {"name": ["x"]}, 30)), "publish")
    need(failed(b.publish(5, 1, {"name": ["y"]}, 30), "same-generation-but-different"), "republish")
    b.close()
    time.sleep(0.3)
    got = c.services()
    need(len(got) == 1 and "orphan-since" not in got[5], "listed: %r" % got)

run(main)
'''
