PROPERTY = 'P06'
NEEDS = 'a service with a percent sign in a property'
BREAKS = 'the server ends in an exception'
EDITS = [('paf/server.py', """                self.debug("Published new service with id %x, generation %d, "
                           "props %s and TTL %d s." %
                           (service_id, generation,
                            props.to_str(service_props), ttl),
                           LogCategory.CORE)
""", """                log_msg = "Published new service with id %x, generation %d " \\
                    "and TTL %d s. Properties: " + props.to_str(service_props)
                self.debug(log_msg % (service_id, generation, ttl),
                           LogCategory.CORE)
""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    need(ok(a.publish(5, props={"name": ["x"]})), "publish")
    m = a.publish(6, props={"load": ["80%"]})
    need(ok(m) and d.alive(), "publish: %r, server alive: %r" % (m, d.alive()))

run(main)
'''
