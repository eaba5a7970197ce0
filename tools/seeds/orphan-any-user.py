PROPERTY = 'P04'
NEEDS = 'an orphan, unpublished by a client of another user'
BREAKS = 'the orphan of the other user is removed'
EDITS = [('paf/sd.py', """            raise NotFoundError("service", service_id)

        service.check_access(self.user_id)
""", """            raise NotFoundError("service", service_id)

        if not service.is_orphan():
            service.check_access(self.user_id)
""")]
DEMO = '''
def main():
    d = Daemon(conf="domains: [{sockets: ['ux:d', 'tls:127.0.0.1:4711']}]\\n")
    a = Conn("ux:d")
    need(ok(a.hello(1, 2, 2)), "hello")
    need(ok(a.publish(1)), "publish")
    a.close(); time.sleep(0.3)
    b = Conn("tls:127.0.0.1:4711", ski="01:02")
    need(ok(b.hello(2, 2, 2)), "hello")
    need(failed(b.unpublish(1), "permission-denied"), "unpublished")

run(main)
'''
