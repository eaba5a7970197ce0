PROPERTY = 'P05'
NEEDS = 'a hello of another user for a client id whose services are orphans, and a client limit'
BREAKS = 'each such attempt uses up a client slot for good'
EDITS = [('paf/sd.py', """            raise AlreadyExistsError("client", self.client_id)
        elif self.user_id != user_id:
            raise UserIdChanged(self.client_id, user_id, self.user_id)

        self.resource_manager.allocate(self.user_id, ResourceType.CLIENT)
""", """            raise AlreadyExistsError("client", self.client_id)

        self.resource_manager.allocate(self.user_id, ResourceType.CLIENT)

        if self.user_id != user_id:
            raise UserIdChanged(self.client_id, user_id, self.user_id)
""")]
DEMO = '''
def main():
    d = Daemon(conf="domains: [{sockets: ['ux:d', 'tls:127.0.0.1:4711']}]\\nresources: {user: {clients: 2}}\\n")
    a = Conn("ux:d")
    need(ok(a.hello(1, 2, 2)), "hello")
    need(ok(a.publish(1)), "publish")
    a.close(); time.sleep(0.3)
    for i in range(3):
        b = Conn("tls:127.0.0.1:4711", ski="01:02")
        need(failed(b.hello(1, 2, 2), "permission-denied"), "other user")
        b.close()
    need(ok(Conn("ux:d").hello(5, 2, 2)), "slot lost")

run(main)
'''
