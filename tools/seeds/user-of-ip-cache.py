PROPERTY = 'P04'
NEEDS = 'a new connection from an address and port used before by a client with another key'
BREAKS = 'it is taken to be the former user'
EDITS = [('paf/server.py', '    def determine_user_id(self):\n        user_id = None\n        if self.conn_addr', '    def determine_user_id(self):\n        known = self.server.known_users\n        if self.conn_addr in known:\n            return known[self.conn_addr]\n        user_id = self._determine_user_id()\n        if self.conn_addr.startswith("t"):\n            known[self.conn_addr] = user_id\n        return user_id\n\n    def _determine_user_id(self):\n        user_id = None\n        if self.conn_addr'),
 ('paf/server.py', '        self.client_connections = {}\n        self.clean', '        self.client_connections = {}\n        self.known_users = {}\n        self.clean')]
DEMO = '''
def main():
    d = Daemon(conf="domains: [{sockets: ['tls:127.0.0.1:4711']}]\\n")
    a = Conn("tls:127.0.0.1:4711", local="127.0.0.1:9999", ski="0102")
    need(ok(a.hello(1, 2, 2)), "hello")
    need(ok(a.publish(7)), "publish")
    a.close(); time.sleep(0.3)
    b = Conn("tls:127.0.0.1:4711", local="127.0.0.1:9999", ski="0103")
    need(ok(b.hello(2, 2, 2)), "hello")
    need(failed(b.unpublish(7), "permission-denied"), "unpublished")

run(main)
'''
