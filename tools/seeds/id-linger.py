PROPERTY = 'P10'
NEEDS = 'a client which left orphans and returns at once'
BREAKS = 'its id is refused for a moment'
EDITS = [('paf/sd.py', '    def client_connect(self, client_id, user_id, idle_limit, conn_idle_cb):\n        client = self.db.get_client(client_id)\n', '    def client_connect(self, client_id, user_id, idle_limit, conn_idle_cb):\n        client = self.db.get_client(client_id)\n\n        if client is not None and not client.is_connected() and \\\n           client.left_recently():\n            raise AlreadyExistsError("client", client_id)\n'), ('paf/sd.py', '    def last_seen(self):\n        if self.is_connected():\n', '    def left_recently(self):\n        return any(time.time() - connection.disconnected_at < 0.5\n                   for connection in self.inactive_connections)\n\n    def last_seen(self):\n        if self.is_connected():\n')]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)) and ok(a.publish(5, ttl=30)), "publish")
    a.close()
    time.sleep(0.1)
    b = Conn()
    m = b.hello(1)
    need(ok(m), "the id of a client which is gone: %r" % m)

run(main)
'''
