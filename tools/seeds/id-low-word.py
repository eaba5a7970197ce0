PROPERTY = 'P10'
NEEDS = 'two client ids with the same lower 32 bits'
BREAKS = 'they count as one: the second client is refused although its id is free'
EDITS = [('paf/sd.py',
  '        return client_id in self.clients\n',
  '        return (client_id & 0xffffffff) in self.clients\n'),
 ('paf/sd.py',
  '        return self.clients.get(client_id)\n',
  '        return self.clients.get(client_id & 0xffffffff)\n'),
 ('paf/sd.py',
  '        self.clients[client.client_id] = client\n',
  '        self.clients[client.client_id & 0xffffffff] = client\n'),
 ('paf/sd.py',
  '        del self.clients[client.client_id]\n',
  '        del self.clients[client.client_id & 0xffffffff]\n'),
 ('paf/sd.py', '        client = self.db.clients[client_id]\n', '        client = self.db.get_client(client_id)\n')]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(5, 2, 2)), "hello")
    need(ok(b.hello(5 + (7 << 32), 2, 2)), "the second id is refused")
    need(ok(b.publish(1)), "publish")

run(main)
'''
