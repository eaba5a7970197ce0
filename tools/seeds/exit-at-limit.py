PROPERTY = 'P24'
NEEDS = 'a signal while as many clients are connected as the configuration allows'
BREAKS = 'the server ends in an exception, with a failure status'
EDITS = [('paf/server.py',
  '        conns = [conn for conn in chain(self.clientless_connections,\n'
  '                                        self.client_connections.values())]\n'
  '\n'
  '        for conn in conns:\n'
  '            conn.terminate()\n'
  '\n'
  '        assert len(self.clientless_connections) == 0\n'
  '        assert len(self.client_connections) == 0\n'
  '\n'
  '        for stream in self.server_socks.keys():\n'
  '            self.event_loop.remove(stream)\n'
  '        self.close_server_socks()\n',
  '        # no new clients from here on\n'
  '        for stream in self.server_socks.keys():\n'
  '            self.event_loop.remove(stream)\n'
  '        self.close_server_socks()\n'
  '\n'
  '        conns = [conn for conn in chain(self.clientless_connections,\n'
  '                                        self.client_connections.values())]\n'
  '\n'
  '        for conn in conns:\n'
  '            conn.terminate()\n'
  '\n'
  '        assert len(self.clientless_connections) == 0\n'
  '        assert len(self.client_connections) == 0\n')]
DEMO = '''
def main():
    d = Daemon(["-c", "2"])
    time.sleep(0.3)
    a, b = Conn(), Conn()
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    rc = d.stop()
    need(rc == 0, "status %r: %s" % (rc, d.output()[-300:]))

run(main)
'''
