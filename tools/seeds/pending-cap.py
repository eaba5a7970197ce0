PROPERTY = 'P18'
NEEDS = 'more than thirty-two connections that have not said hello at one time'
BREAKS = 'a further client is not accepted until they are dropped'
EDITS = [('paf/server.py', '        max_clients = self.sd.max_total_clients()\n        if max_clients is None:\n            return None\n        return max_clients - self.num_connections()\n', '        max_clients = self.sd.max_total_clients()\n        if max_clients is None:\n            if len(self.clientless_connections) >= 32:\n                return 0\n            return None\n        return max_clients - self.num_connections()\n')]
DEMO = '''
def main():
    d = Daemon()
    cs = [Conn() for i in range(40)]
    a = Conn()
    t = time.time()
    m = a.ask("hello", 10.0, client_id=1, protocol_minimum_version=2, protocol_maximum_version=2)[-1]
    need(ok(m) and time.time() - t < 0.8, "not served for %.1f s" % (time.time() - t))

run(main)
'''
