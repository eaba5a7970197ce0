PROPERTY = 'P23'
NEEDS = 'two domains configured with the same name'
BREAKS = 'they share one directory'
EDITS = [('paf/server.py', '        self.sd = sd.ServiceDiscovery(name, self.timer_manager,\n                                      max_user_resources, max_total_resources)\n', '        self.sd = None\n        if name is not None:\n            self.sd = Server.directories.get(name)\n        if self.sd is None:\n            self.sd = sd.ServiceDiscovery(name, self.timer_manager,\n                                          max_user_resources,\n                                          max_total_resources)\n        if name is not None:\n            Server.directories[name] = self.sd\n'), ('paf/server.py', 'class Server:\n    def __init__(self, name, sockets,', 'class Server:\n    directories = {}\n\n    def __init__(self, name, sockets,')]
DEMO = '''
def main():
    d = Daemon(conf="domains: [{name: a, sockets: ['ux:d']}, {name: a, sockets: ['ux:e']}]\\n")
    a = Conn("ux:d")
    need(ok(a.hello(1)), "hello")
    need(ok(a.publish(1, 1)), "publish")
    b = Conn("ux:e")
    need(ok(b.hello(2)), "hello")
    need(b.services() == {}, "services of the other domain listed")

run(main)
'''
