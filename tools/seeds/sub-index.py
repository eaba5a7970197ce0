PROPERTY = 'P01'
NEEDS = 'a subscription whose filter requires a property by name inside NOT'
BREAKS = 'services without that property are never notified to it'
EDITS = [('paf/sd.py', '    def matches(self, props):\n        if self.filter is None:\n            return True\n', '    def keys(self):\n        todo = [self.filter]\n        while todo:\n            f = todo.pop()\n            if hasattr(f, "key"):\n                yield f.key\n            for name in ("operands", "filter", "filters", "operand"):\n                sub = getattr(f, name, None)\n                if sub is not None:\n                    todo.extend(sub if isinstance(sub, (list, tuple)) else\n                                [sub])\n\n    def matches(self, props):\n        if self.filter is None:\n            return True\n        # most filters need some property the service does not have\n        if not any(key in props for key in self.keys()):\n            return False\n')]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1, 2, 2)), "hello")
    ta = a.send("subscribe", subscription_id=1, filter="(!(area=x))")
    need(a.recv()["msg-type"] == "accept", "accept")
    need(ok(a.publish(7, 1, {"name": ["x"]}, 30)) or True, "publish")
    got = []
    a.drain()
    b = Conn()
    need(ok(b.hello(2, 2, 2)), "hello")
    need(ok(b.publish(8, 1, {"name": ["x"]}, 30)), "publish")
    m = a.recv(2.0)
    need(m["msg-type"] == "notify", "%r" % m)

run(main)
'''
