PROPERTY = 'P11'
NEEDS = 'integer properties beyond 2^53, next to the limit of a greater or less than filter'
BREAKS = 'compared as floating point numbers, so neighbours are taken for equal'
EDITS = [('paf/filter.py', '        return isinstance(value, int) and value > self.value\n', '        return isinstance(value, int) and float(value) > float(self.value)\n'), ('paf/filter.py', '        return isinstance(value, int) and value < self.value\n', '        return isinstance(value, int) and float(value) < float(self.value)\n')]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    need(ok(a.publish(1, 1, {"n": [(1 << 60) + 1]})), "publish")
    a.send("services", filter="(n>%d)" % (1 << 60))
    a.recv()
    m = a.recv()
    need(m["msg-type"] == "notify", "not listed: %r" % m)

run(main)
'''
