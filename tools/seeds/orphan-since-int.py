PROPERTY = 'P03'
NEEDS = 'a disconnection in the course of a second'
BREAKS = 'the orphan time is rounded down to whole seconds'
EDITS = [('paf/sd.py', '                change.orphan_since = inactivated.disconnected_at\n', '                change.orphan_since = int(inactivated.disconnected_at)\n')]
DEMO = '''
def main():
    d = Daemon()
    b = Conn()
    need(ok(b.hello(2, 2, 2)), "hello")
    for i in range(4):
        a = Conn()
        need(ok(a.hello(1, 2, 2)) and ok(a.publish(5 + i, ttl=60)), "publish")
        a.close()
        b.ping()
        time.sleep(0.13)
    s = [m["orphan-since"] for m in b.services().values()]
    need(len(s) == 4 and any(t != int(t) for t in s), "%r" % s)

run(main)
'''
