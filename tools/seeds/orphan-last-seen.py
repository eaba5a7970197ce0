PROPERTY = 'P03'
NEEDS = 'an owner that has been silent for a while when it disconnects'
BREAKS = 'its services expire early: the time counts from its last message'
EDITS = [('paf/sd.py', '                change.orphan_since = inactivated.disconnected_at', '                change.orphan_since = inactivated.last_seen')]
DEMO = '''
def main():
    d = Daemon()
    a, c = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)) and ok(c.hello(2, 2, 2)), "hello")
    need(ok(a.publish(5, 1, {"name": ["x"]}, 20)), "publish")
    d.advance(6)
    t = d.now()
    a.close()
    time.sleep(0.3)
    got = c.services()
    need(len(got) == 1 and abs(got[5]["orphan-since"] - t) < 1.5, "now %r, listed %r" % (t, got))

run(main)
'''
