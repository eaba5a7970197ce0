PROPERTY = 'P14'
NEEDS = 'the last timer of all expires'
BREAKS = 'the user is not told that no timeout remains, and spins'
EDITS = [('paf/timer.py', """        if changed:
            self.next_timeout_changed()""", """        if changed and not self.empty():
            self.next_timeout_changed()""")]
DEMO = '''
def cpu(p):
    f = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()
    return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")

def main():
    d = Daemon(clock=False)
    time.sleep(0.5)
    a = Conn()
    need(ok(a.hello(1)), "hello")
    need(ok(a.publish(1, ttl=1)), "publish")
    a.close()
    time.sleep(5)
    t = cpu(d.p)
    time.sleep(2)
    t = cpu(d.p) - t
    need(t < 1, "idle server used %.1f s of 2" % t)

run(main)
'''
