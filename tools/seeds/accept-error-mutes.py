PROPERTY = 'P18'
NEEDS = 'a connection attempt that fails while it is accepted, then further clients'
BREAKS = 'the socket accepts nobody any more'
EDITS = [('paf/server.py', '                        self.update_source(source)\n                        if e.errno != errno.EAGAIN:\n', '                        if e.errno == errno.EAGAIN:\n                            self.update_source(source)\n                        else:\n                            # wait until some client leaves\n                            source.update(0)\n')]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    env = dict(ENV)
    open(SCRATCH + "/t.py", "w").write(r"""
import errno, sys, paf.xcm as x
real = x.ServerSocket.accept
left = [1]
def accept(self, *args, **kw):
    s = real(self, *args, **kw)
    if left[0]:
        left[0] -= 1
        s.close()
        raise x.error(errno.ECONNABORTED, "aborted")
    return s
x.ServerSocket.accept = accept
import logging.handlers, paf.daemon
paf.daemon.main(["pafd", "-n", "ux:acc"])
""")
    p = subprocess.Popen([sys.executable, SCRATCH + "/t.py"], env=env, cwd=SCRATCH)
    try:
        time.sleep(1.0)
        a = Conn("ux:acc")
        time.sleep(0.5)
        for i in range(3):
            b = Conn("ux:acc")
            need(ok(b.hello(2 + i)), "hello")
    finally:
        p.kill()

run(main)
'''
