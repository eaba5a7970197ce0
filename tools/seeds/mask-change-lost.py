PROPERTY = 'P15'
NEEDS = 'a source that changes the events it waits for but keeps its descriptor'
BREAKS = 'the new events are never waited for; the source is never served'
EDITS = [('paf/eventloop.py', """        if self.fd != fd or self.mask != mask:""", """        if self.fd != fd:""")]
DEMO = '''
sys.path.insert(0, REPO)
import paf.eventloop as E

def main():
    loop = E.EventLoop()
    r, w = socket.socketpair()
    s = E.Source()
    s.set_fd(r.fileno(), select.EPOLLIN)
    got = []

    def handler():
        got.append(1)
        loop.stop()
    loop.add(s, handler)
    s.set_fd(r.fileno(), select.EPOLLIN | select.EPOLLOUT)
    t = E.Source()
    t.set_timeout(time.time() + 2)
    loop.add(t, loop.stop)
    loop.run()
    need(got, "ready for output, not called")

run(main)
'''
