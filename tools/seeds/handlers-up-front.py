PROPERTY = 'P15'
NEEDS = 'two sources ready at the same time, and a handler of the first that removes the second'
BREAKS = 'the handler of the removed source is called'
EDITS = [('paf/eventloop.py', """        for fd, event in fds:
            if fd == self.s_rfd:
                self.check_signal()
            else:
                source = self.fd_source.get(fd)
                if source is None:
                    continue
                handler = self.source_handler[source]
                handler()
""", """        handlers = []
        for fd, event in fds:
            if fd == self.s_rfd:
                handlers.append(self.check_signal)
            else:
                source = self.fd_source.get(fd)
                if source is None:
                    continue
                handlers.append(self.source_handler[source])

        for handler in handlers:
            handler()
""")]
DEMO = '''
sys.path.insert(0, REPO)
import paf.eventloop as e

def main():
    loop = e.EventLoop()
    called = []
    pipes = [os.pipe() for _ in range(4)]
    srcs = []
    for r, w in pipes:
        s = e.Source()
        s.set_fd(r, select.EPOLLIN)
        srcs.append(s)
        os.write(w, b"x")

    def handler(i):
        need(srcs[i] is not None, "handler %d called, although the source was removed" % i)
        for k in range(4):
            if srcs[k] is not None and k != i:
                loop.remove(srcs[k])
                srcs[k] = None
        called.append(i)
        loop.stop()
    for i, s in enumerate(srcs):
        loop.add(s, lambda i=i: handler(i))
    loop.run()
    need(len(called) == 1, "handlers called: %r" % called)

run(main)
'''
