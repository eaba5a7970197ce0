PROPERTY = 'P15'
NEEDS = 'some source ready at every iteration while a timeout passes'
BREAKS = 'the timeout is never served'
EDITS = [('paf/eventloop.py', '            if timeout == 0:\n                self.fire_timeouts()\n                if self._stop:\n                    break\n            else:\n                fds = self.epoll.poll(timeout=timeout)\n                if len(fds) > 0:\n                    self.handle_fds(fds)\n                else:\n                    self.fire_timeouts()\n                if self._stop:\n                    break\n', '            fds = self.epoll.poll(timeout=timeout)\n            if len(fds) > 0:\n                self.handle_fds(fds)\n            else:\n                self.fire_timeouts()\n            if self._stop:\n                break\n')]
DEMO = '''
sys.path.insert(0, REPO)
import paf.eventloop as e

def main():
    loop = e.EventLoop()
    r, w = os.pipe()
    s = e.Source()
    s.set_fd(r, select.EPOLLIN)
    os.write(w, b"x")
    n = [0, 0]

    def ready():
        n[0] += 1
        if time.time() > start + 3:
            loop.stop()

    def timed():
        n[1] += 1
        t.clear_timeout()
        loop.stop()
    t = e.Source()
    start = time.time()
    t.set_timeout(start + 0.05)
    loop.add(s, ready)
    loop.add(t, timed)
    loop.run()
    need(n[1] == 1, "timeout served %d times, %d events served" % (n[1], n[0]))

run(main)
'''
