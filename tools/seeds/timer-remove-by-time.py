PROPERTY = 'P14'
NEEDS = 'two timers with exactly the same expiration time, the later one removed'
BREAKS = 'another timer than the one asked for is removed'
EDITS = [('paf/timer.py', """            self.deque.remove(timer)""", """            del self.deque[self._allocate_idx(timer.expiration_time)]""")]
DEMO = '''
sys.path.insert(0, REPO)
import paf.timer

def main():
    for n in range(2, 6):
        for k in range(n):
            m = paf.timer.TimerManager()
            t0 = time.time() - 1
            m.add(lambda: None, t0 - 1)
            fired = []
            ts = [m.add(lambda i=i: fired.append(i), t0) for i in range(n)]
            m.remove(ts[k])
            m.process()
            need(sorted(fired) == [i for i in range(n) if i != k], "removed %d of %d, fired %r" % (k, n, fired))

run(main)
'''
