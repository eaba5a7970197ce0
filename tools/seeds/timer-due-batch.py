PROPERTY = 'P14'
NEEDS = 'two timers due at once, and a handler of the first that removes the second'
BREAKS = 'the removal fails, or the removed timer fires all the same'
EDITS = [('paf/timer.py', """        changed = False

        while len(self.deque) > 0:
            candidate = self.deque[0]

            if now < candidate.expiration_time:
                break

            self.deque.popleft()
            candidate.handler()

            changed = True

        if changed:
            self.next_timeout_changed()
""", """        expired = []

        while len(self.deque) > 0 and now >= self.deque[0].expiration_time:
            expired.append(self.deque.popleft())

        for timer in expired:
            timer.handler()

        if len(expired) > 0:
            self.next_timeout_changed()
""")]
DEMO = '''
sys.path.insert(0, REPO)
import paf.timer

def main():
    m = paf.timer.TimerManager()
    fired = []
    t0 = time.time() - 1

    def first():
        fired.append(1)
        m.remove(second)
    m.add(first, t0)
    second = m.add(lambda: fired.append(2), t0 + 0.1)
    m.add(lambda: fired.append(3), time.time() + 1000)
    try:
        m.process()
    except Exception as e:
        raise Bad("removing a timer in a handler: %r" % e)
    need(fired == [1], "fired %r" % fired)

run(main)
'''
