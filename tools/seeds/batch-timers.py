PROPERTY = 'P14'
NEEDS = 'a timer whose handler adds another that is due at once'
BREAKS = 'the new one waits until something else happens'
EDITS = [('paf/timer.py', '        changed = False\n\n        while len(self.deque) > 0:\n            candidate = self.deque[0]\n\n            if now < candidate.expiration_time:\n                break\n', '        changed = False\n\n        for _ in range(len(self.deque)):\n            if self.empty():\n                break\n\n            candidate = self.deque[0]\n\n            if now < candidate.expiration_time:\n                break\n'),
 ('paf/timer.py', '        if changed:\n            self.next_timeout_changed()\n\n    def', '        if changed and not self.empty() and \\\n           self.deque[0].expiration_time > now:\n            self.next_timeout_changed()\n\n    def')]
DEMO = '''
sys.path.insert(0, REPO)
import paf.timer as t

def main():
    told = []
    m = t.TimerManager(lambda: told.append(m.next_timeout()))
    fired = []
    m.add(lambda: fired.append(1), time.time() - 1)
    m.process()
    need(fired == [1] and told[-1] is None, "fired %r, told %r" % (fired, told))

run(main)
'''
