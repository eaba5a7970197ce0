PROPERTY = 'P14'
NEEDS = 'a handler that adds a timer due before all others'
BREAKS = 'the new timer is taken off instead, and the old one fires again'
EDITS = [('paf/timer.py',
  '            self.deque.popleft()\n            candidate.handler()\n',
  '            candidate.handler()\n            self.deque.popleft()\n')]
DEMO = '''
sys.path.insert(0, REPO)
import paf.timer

def main():
    m = paf.timer.TimerManager()
    log = []
    def first():
        log.append("first")
        if len(log) < 5:
            m.add(lambda: log.append("second"), 5)
    m.add(first, 10)
    m.add(lambda: log.append("third"), 11)
    m.process()
    need(sorted(log) == ["first", "second", "third"], "%r" % log)

run(main)
'''
