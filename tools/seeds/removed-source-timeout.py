PROPERTY = 'P15'
NEEDS = 'a source that is removed while its timeout is pending'
BREAKS = 'the timeout of the removed source comes due and ends the loop in an exception'
EDITS = [('paf/eventloop.py', """        self._unregister_timeout(source)
        self._unregister_active(source)
        del self.source_handler[source]""", """        self._unregister_active(source)
        del self.source_handler[source]""")]
DEMO = '''
sys.path.insert(0, REPO)
import paf.eventloop as E

def main():
    loop = E.EventLoop()
    called = []
    s = E.Source()
    s.set_timeout(time.time() + 0.1)
    loop.add(s, lambda: called.append(1))
    loop.remove(s)
    t = E.Source()
    t.set_timeout(time.time() + 0.5)
    loop.add(t, loop.stop)
    try:
        loop.run()
    except KeyError as e:
        raise Bad("loop ended in %r" % e)
    need(not called, "removed source served")

run(main)
'''
