PROPERTY = 'P15'
NEEDS = 'a source removed or cleared by the handler of another active source'
BREAKS = 'its handler is called nevertheless, or the loop ends in a KeyError'
EDITS = [('paf/eventloop.py', """        while len(self.source_active) > 0:
            source = next(iter(self.source_active))
            handler""", """        for source in list(self.source_active):
            handler""")]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    code = r"""
import paf.eventloop as e
loop = e.EventLoop()
a, b = e.Source(), e.Source()
calls = []
def handler(me, other):
    def f():
        calls.append(me)
        loop.remove(me)
        loop.remove(other)
        loop.stop()
    return f
loop.add(a, handler(a, b))
loop.add(b, handler(b, a))
a.set_active()
b.set_active()
loop.run()
print(len(calls))
"""
    r = subprocess.run([sys.executable, "-c", code], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "1", "calls: " + r.stdout[-400:])

run(main)
'''
