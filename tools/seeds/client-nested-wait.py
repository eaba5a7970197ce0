PROPERTY = 'P20'
NEEDS = 'a server which takes more than a minute to respond to a synchronous call'
BREAKS = 'the call returns as if it had succeeded'
EDITS = [('paf/client.py', """    while not criteria():
        poll.poll()
        conn.process()
""", """    while not criteria():
        if poll.poll(60000):
            conn.process()
        else:
            break
""")]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    d = Daemon()
    code = r"""
import select, paf.client as c
conn = c.connect("ux:d", client_id=1)
class Poll:
    # the time is up, the server has not answered
    def __init__(self): self.p, self.n = real(), 0
    def register(self, *a): self.p.register(*a)
    def poll(self, timeout=None):
        self.n += 1
        if timeout is not None and timeout >= 0 and self.n == 1: return []
        return self.p.poll(timeout)
real, select.poll = select.poll, Poll
conn.publish(5, 1, {"name": {"x"}}, 10)
print(len(conn.services()))
"""
    r = subprocess.run([sys.executable, "-c", code], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=40)
    need(r.stdout.strip() == "1", "client: " + r.stdout[-400:])

run(main)
'''
