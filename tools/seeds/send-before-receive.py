PROPERTY = 'P20'
NEEDS = 'sends that would block while responses wait to be read'
BREAKS = 'client and server wait for each other for ever'
EDITS = [('paf/client.py', """            if not self.try_send():
                break
        for i in range""", """            if not self.try_send():
                break
        if len(self.out_wire_msgs) > 0:
            return
        for i in range""")]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    d = Daemon(clock=False)
    code = r"""
import paf.client as c, select, time
conn = c.connect("ux:d")
for i in range(40):
    conn.publish(i + 1, 1, {"name": {"x" * 1000}}, 60)
done = []
def cb(ta, ev, *a, **o):
    if ev == c.EventType.COMPLETE:
        done.append(ta)
N = 600
for i in range(N):
    conn.services(response_cb=cb)
p = select.poll()
p.register(conn.fileno(), select.POLLIN)
end = time.time() + 25
while len(done) < N and time.time() < end:
    p.poll(200)
    conn.process()
print(len(done) == N, len(done))
"""
    r = subprocess.run([sys.executable, "-c", code], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    need(r.stdout.startswith("True"), "client: " + r.stdout[-400:])

run(main)
'''
