PROPERTY = 'P20'
NEEDS = 'more than 256 requests made before the connection takes any of them'
BREAKS = 'the oldest of the waiting requests are never sent; their callbacks are never called'
EDITS = [('paf/client.py', '        self.out_wire_msgs = deque()\n', '        self.out_wire_msgs = deque(maxlen=256)\n')]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    d = Daemon()
    code = r"""
import select, errno, paf.client as c, paf.xcm as xcm
conn = c.connect("ux:d", client_id=1)
full = [True]
send = xcm.ConnectionSocket.send if hasattr(xcm, "ConnectionSocket") else None
sock = [v for v in vars(conn).values() if hasattr(v, "send") and hasattr(v, "receive")][0]
real = type(sock).send
def blocked(self, msg):
    if full[0]:
        raise xcm.error(errno.EAGAIN, "would block")
    return real(self, msg)
type(sock).send = blocked
done = []
for i in range(300):
    conn.unpublish(i, response_cb=lambda ta, ev, *a, i=i, **o: done.append(i))
full[0] = False
p = select.poll()
p.register(conn.fileno(), select.POLLIN)
import time
end = time.time() + 15
while len(done) < 300 and time.time() < end:
    conn.process()
    p.poll(100)
print(len(done), done == sorted(done))
"""
    r = subprocess.run([sys.executable, "-c", code], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "300 True", "client: " + r.stdout[-600:])

run(main)
'''
