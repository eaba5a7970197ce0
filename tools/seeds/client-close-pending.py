PROPERTY = 'P20'
NEEDS = 'a client with requests it can not send yet, because the server waits for it to read first'
BREAKS = 'both wait forever: the client reads nothing as long as it has something to send'
EDITS = [('paf/client.py', """        for i in range(0, MAX_MSGS_PER_ROUND):
            if not self.try_receive():""", """        for i in range(0, MAX_MSGS_PER_ROUND):
            if self.out_wire_msgs or not self.try_receive():""")]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    d = Daemon()
    code = r"""
import os, paf.client as c
conn = c.connect("ux:d", client_id=1)
got = []
n = 3000
for i in range(n):
    conn.services(response_cb=lambda ta, ev, *a, **o: got.append(ev.name) if ev.name == "COMPLETE" else None)
c.wait(conn, lambda: len(got) == n)
print("all", len(got))
"""
    try:
        r = subprocess.run([sys.executable, "-c", code], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=40)
    except subprocess.TimeoutExpired:
        raise Bad("the client hangs")
    need(r.stdout.strip() == "all 3000", "client: " + r.stdout[-400:])

run(main)
'''
