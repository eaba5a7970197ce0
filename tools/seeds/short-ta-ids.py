PROPERTY = 'P20'
NEEDS = 'more than 256 requests on a connection with a transaction still open from the start'
BREAKS = 'an id in use is used again; the open subscription is cut off'
EDITS = [('paf/client.py', """        self.ta_id += 1
""", """        self.ta_id = (self.ta_id + 1) & 0xff
""")]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    d = Daemon()
    code = r"""
import paf.client as c
conn = c.connect("ux:d")
got = []
conn.subscribe(1, lambda ta, ev, *a, **o: got.append((ev.name,) + a[:2]))
c.wait(conn, lambda: got)
for i in range(300):
    conn.ping()
conn.publish(7, 1, {"name": {"x"}}, 60)
conn.ping()
print(got)
"""
    r = subprocess.run([sys.executable, "-c", code], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "[('ACCEPT',), ('NOTIFY', 'appeared', 7)]", "client: " + r.stdout[-400:])

run(main)
'''
