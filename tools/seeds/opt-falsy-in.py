PROPERTY = 'P20'
NEEDS = 'a notification with generation 0, TTL 0, client id 0 or no properties'
BREAKS = 'the callback does not get that value'
EDITS = [('paf/proto.py', """                arg = field.pull(in_msg, opt=True)
                if arg is not None:
""", """                arg = field.pull(in_msg, opt=True)
                if arg:
""")]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    d = Daemon(clock=False)
    a = Conn()
    need(ok(a.hello(0)), "hello")
    need(ok(a.publish(5, 0, {}, 30)), "publish")
    code = r"""
import paf.client as c
conn = c.connect("ux:d")
got = []
conn.subscribe(1, lambda ta, ev, *a, **o: got.append(o))
c.wait(conn, lambda: len(got) == 2)
print(sorted(got[1]))
"""
    r = subprocess.run([sys.executable, "-c", code], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "['client_id', 'generation', 'service_props', 'ttl']", "client: " + r.stdout[-400:])

run(main)
'''
