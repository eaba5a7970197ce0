PROPERTY = 'P20'
NEEDS = 'some hundred ids generated by one process'
BREAKS = 'ids repeat, so that a publish() replaces another service'
EDITS = [('paf/client.py', '        return random.randint(0, INT64_MAX)', '        return random.randint(0, INT64_MAX) >> 44')]
DEMO = '''
def main():
    d = Daemon()
    code = r"""
import sys
import paf.client as c
cl = c.connect(sys.argv[1])
ids = [cl.service_id() for _ in range(4000)] + [cl.subscription_id() for _ in range(4000)]
assert len(set(ids)) == len(ids), len(set(ids))
print("good")
"""
    r = subprocess.run([sys.executable, "-c", code, "ux:d"], env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "good", r.stdout[-400:])

run(main)
'''
