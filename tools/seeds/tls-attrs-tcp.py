PROPERTY = 'P19'
NEEDS = 'TLS credentials on a TCP address whose host part contains "tls"'
BREAKS = 'they are accepted instead of rejected'
EDITS = [('paf/conf.py', """    if proto != "tls" and proto != "utls":
""", """    if "tls:" not in addr and "tls" not in addr.split(".")[0]:
""")]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    code = r"""
import logging.handlers, paf.conf as c
open("c.yaml", "w").write("domains: [{sockets: [{addr: 'tcp:tls-gw.example:7', tls: {cert: /c}}]}]")
try:
    c.load("c.yaml")
    print("taken")
except c.Error:
    print("rejected")
"""
    r = subprocess.run([sys.executable, "-c", code], env=ENV, cwd=SCRATCH, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "rejected", "TLS attributes on TCP: " + r.stdout[-400:])

run(main)
'''
