PROPERTY = 'P19'
NEEDS = 'a configuration value of false, 0 or the empty string where the default is another'
BREAKS = 'the default is used instead'
EDITS = [('paf/conf.py', """    if value is None:
        if required:
            assert default is None
""", """    if not value:
        if required and value is None:
            assert default is None
""")]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    code = r"""
import logging.handlers, paf.conf as c
open("c.yaml", "w").write("domains: [{sockets: ['ux:d'], idle: {min: 0}}]")
try:
    c.load("c.yaml")
    print("taken")
except c.Error:
    print("rejected")
"""
    r = subprocess.run([sys.executable, "-c", code], env=ENV, cwd=SCRATCH, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "rejected", "idle.min 0: " + r.stdout[-400:])

run(main)
'''
