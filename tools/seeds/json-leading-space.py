PROPERTY = 'P21'
NEEDS = 'a JSON domain file that begins with an empty line'
BREAKS = 'it is taken for a list of addresses'
EDITS = [('paf/client.py', """        if c in ('\\n', '\\r', ' ', '\\t'):
            continue
""", """        if c in (' ', '\\t'):
            continue
""")]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    os.makedirs(SCRATCH + "/doms", exist_ok=True)
    with open(SCRATCH + "/doms/x", "w") as f:
        f.write('\\n{"servers": [{"address": "ux:one"}]}\\n')
    code = "import paf.client as c; print([s.addr for s in c.read_domain('x')])"
    r = subprocess.run([sys.executable, "-c", code], env=dict(ENV, PAF_DOMAINS=SCRATCH + "/doms"), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "['ux:one']", "read: " + r.stdout[-400:])

run(main)
'''
