PROPERTY = 'P21'
NEEDS = 'an indented address or comment in a domain file'
BREAKS = 'the blanks become part of the address, or the comment becomes one'
EDITS = [('paf/client.py', """        addr = line.strip()
""", """        addr = line.rstrip()
""")]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    os.makedirs(SCRATCH + "/doms", exist_ok=True)
    with open(SCRATCH + "/doms/x", "w") as f:
        f.write('  # first\\n  ux:one\\n')
    code = "import paf.client as c; print([s.addr for s in c.read_domain('x')])"
    r = subprocess.run([sys.executable, "-c", code], env=dict(ENV, PAF_DOMAINS=SCRATCH + "/doms"), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "['ux:one']", "read: " + r.stdout[-400:])

run(main)
'''
