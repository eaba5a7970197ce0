PROPERTY = 'P21'
NEEDS = 'a domain file which is a symbolic link'
BREAKS = 'the domain is not listed'
EDITS = [('paf/client.py',
  '        if os.path.isfile(os.path.join(d, f)):',
  '        p = os.path.join(d, f)\n        if os.path.isfile(p) and not os.path.islink(p):')]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    os.makedirs(SCRATCH + "/dom", exist_ok=True)
    open(SCRATCH + "/dom/x", "w").write("ux:d\\n")
    open(SCRATCH + "/real", "w").write("ux:e\\n")
    os.symlink(SCRATCH + "/real", SCRATCH + "/dom/y")
    code = "import paf.client as c\\nprint(sorted(c.list_domains()))"
    r = subprocess.run([sys.executable, "-c", code], env=dict(ENV, PAF_DOMAINS=SCRATCH + "/dom"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "['x', 'y']", r.stdout)

run(main)
'''
