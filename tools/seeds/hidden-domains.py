PROPERTY = 'P21'
NEEDS = 'a domain file whose name begins with a dot'
BREAKS = 'it is left out of the listing of all domains'
EDITS = [('paf/client.py', '        if os.path.isfile(os.path.join(d, f)):', "        if not f.startswith('.') and os.path.isfile(os.path.join(d, f)):")]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    os.mkdir(SCRATCH + "/dd")
    for n in ("a", ".b"):
        open(SCRATCH + "/dd/" + n, "w").write("ux:x\\n")
    r = subprocess.run([sys.executable, REPO + "/app/pafc", "-l"], env=dict(ENV, PAF_DOMAINS=SCRATCH + "/dd"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(sorted(r.stdout.split()) == [".b", "a"], "listed: " + r.stdout)

run(main)
'''
