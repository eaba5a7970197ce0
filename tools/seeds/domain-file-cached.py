PROPERTY = 'P21'
NEEDS = 'a domain file rewritten within the second in which it was read, to contents of the same size'
BREAKS = 'the servers of the old file are returned'
EDITS = [('paf/client.py', """def read_domain(domain):
    try:
        domains_data = open(domain_filename(domain)).read()
    except IOError:
        return []
""", """domain_files = {}


def read_domain_file(filename):
    st = os.stat(filename)
    version = (st.st_size, int(st.st_mtime))
    cached_version, data = domain_files.get(filename, (None, None))
    if cached_version != version:
        with open(filename) as f:
            data = f.read()
        domain_files[filename] = (version, data)
    return data


def read_domain(domain):
    try:
        domains_data = read_domain_file(domain_filename(domain))
    except IOError:
        return []
""")]
DEMO = '''
def main():
    os.mkdir(SCRATCH + "/domains")
    code = r"""
import os, sys
import paf.client as c
f = os.path.join(os.environ["PAF_DOMAINS"], "a")
for i in range(5):
    open(f, "w").write("ux:service%d" % i)
    got = [s.addr for s in c.read_domain("a")]
    assert got == ["ux:service%d" % i], (i, got)
print("good")
"""
    r = subprocess.run([sys.executable, "-c", code], env=dict(ENV, PAF_DOMAINS=SCRATCH + "/domains"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "good", r.stdout[-400:])

run(main)
'''
