PROPERTY = 'P21'
NEEDS = 'an address with a number sign in it, as in an abstract or file system name'
BREAKS = 'the address is cut at the sign'
EDITS = [('paf/client.py', """        addr = line.strip()
        if len(addr) == 0 or addr[0] == '#':""", """        addr = line.split('#')[0].strip()
        if len(addr) == 0:""")]
DEMO = '''
def main():
    os.mkdir(SCRATCH + "/domains")
    open(SCRATCH + "/domains/a", "w").write("# one\\nux:service#1\\n")
    code = r"""
import paf.client as c
print([s.addr for s in c.read_domain("a")])
"""
    r = subprocess.run([sys.executable, "-c", code], env=dict(ENV, PAF_DOMAINS=SCRATCH + "/domains"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "['ux:service#1']", "addresses: " + r.stdout[-400:])

run(main)
'''
