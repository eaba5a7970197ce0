PROPERTY = 'P27'
NEEDS = 'a string attribute of more than 256 bytes'
BREAKS = 'it can not be read'
EDITS = [('paf/xcm.py', """        attr_capacity = 8192
""", """        attr_capacity = 256
""")]
DEMO = '''
def main():
    r = subprocess.run([sys.executable, os.path.join(SCRATCH, "t.py")], env=dict(ENV), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
    need(r.stdout.strip().endswith("good"), r.stdout[-600:])

open(SCRATCH + "/t.py", "w").write(r"""
import paf.xcm as x
s = x.server("ux:t", attrs={"xcm.blocking": False})
c = x.connect("ux:t", attrs={"xcm.blocking": False})
for n in (3, 200, 255, 300, 1000):
    c.set_attr("xcm.label", "a" * n)
    got = c.get_attr("xcm.label")
    assert got == "a" * n, (n, got)
print("good")
""")

run(main)
'''
