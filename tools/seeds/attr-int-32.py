PROPERTY = 'P27'
NEEDS = 'a 64-bit attribute value beyond 32 bits'
BREAKS = 'the value is truncated when read'
EDITS = [('paf/xcm.py', """        return int_value.contents.value""", """        return c_int(int_value.contents.value).value""")]
DEMO = '''
def main():
    env = dict(ENV)
    r = subprocess.run([sys.executable, os.path.join(SCRATCH, "t.py")], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
    need(r.stdout.strip().endswith("good"), r.stdout[-600:])

open(SCRATCH + "/t.py", "w").write(r"""
import paf.xcm as x, ctypes, os, time

s = x.server("ux:t", attrs={"xcm.blocking": False})
c = x.connect("ux:t", attrs={"xcm.blocking": False})
for v in (7, -1, 1 << 31, (1 << 40) + 5, -(1 << 50)):
    c.set_attr("tcp.user_timeout", v)
    got = c.get_attr("tcp.user_timeout")
    assert got == v, (got, v)

print("good")
""")

run(main)
'''
