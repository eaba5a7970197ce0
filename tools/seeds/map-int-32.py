PROPERTY = 'P27'
NEEDS = 'a 64-bit integer attribute at creation of a socket'
BREAKS = 'it is truncated to 32 bits'
EDITS = [('paf/xcm.py', 'xcm_attr_map_add_int64_c.argtypes = [c_void_p, c_char_p, c_long]\n', 'xcm_attr_map_add_int64_c.argtypes = [c_void_p, c_char_p, c_int]\n')]
DEMO = '''
def main():
    r = subprocess.run([sys.executable, os.path.join(SCRATCH, "t.py")], env=dict(ENV), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
    need(r.stdout.strip().endswith("good"), r.stdout[-600:])

open(SCRATCH + "/t.py", "w").write(r"""
import paf.xcm as x
s = x.server("ux:t", attrs={"xcm.blocking": False})
for v in (7, -1, 1 << 31, (1 << 40) + 5):
    c = x.connect("ux:t", attrs={"xcm.blocking": False, "tcp.user_timeout": v})
    got = c.get_attr("tcp.user_timeout")
    assert got == v, (got, v)
    c.close()

print("good")
""")

run(main)
'''
