PROPERTY = 'P27'
NEEDS = 'a boolean attribute set on an open socket'
BREAKS = 'it is set as an integer'
EDITS = [('paf/xcm.py', '        if isinstance(attr_value, bool):\n            set_fun = xcm_attr_set_bool_c\n        elif isinstance(attr_value, int):\n            set_fun = xcm_attr_set_int64_c\n        elif', '        if isinstance(attr_value, int):\n            set_fun = xcm_attr_set_int64_c\n        elif')]
DEMO = '''
def main():
    r = subprocess.run([sys.executable, os.path.join(SCRATCH, "t.py")], env=dict(ENV), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
    need(r.stdout.strip().endswith("good"), r.stdout[-600:])

open(SCRATCH + "/t.py", "w").write(r"""
import paf.xcm as x
s = x.server("ux:t", attrs={"xcm.blocking": False})
c = x.connect("ux:t", attrs={"xcm.blocking": False})
try:
    c.set_attr("tcp.keepalive", False)
except OSError as e:
    raise SystemExit("refused: %s" % e)
assert c.get_attr("tcp.keepalive") is False

print("good")
""")

run(main)
'''
