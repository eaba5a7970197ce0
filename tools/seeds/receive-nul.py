PROPERTY = 'P27'
NEEDS = 'a message with a zero byte'
BREAKS = 'the message is cut at the zero byte when received'
EDITS = [('paf/xcm.py', """        return bytes(buf.raw[:rc])""", """        return buf.value[:rc]""")]
DEMO = '''
def main():
    env = dict(ENV)
    r = subprocess.run([sys.executable, os.path.join(SCRATCH, "t.py")], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
    need(r.stdout.strip().endswith("good"), r.stdout[-600:])

open(SCRATCH + "/t.py", "w").write(r"""
import paf.xcm as x, ctypes, os, time

s = x.server("ux:t", attrs={"xcm.blocking": False})
c = x.connect("ux:t", attrs={"xcm.blocking": False})
time.sleep(0.1)
a = s.accept()
for m in (b"abc", b"a\\\\0b", b"\\\\0" * 70, bytes(range(256))):
    c.send(m)
    time.sleep(0.05)
    got = a.receive()
    assert got == m, (got, m)

print("good")
""")

run(main)
'''
