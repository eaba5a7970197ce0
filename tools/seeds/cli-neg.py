PROPERTY = 'P26'
NEEDS = 'a property value which is a negative integer'
BREAKS = 'it is published as a string'
EDITS = [('app/pafc', '        elif value.strip() == value:\n            try:\n                value = int(value)\n            except ValueError:\n                pass\n            else:\n', '        elif value.isdigit():\n            try:\n                value = int(value)\n            except ValueError:\n                pass\n            else:\n')]
DEMO = '''
def pafc(args, text):
    return subprocess.run([sys.executable, REPO + "/app/pafc"] + args, env=ENV, input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, cwd=SCRATCH).stdout

def main():
    d = Daemon(clock=False)
    a = Conn()
    need(ok(a.hello(1)), "hello")
    out = pafc(["ux:d"], "publish 5 1 60 k -7 l 9\\n")
    m = a.services()
    need(5 in m, "no service: %r %s" % (m, out[-300:]))
    need(m[5]["service-props"] == {"k": [-7], "l": [9]}, "published: %r" % m[5])

run(main)
'''
