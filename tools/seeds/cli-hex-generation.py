PROPERTY = 'P26'
NEEDS = 'a publish command without a service id, an even number of arguments'
BREAKS = 'the generated id printed is not the one published'
EDITS = [('app/pafc', '                service_id = self.conn.service_id()\n                print("Service Id %x." % service_id)\n', '                service_id = self.conn.service_id()\n                print("Service Id %x." % (service_id & 0xffffffff))\n')]
DEMO = '''
def pafc(args, text):
    return subprocess.run([sys.executable, REPO + "/app/pafc"] + args, env=ENV, input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, cwd=SCRATCH).stdout

def main():
    d = Daemon(clock=False)
    a = Conn()
    need(ok(a.hello(1)), "hello")
    import re
    for i in range(3):
        out = pafc(["ux:d"], "publish 1 60 k v\\n")
        i = int(re.search("Service Id ([0-9a-f]+)", out).group(1), 16)
        m = a.services()
        need(i in m, "printed %x: %r" % (i, list(m)))

run(main)
'''
