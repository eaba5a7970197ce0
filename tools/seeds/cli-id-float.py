PROPERTY = 'P26'
NEEDS = 'an identifier beyond 2**53 in a command'
BREAKS = 'the request carries a rounded identifier'
EDITS = [('app/pafc', '        return int(id_str, 16)', '        return int(float.fromhex(id_str))')]
DEMO = '''
def main():
    d = Daemon(clock=False)
    a = Conn()
    need(ok(a.hello(1)), "hello")
    sid = (1 << 60) + 1
    need(ok(a.publish(sid)), "publish")
    r = subprocess.run([sys.executable, REPO + "/app/pafc", "ux:d"], env=ENV, input="unpublish %x\\nquit\\n" % sid,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need("OK." in r.stdout and not a.services(), "printed: " + r.stdout[-300:])

run(main)
'''
