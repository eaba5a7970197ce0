PROPERTY = 'P26'
NEEDS = 'an orphan whose time is given by a client with an unknown TTL of zero left'
BREAKS = 'an orphan about to time out is shown as not orphaned'
EDITS = [('app/pafc', '                if orphan_since is None:\n                    orphan_s = "-"\n                else:\n                    orphan_s = "%6.1f" % orphan_left(service_ttl, orphan_since)\n', '                left = 0\n                if orphan_since is not None:\n                    left = int(orphan_left(service_ttl, orphan_since))\n                if left == 0:\n                    orphan_s = "-"\n                else:\n                    orphan_s = "%6.1f" % orphan_left(service_ttl, orphan_since)\n')]
DEMO = '''
def pafc(args, text):
    return subprocess.run([sys.executable, REPO + "/app/pafc"] + args, env=ENV, input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, cwd=SCRATCH).stdout

def main():
    d = Daemon(clock=False)
    a = Conn()
    need(ok(a.hello(1)) and ok(a.publish(0xabc, ttl=3, props={"k": ["x"]})), "publish")
    a.close()
    time.sleep(2.2)
    out = pafc(["ux:d"], "services\\n")
    line = [l for l in out.splitlines() if "abc" in l]
    if line:
        need(line[0].split()[3 if not line[0].startswith(">") else 4] != "-", out[-400:])

run(main)
'''
