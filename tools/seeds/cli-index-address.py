PROPERTY = 'P26'
NEEDS = 'a server index and a domain entry with protocol version bounds'
BREAKS = 'they are not applied'
EDITS = [('app/pafc', '                server = servers[server_num]\n', '                server = client.ServerConf(servers[server_num].addr)\n')]
DEMO = '''
def pafc(args, text):
    return subprocess.run([sys.executable, REPO + "/app/pafc"] + args, env=ENV, input=text, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, cwd=SCRATCH).stdout

def main():
    d = Daemon(clock=False)
    os.makedirs(SCRATCH + "/dom", exist_ok=True)
    open(SCRATCH + "/dom/x", "w").write('{"servers": [{"address": "ux:zz"}, {"address": "ux:d", "maxProtocolVersion": 2}]}')
    ENV["PAF_DOMAINS"] = SCRATCH + "/dom"
    out = pafc(["-n", "1", "x"], "hello\\n")
    need("Version: 2" in out, out[-400:])

run(main)
'''
