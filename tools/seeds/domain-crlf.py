PROPERTY = 'P21'
NEEDS = 'a plain domain file with a comment after leading spaces'
BREAKS = 'the comment is taken as an address'
EDITS = [('paf/client.py', "        addr = line.strip()\n        if len(addr) == 0 or addr[0] == '#':\n            continue\n        servers.append(ServerConf(addr))\n", "        if len(line.strip()) == 0 or line[0] == '#':\n            continue\n        servers.append(ServerConf(line.strip()))\n")]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    os.makedirs(SCRATCH + "/dom", exist_ok=True)
    open(SCRATCH + "/dom/x", "w").write("  # first\\nux:d\\n\\t#x\\n ux:e \\n")
    r = subprocess.run([sys.executable, REPO + "/app/pafc", "-a", "x"], env=dict(ENV, PAF_DOMAINS=SCRATCH + "/dom"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.split() == ["ux:d", "ux:e"], r.stdout)

run(main)
'''
