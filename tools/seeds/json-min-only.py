PROPERTY = 'P21'
NEEDS = 'a JSON domain file with a minimum but no maximum protocol version'
BREAKS = 'the minimum is ignored'
EDITS = [('paf/client.py', '        if "minProtocolVersion" in server_obj:\n            server.proto_version_min = server_obj["minProtocolVersion"]\n        if "maxProtocolVersion" in server_obj:\n            server.proto_version_max = server_obj["maxProtocolVersion"]\n', '        if "maxProtocolVersion" in server_obj:\n            server.proto_version_min = \\\n                server_obj.get("minProtocolVersion", proto.MIN_VERSION)\n            server.proto_version_max = server_obj["maxProtocolVersion"]\n')]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    os.makedirs(SCRATCH + "/dom", exist_ok=True)
    open(SCRATCH + "/dom/x", "w").write('{"servers": [{"address": "ux:d", "minProtocolVersion": 3}]}')
    code = "import paf.client as c; print([s.proto_version_range() for s in c.read_domain('x')])"
    r = subprocess.run([sys.executable, "-c", code], env=dict(ENV, PAF_DOMAINS=SCRATCH + "/dom", PYTHONPATH=REPO), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need("[(3, 3)]" in r.stdout, r.stdout[-300:])

run(main)
'''
