PROPERTY = 'P21'
NEEDS = 'a process that connects to a server with credentials and then to another one'
BREAKS = 'credentials of one server are used for another'
EDITS = [('paf/client.py', """    def __init__(self, addr, proto_version_min=proto.MIN_VERSION,
                 proto_version_max=proto.MAX_VERSION):
""", """    def __init__(self, addr, proto_version_min=proto.MIN_VERSION,
                 proto_version_max=proto.MAX_VERSION, attrs={}):
"""),
         ('paf/client.py', """        self.attrs = {}
""", """        self.attrs = attrs
""")]
DEMO = '''
def main():
    os.mkdir(SCRATCH + "/domains")
    open(SCRATCH + "/domains/a", "w").write('{"servers": [{"address": "tls:1.2.3.4:5", "tlsKeyFile": "/k"}]}')
    open(SCRATCH + "/domains/b", "w").write("tls:1.2.3.4:6")
    code = r"""
import paf.client as c
print(c.domain_server("a").attrs, c.domain_server("b").attrs)
"""
    r = subprocess.run([sys.executable, "-c", code], env=dict(ENV, PAF_DOMAINS=SCRATCH + "/domains"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "{'tls.key_file': '/k'} {}", "attributes: " + r.stdout[-400:])

run(main)
'''
