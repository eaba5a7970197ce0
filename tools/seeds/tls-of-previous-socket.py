PROPERTY = 'P19'
NEEDS = 'a domain in which a plain socket follows a socket with TLS settings'
BREAKS = 'the plain socket gets the credentials of the one before it'
EDITS = [('paf/conf.py', """        for socket_num, socket in enumerate(sockets):
""", """        tls_attrs = {}

        for socket_num, socket in enumerate(sockets):
"""),
         ('paf/conf.py', """                    tls_attrs = socket["tls"]""", """                    tls_attrs.update(socket["tls"])"""),
         ('paf/conf.py', """                else:
                    tls_attrs = {}

                domain_conf.add_socket(addr, tls_attrs)""", """
                domain_conf.add_socket(addr, tls_attrs)""")]
DEMO = '''
sys.path.insert(0, REPO)
import logging.handlers
os.environ["LD_LIBRARY_PATH"] = SCRATCH
import paf.conf

def main():
    c = SCRATCH + "/c.yaml"
    open(c, "w").write("""
domains:
  - sockets:
    - addr: tls:0.0.0.0:1
      tls: { cert: /a, key: /b, tc: /c }
    - addr: tls:0.0.0.0:2
""")
    conf = paf.conf.load(c)
    socks = conf.domains[0].sockets
    need(socks[0].tls_attrs == {"cert": "/a", "key": "/b", "tc": "/c"}, "first socket")
    need(socks[1].tls_attrs == {}, "second socket has %r" % (socks[1].tls_attrs,))

run(main)
'''
