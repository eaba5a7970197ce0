PROPERTY = 'P24'
NEEDS = 'a termination signal while a domain has no client'
BREAKS = 'the server sockets of that domain are not closed'
EDITS = [('paf/server.py', """        for conn in conns:
            conn.terminate()

        assert""", """        if len(conns) == 0:
            return

        for conn in conns:
            conn.terminate()

        assert""")]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    code = r"""
import paf.xcm as x, paf.server as s, paf.conf as c, paf.eventloop as e
closed = []
real = x.ServerSocket.close
def close(self):
    closed.append(1)
    real(self)
x.ServerSocket.close = close
conf = c.Conf()
conf.set_domains([["ux:p", "ux:q"]])
d = conf.domains[0]
srv = s.create(None, d.sockets, conf.resources.user.resources, conf.resources.total.resources, d.proto_version_limit,
               d.idle_limit, e.EventLoop())
srv.terminate()
print(len(closed))
import os, sys
sys.stdout.flush()
os._exit(0)
"""
    r = subprocess.run([sys.executable, "-c", code], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "2", "closed: " + r.stdout[-400:])

run(main)
'''
