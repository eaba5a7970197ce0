PROPERTY = 'P17'
NEEDS = 'a client that reconnects again and again, always leaving a service behind which goes while it is connected'
BREAKS = 'the connection objects of the past are kept as long as the client has any service'
EDITS = [('paf/sd.py', """        if connection.is_stale():
            self.remove_connection(connection)

        if self.is_stale():""", """        if connection.is_stale() and not self.is_connected():
            self.remove_connection(connection)

        if self.is_stale():""")]
DEMO = '''
HOOK = r"""
import gc, paf.sd, paf.server, sys, threading, time
def count():
    while True:
        time.sleep(0.1)
        n = sum(1 for o in gc.get_objects() if type(o) is paf.sd.Connection)
        open(sys.argv[-1] + ".count", "w").write("%d" % n) if 0 else open("@@", "w").write("%d" % n)
threading.Thread(target=count, daemon=True).start()
"""

def main():
    site = SCRATCH + "/site"
    os.mkdir(site)
    open(site + "/sitecustomize.py", "w").write(HOOK.replace("@@", SCRATCH + "/count"))
    d = Daemon(env={"PYTHONPATH": site + ":" + REPO})
    sid = 100
    for i in range(12):
        a = Conn()
        need(ok(a.hello(1)), "hello")
        if i:
            need(ok(a.unpublish(sid)), "unpublish")
        sid += 1
        need(ok(a.publish(sid)), "publish")
        if i < 11:
            a.close()
            time.sleep(0.1)
            b = Conn()
            need(ok(b.hello(1)), "hello")
            # the orphan keeps the client alive; another one replaces it
            sid += 1
            need(ok(b.publish(sid)) and ok(b.unpublish(sid - 1)), "replace")
            b.close()
            time.sleep(0.1)
    time.sleep(0.5)
    n = int(open(SCRATCH + "/count").read())
    need(n <= 3, "%d connection objects for one connected client" % n)

run(main)
'''
