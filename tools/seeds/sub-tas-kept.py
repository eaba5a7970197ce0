PROPERTY = 'P17'
NEEDS = 'many subscriptions made and cancelled on one connection'
BREAKS = 'the transactions of cancelled subscriptions are kept for as long as the connection lasts'
EDITS = [('paf/server.py', """            sub_ta = self.sub_tas[sub_id]
            del self.sub_tas[sub_id]
""", """            sub_ta = self.sub_tas[sub_id]
""")]
DEMO = '''
sys.path.insert(0, REPO)
sys.path.insert(0, SCRATCH)
open(SCRATCH + "/hooked.py", "w").write("""
import gc, os, threading, time, paf.server
def watch():
    while not os.path.exists("%s"):
        time.sleep(0.05)
    gc.collect()
    n = sum(isinstance(o, paf.server.Transaction) for o in gc.get_objects())
    open("%s", "w").write("%%d." %% n)
def hook(servers):
    threading.Thread(target=watch, daemon=True).start()
""" % (SCRATCH + "/go", SCRATCH + "/count"))

def main():
    d = Daemon(args=["-r", "hooked.hook"], env={"PYTHONPATH": REPO + ":" + SCRATCH})
    a = Conn()
    need(ok(a.hello(1)), "hello")
    for i in range(200):
        need(a.subscribe(i)[1]["msg-type"] == "accept", "subscribe")
        need(ok(a.ask("unsubscribe", subscription_id=i)[-1]), "unsubscribe")
    a.drain()
    open(SCRATCH + "/go", "w")
    for _ in range(100):
        time.sleep(0.1)
        if os.path.exists(SCRATCH + "/count") and open(SCRATCH + "/count").read().endswith("."):
            break
    n = int(open(SCRATCH + "/count").read()[:-1])
    need(n < 50, "%d transactions kept after 200 cancelled subscriptions" % n)

run(main)
'''
