PROPERTY = 'P17'
NEEDS = 'many subscriptions, over time, each with a filter of its own'
BREAKS = 'every filter ever used is kept'
EDITS = [('paf/filter.py', """import re

BEGIN""", """import functools
import re

BEGIN"""), ('paf/filter.py', """def parse(filter_s):
    state""", """@functools.lru_cache(maxsize=None)
def parse(filter_s):
    state""")]
DEMO = '''
HOOK = r"""
import gc, paf.filter, sys, threading, time
def count():
    while True:
        time.sleep(0.1)
        n = sum(1 for o in gc.get_objects() if type(o) is paf.filter.And)
        open("@@", "w").write("%d" % n)
threading.Thread(target=count, daemon=True).start()
"""

def main():
    site = SCRATCH + "/site"
    os.mkdir(site)
    open(site + "/sitecustomize.py", "w").write(HOOK.replace("@@", SCRATCH + "/count"))
    d = Daemon(env={"PYTHONPATH": site + ":" + REPO})
    a = Conn()
    need(ok(a.hello(1)), "hello")
    for i in range(60):
        a.subscribe(i, filter="(&(name=x)(port=%d))" % i)
        need(ok(a.ask("unsubscribe", subscription_id=i)[-1]), "unsubscribe")
        a.services(filter="(&(a=x)(b=%d))" % i)
    time.sleep(0.6)
    n = int(open(SCRATCH + "/count").read() or 0)
    need(n <= 5, "%d filters for no subscription" % n)

run(main)
'''
