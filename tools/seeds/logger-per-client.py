PROPERTY = 'P17'
NEEDS = 'very many clients, with ids of their own, over time'
BREAKS = 'a logger for each of them is kept for ever'
EDITS = [('paf/server.py',
  '        log_fun("%s<%s> %s" % (prefix, client, msg), category)\n',
  '        logger = logging.getLogger("paf.client.%s" % client)\n'
  '        if logger.isEnabledFor(logging.CRITICAL):\n'
  '            log_fun("%s<%s> %s" % (prefix, client, msg), category)\n'),
 ('paf/server.py', 'import errno\n', 'import errno\nimport logging\n')]
DEMO = '''
def main():
    hook = SCRATCH + "/hooked.py"
    open(hook, "w").write("""
import logging, threading, time
def start(servers):
    def watch():
        while True:
            time.sleep(0.2)
            n = len(logging.root.manager.loggerDict)
            open(%r, "w").write(str(n))
    threading.Thread(target=watch, daemon=True).start()
""" % (SCRATCH + "/count"))
    d = Daemon(["-r", "hooked.start"], env=dict(ENV, PYTHONPATH=REPO + ":" + SCRATCH))
    for i in range(400):
        a = Conn()
        need(ok(a.hello(1000 + i)), "hello")
        a.close()
    time.sleep(1)
    n = int(open(SCRATCH + "/count").read())
    need(n < 100, "%d loggers" % n)

run(main)
'''
