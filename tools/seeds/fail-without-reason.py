PROPERTY = 'P20'
NEEDS = 'a server that fails a request without giving a reason'
BREAKS = 'the call ends in a KeyError'
EDITS = [('paf/client.py', """        if self.result == EventType.FAIL:
            self.reason = optargs.get('fail_reason')
""", """        if self.result == EventType.FAIL:
            self.reason = optargs['fail_reason']
""")]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    code = r"""
import json, threading, paf.xcm as x, paf.client as c
s = x.server("ux:d")
def serve():
    k = s.accept()
    while True:
        m = json.loads(k.receive())
        h = m["ta-cmd"] == "hello"
        r = {"ta-cmd": m["ta-cmd"], "ta-id": m["ta-id"], "msg-type": "complete" if h else "fail"}
        if h:
            r["protocol-version"] = 3
        k.send(json.dumps(r).encode())
threading.Thread(target=serve, daemon=True).start()
conn = c.connect("ux:d")
try:
    conn.unpublish(1)
    print("no error")
except c.TransactionError as e:
    print("right")
except BaseException as e:
    print("wrong: %r" % e)
import os, sys
sys.stdout.flush()
os._exit(0)
"""
    r = subprocess.run([sys.executable, "-c", code], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "right", "client: " + r.stdout[-400:])

run(main)
'''
