PROPERTY = 'P20'
NEEDS = 'a server that completes a listing it has not accepted'
BREAKS = 'the client library takes it for a listing without entries'
EDITS = [('paf/client.py',
  '              ((self.state == TransactionState.REQUESTING and\n'
  '                self.ta_type.ia_type == proto.InteractionType.SINGLE_RESPONSE)\n'
  '               or',
  '              (self.state == TransactionState.REQUESTING or')]
DEMO = '''
sys.path.insert(0, REPO)
import threading

def main():
    l = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
    l.bind("\\0%s/s/ux:f" % NS)
    l.listen(5)

    def serve():
        s = l.accept()[0]
        while True:
            d = s.recv(70000)
            if not d:
                return
            m = json.loads(d)
            r = {"ta-cmd": m["ta-cmd"], "ta-id": m["ta-id"], "msg-type": "complete"}
            if m["ta-cmd"] == "hello":
                r["protocol-version"] = 2
            s.send(json.dumps(r).encode())
    threading.Thread(target=serve, daemon=True).start()
    code = r"""
import paf.client as c
conn = c.connect("ux:f", client_id=1)
try:
    print("listed", conn.services())
except c.ProtocolError as e:
    print("rejected")
"""
    r = subprocess.run([sys.executable, "-c", code], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "rejected", r.stdout[-400:])

run(main)
'''
