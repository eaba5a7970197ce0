PROPERTY = 'P07'
NEEDS = 'a request under the id of a transaction that is still open'
BREAKS = 'it takes the place of the open one, whose id is then closed under it'
EDITS = [('paf/server.py',
  '        if ta is None:\n            ta = Transaction(',
  '        if ta is None or in_msg.is_request():\n            ta = Transaction(')]
DEMO = '''
def main():
    d = Daemon()
    w = Conn()
    need(ok(w.hello(1, 2, 2)), "hello")
    a = Conn()
    need(ok(a.hello(2)), "hello")
    ta, r = a.subscribe(1)
    need(r["msg-type"] == "accept", "subscribe")
    a.send("ping", ta)
    need(a.closed(), "ping in the transaction of the subscription is answered")
    need(w.ping(), "bystander lost")

run(main)
'''
