PROPERTY = 'P13'
NEEDS = 'a message type with a blank after it'
BREAKS = 'it is taken for the message type'
EDITS = [('paf/proto.py',
  '            fields = ta_type.fields.get(msg_type)',
  '            msg_type = msg_type.strip()\n            fields = ta_type.fields.get(msg_type)')]
DEMO = '''
def main():
    d = Daemon()
    w = Conn()
    need(ok(w.hello(1, 2, 2)), "hello")
    a = Conn()
    need(ok(a.hello(2)), "hello")
    a.send("ping", None, "request ")
    need(a.closed(), "accepted")
    need(w.ping(), "bystander lost")

run(main)
'''
