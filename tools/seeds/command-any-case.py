PROPERTY = 'P13'
NEEDS = 'a command name in capitals'
BREAKS = 'it is taken for the command'
EDITS = [('paf/proto.py',
  '    t = TA_TYPES[proto_version].get(ta_cmd)\n',
  '    t = TA_TYPES[proto_version].get(ta_cmd.lower())\n')]
DEMO = '''
def main():
    d = Daemon()
    w = Conn()
    need(ok(w.hello(1, 2, 2)), "hello")
    a = Conn()
    need(ok(a.hello(2)), "hello")
    a.send("Ping")
    need(a.closed(), "accepted")
    need(w.ping(), "bystander lost")

run(main)
'''
