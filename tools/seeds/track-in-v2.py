PROPERTY = 'P08'
NEEDS = 'a track request on a connection that negotiated version 2'
BREAKS = 'the command of version 3 is carried out'
EDITS = [('paf/proto.py',
  '    t = TA_TYPES[proto_version].get(ta_cmd)\n',
  '    t = TA_TYPES[proto_version].get(ta_cmd) or \\\n        TA_TYPES[MAX_VERSION].get(ta_cmd)\n')]
DEMO = '''
def main():
    d = Daemon()
    w = Conn()
    need(ok(w.hello(1, 2, 2)), "hello")
    a = Conn()
    need(ok(a.hello(2, 2, 2)), "hello")
    a.send("track")
    need(a.closed(), "accepted")
    need(w.ping(), "bystander lost")

run(main)
'''
