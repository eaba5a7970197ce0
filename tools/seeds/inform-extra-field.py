PROPERTY = 'P13'
NEEDS = 'an inform with a field its command does not have'
BREAKS = 'it is accepted and answered'
EDITS = [('paf/proto.py',
  '            if len(in_msg) > 0:\n',
  '            if len(in_msg) > 0 and msg_type != MSG_TYPE_INFORM:\n')]
DEMO = '''
def main():
    d = Daemon()
    w = Conn()
    need(ok(w.hello(1, 2, 2)), "hello")
    a = Conn()
    need(ok(a.hello(2)), "hello")
    ta = a.send("track")
    need(a.recv()["msg-type"] == "accept", "track")
    a.send("track", ta, "inform", track_type="query", ttl=5)
    need(a.closed(), "accepted")
    need(w.ping(), "bystander lost")

run(main)
'''
