PROPERTY = 'P13'
NEEDS = 'a publish with a negative time to live'
BREAKS = 'it is accepted'
EDITS = [('paf/proto.py',
  '        if value < 0:\n'
  '            raise ProtocolError("Message field %s has a negative "\n'
  '                                "value %d" % (self.name, value))',
  "        if value < 0 and self.name != 'ttl':\n"
  '            raise ProtocolError("Message field %s has a negative "\n'
  '                                "value %d" % (self.name, value))')]
DEMO = '''
def main():
    d = Daemon()
    w = Conn()
    need(ok(w.hello(1, 2, 2)), "hello")
    a = Conn()
    need(ok(a.hello(2)), "hello")
    a.send("publish", service_id=1, generation=1, service_props={"name": ["x"]}, ttl=-1)
    need(a.closed(), "accepted")
    need(w.ping(), "bystander lost")

run(main)
'''
