PROPERTY = 'P06'
NEEDS = 'a message of a known command with an unknown message type'
BREAKS = 'an exception other than a protocol violation ends the server'
EDITS = [('paf/proto.py', """            fields = ta_type.fields.get(msg_type)
            opt_fields = ta_type.opt_fields.get(msg_type)
""", """            fields = ta_type.fields[msg_type]
            opt_fields = ta_type.opt_fields[msg_type]
""")]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    b.send("ping", kind="command")
    need(b.closed(), "violator not disconnected")
    need(a.ping() and d.alive(), "other client lost")

run(main)
'''
