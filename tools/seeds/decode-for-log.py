PROPERTY = 'P06'
NEEDS = 'a message which is not UTF-8'
BREAKS = 'the server ends in an exception'
EDITS = [('paf/server.py', """            self.debug("Received message: %s" % in_wire_msg,
                       LogCategory.PROTOCOL)
""", """            self.debug("Received message: %s" % in_wire_msg.decode(),
                       LogCategory.PROTOCOL)
""")]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)), "hello")
    b.send_raw(b"\\xff\\xfe{}")
    time.sleep(0.4)
    need(d.alive(), "server gone: " + d.output()[-300:])
    need(a.ping(), "ping")

run(main)
'''
