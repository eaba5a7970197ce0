PROPERTY = 'P18'
NEEDS = 'a connection that never says hello but keeps on sending other requests'
BREAKS = 'it is never dropped'
EDITS = [('paf/server.py', """            self.respond(ta.fail(fail_reason=proto.FAIL_REASON_NO_HELLO))""", """            self.connect_time = time.time()
            self.respond(ta.fail(fail_reason=proto.FAIL_REASON_NO_HELLO))""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    for i in range(12):
        try:
            m = a.ask("ping")[-1]
        except OSError:
            return
        if m is None:
            return
        need(failed(m, "no-hello"), "%r" % m)
        d.advance(0.9, 0.1)
    need(a.closed(0.5), "still there after %d s" % (12 * 0.9))

run(main)
'''
