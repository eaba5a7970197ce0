PROPERTY = 'P24'
NEEDS = 'a termination signal while a client that does not read has messages waiting'
BREAKS = 'the server never ends'
EDITS = [('paf/server.py', """        for conn in conns:
            conn.terminate()

        assert""", """        for conn in conns:
            # let clients have what is already queued
            while conn.sendable():
                conn.try_send()
            conn.terminate()

        assert""")]
DEMO = '''
def main():
    d = Daemon(clock=False)
    a = Conn()
    need(ok(a.hello(1)), "hello")
    big = "x" * 20000
    for i in range(30):
        need(ok(a.publish(i, props={"name": [big]})), "publish")
    for i in range(40):
        a.send("services")
    time.sleep(0.5)
    rc = d.stop(wait=8)
    need(rc == 0, "exit status %r" % rc)

run(main)
'''
