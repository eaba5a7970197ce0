PROPERTY = 'P07'
NEEDS = 'a transaction id that is used again after its request failed'
BREAKS = 'the failed transaction is never forgotten; a new request under its id ends the server'
EDITS = [('paf/server.py', """        self.state = TransactionState.FAILED

        self.terminate()

""", """        self.state = TransactionState.FAILED

""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    ta = a.send("unpublish", service_id=9)
    need(failed(a.until(ta)[-1], "non-existent-service-id"), "unpublish")
    a.send("ping", ta=ta)
    r = a.until(ta)[-1]
    need(ok(r), "id not usable again: %r" % r)

run(main)
'''
