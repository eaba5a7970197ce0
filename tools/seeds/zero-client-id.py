PROPERTY = 'P08'
NEEDS = 'a client with client id 0 that says hello again with another id'
BREAKS = 'it is let in under the other id as well'
EDITS = [('paf/server.py', """        if self.client_id is None:
            self.client_id = client_id
""", """        if not self.client_id:
            self.client_id = client_id
""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(failed(a.hello(0, 7, 9), "unsupported-protocol-version"), "first")
    need(failed(a.hello(4, 2, 3), "permission-denied"), "other id")
    need(ok(a.hello(0, 2, 3)), "same id")

run(main)
'''
