PROPERTY = 'P22'
NEEDS = 'more than a hundred services'
BREAKS = 'a listing ends after the first hundred'
EDITS = [('paf/server.py', """            for service in self.sd.get_services():
""", """            for service in list(self.sd.get_services())[:100]:
""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    for i in range(130):
        need(ok(a.publish(i)), "publish")
    got = a.services()
    need(len(got) == 130, "%d of 130 services listed" % len(got))

run(main)
'''
