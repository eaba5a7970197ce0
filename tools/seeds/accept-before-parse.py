PROPERTY = 'P07'
NEEDS = 'a services request with a malformed filter'
BREAKS = 'the request is accepted, and then fails'
EDITS = [('paf/server.py', """        try:
            if filter is not None:
                filter = paf.filter.parse(filter)
                self.debug("Accepted""", """        try:
            yield ta.accept()
            if filter is not None:
                filter = paf.filter.parse(filter)
                self.debug("Accepted"""), ('paf/server.py', """                self.debug("Accepted list request for all services.",
                           LogCategory.CORE)
            yield ta.accept()
""", """                self.debug("Accepted list request for all services.",
                           LogCategory.CORE)
""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    got = a.ask("services", filter="(a=")
    need(len(got) == 1 and failed(got[0]), "responses %r" % got)
    need(len(a.ask("services", filter="(a=x)")) == 2, "responses")

run(main)
'''
