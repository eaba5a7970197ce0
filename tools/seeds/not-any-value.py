PROPERTY = 'P11'
NEEDS = 'a negated comparison and a property with several values, of which one matches'
BREAKS = 'the service matches although the negated expression matches, too'
EDITS = [('paf/filter.py', """    def match(self, service):
        return not self.operand.match(service)
""", """    def match(self, service):
        if isinstance(self.operand, Comparison):
            return self.mismatch(service.get(self.operand.key))
        return not self.operand.match(service)

    def mismatch(self, values):
        if not values:
            return True
        for value in values:
            if not self.operand.compare(value):
                return True
        return False
""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    need(ok(a.publish(5, props={"name": ["x", "y"]})), "publish")
    need(ok(a.publish(6, props={"name": ["y"]})), "publish")
    need(sorted(a.services(filter="(name=x)")) == [5], "match")
    got = sorted(a.services(filter="(!(name=x))"))
    need(got == [6], "(!(name=x)) matches %r" % got)

run(main)
'''
