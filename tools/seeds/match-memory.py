PROPERTY = 'P01'
NEEDS = 'a matching service is removed, published again under the same id with properties that do not match, and then modified'
BREAKS = 'a disappearance is notified although the service had not appeared'
EDITS = [('paf/sd.py', """        self.match_cb = match_cb

    def notify""", """        self.match_cb = match_cb
        self.matching = set()

    def notify"""), ('paf/sd.py', """            if self.matches(service.props()):
                self.match_cb(self.sub_id, MatchType.APPEARED, service)
        elif""", """            if self.matches(service.props()):
                self.matching.add(service.service_id)
                self.match_cb(self.sub_id, MatchType.APPEARED, service)
        elif"""), ('paf/sd.py', """            before = service.prev_props()
            after = service.props()
            if self.matches(before) and self.matches(after):
                self.match_cb(self.sub_id, MatchType.MODIFIED, service)
            elif not self.matches(before) and self.matches(after):
                self.match_cb(self.sub_id, MatchType.APPEARED, service)
            elif self.matches(before) and not self.matches(after):
                self.match_cb""", """            before = service.service_id in self.matching
            after = self.matches(service.props())
            if before and after:
                self.match_cb(self.sub_id, MatchType.MODIFIED, service)
            elif after:
                self.matching.add(service.service_id)
                self.match_cb(self.sub_id, MatchType.APPEARED, service)
            elif before:
                self.matching.remove(service.service_id)
                self.match_cb"""),
         ('paf/sd.py', """            if self.matches(service.prev_props()):
                self.match_cb(self.sub_id, MatchType.DISAPPEARED""", """            if service.service_id in self.matching:
                self.match_cb(self.sub_id, MatchType.DISAPPEARED""")]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    b.subscribe(7, filter="(name=x)")
    need(ok(a.publish(5, 1)) and ok(a.unpublish(5)), "publish")
    need(len(b.drain()) == 2, "appeared, disappeared")
    need(ok(a.publish(5, 1, {"name": ["y"]})), "publish")
    need(ok(a.publish(5, 2, {"name": ["z"]})), "publish")
    got = b.drain()
    need(not got, "told of a service that does not match: %r" % got)

run(main)
'''
