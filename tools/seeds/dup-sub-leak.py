PROPERTY = "P05"
NEEDS = "a subscription limit, and a refused subscribe with an id that is in use"
BREAKS = "the refused request consumes a subscription for good; later ones are refused although there is room"
EDITS = [("paf/sd.py", """        if self.db.has_subscription(sub_id):
            raise AlreadyExistsError("subscription", sub_id)

        self.resource_manager.allocate(self.user_id,
                                       ResourceType.SUBSCRIPTION)

""", """        self.resource_manager.allocate(self.user_id,
                                       ResourceType.SUBSCRIPTION)

        if self.db.has_subscription(sub_id):
            raise AlreadyExistsError("subscription", sub_id)

""")]
DEMO = '''
CONF = """
domains:
  - addrs: [ "ux:d" ]
resources:
  total:
    subscriptions: 3
"""

def main():
    d = Daemon(conf=CONF)
    a = Conn()
    need(ok(a.hello(1)), "hello")
    a.subscribe(7)
    for _ in range(2):
        need(failed(a.subscribe(7)[1], "subscription-id-exists"), "second subscribe with the id")
    m = a.subscribe(8)[1]
    need(m["msg-type"] == "accept", "second subscription of three: %r" % m)

run(main)
'''
