PROPERTY = 'P04'
NEEDS = 'a client that cancels a subscription of another client of the same user'
BREAKS = 'the foreign subscription is cancelled'
EDITS = [('paf/sd.py', """    def check_access(self, client_id):
        if client_id != self.client_id:""", """    def check_access(self, client_id, user_id):
        if client_id != self.client_id and user_id != self.user_id:"""),
         ('paf/sd.py', """        subscription.check_access(self.client_id)""", """        subscription.check_access(self.client_id, self.user_id)"""),
         ('paf/sd.py', """        connection = self.get_subscription_connection(subscription)
""", """        owner = self.db.get_client(subscription.client_id)
        connection = owner.get_subscription_connection(subscription)
"""),
         ('paf/server.py', """            sub_ta = self.sub_tas[sub_id]
            del self.sub_tas[sub_id]
            yield sub_ta.complete()
            yield ta.complete()
""", """            sub_ta = self.sub_tas.pop(sub_id, None)
            if sub_ta is not None:
                yield sub_ta.complete()
            yield ta.complete()
"""),
         ('paf/server.py', """"Canceled subscription %d in transaction %d." %
                       (sub_id, sub_ta.ta_id),""", """"Canceled subscription %d in transaction %d." %
                       (sub_id, ta.ta_id),""")]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    need(a.subscribe(3)[1]["msg-type"] == "accept", "subscribe")
    m = b.ask("unsubscribe", subscription_id=3)[-1]
    need(failed(m, "permission-denied"), "unsubscribe by another client: %r" % m)

run(main)
'''
