PROPERTY = 'P06'
NEEDS = 'a client with both services and a subscription that matches them, disconnecting'
BREAKS = 'the notification of its orphaned services goes to the closed connection and ends the server'
EDITS = [('paf/sd.py', """        for subscription in list(inactivated.get_subscriptions()):
            self.remove_subscription(subscription)

        if inactivated.is_stale():
            self.remove_connection(inactivated)

        for service in inactivated.get_services():
            with service.modify() as change:
                change.orphan_since = inactivated.disconnected_at

""", """        for service in inactivated.get_services():
            with service.modify() as change:
                change.orphan_since = inactivated.disconnected_at

        for subscription in list(inactivated.get_subscriptions()):
            self.remove_subscription(subscription)

        if inactivated.is_stale():
            self.remove_connection(inactivated)

"""),
         ('paf/server.py', """        if self.handshaked:
            self.sd.client_disconnect(self.client_id)
        self.event_loop.remove(self.conn_source)
        self.conn_sock.close()
        self.conn_sock = None
        self.conn_source = None
""", """        self.event_loop.remove(self.conn_source)
        self.conn_sock.close()
        self.conn_sock = None
        self.conn_source = None
        if self.handshaked:
            self.sd.client_disconnect(self.client_id)
""")]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    need(ok(a.publish(5)), "publish")
    need(a.subscribe(3)[1]["msg-type"] == "accept", "subscribe")
    a.close()
    time.sleep(0.3)
    need(d.alive(), "server ended")
    need("orphan-since" in b.services()[5], "not an orphan")

run(main)
'''
