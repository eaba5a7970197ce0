PROPERTY = 'P06'
NEEDS = 'a subscriber whose connection breaks just when another client publishes'
BREAKS = 'the publisher is disconnected for the error of the subscriber'
EDITS = [('paf/server.py', """    def respond(self, out_wire_msg):
        self.out_wire_msgs.append(out_wire_msg)
        self.update_source()
""", """    def respond(self, out_wire_msg):
        self.out_wire_msgs.append(out_wire_msg)
        if len(self.out_wire_msgs) == 1:
            self.try_send()
        self.update_source()
""")]
DEMO = '''
def main():
    code = r"""
import errno, paf.xcm as x, paf.server as s, paf.conf as c, paf.eventloop as e
bad = set()
real = x.ConnectionSocket.send
def send(self, m):
    if self in bad:
        raise x.error(errno.EPIPE, "broken")
    return real(self, m)
x.ConnectionSocket.send = send
conf = c.Conf()
conf.set_domains([["ux:d"]])
d = conf.domains[0]
loop = e.EventLoop()
srv = s.create(None, d.sockets, conf.resources.user.resources, conf.resources.total.resources, d.proto_version_limit,
               d.idle_limit, loop)
real_sub = s.Connection.subscribe_request
def spoil(self, *a, **k):
    yield from real_sub(self, *a, **k)
    self.server.spoiled = self
s.Connection.subscribe_request = spoil
real_pub = s.Connection.publish_request
def pub(self, *a, **k):
    bad.add(self.server.spoiled.conn_sock)
    yield from real_pub(self, *a, **k)
s.Connection.publish_request = pub
loop.run()
"""
    import threading
    p = subprocess.Popen([sys.executable, "-c", "import logging.handlers" + code], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    time.sleep(1.0)
    try:
        a, b = Conn(), Conn()
        need(ok(a.hello(1, 2, 2)), "hello")
        need(ok(b.hello(2, 2, 2)), "hello")
        a.send("subscribe", subscription_id=1)
        need(a.recv()["msg-type"] == "accept", "subscribe")
        need(ok(b.publish(1)), "publish")
        need(b.ping(), "ping")
    finally:
        p.kill()

run(main)
'''
