PROPERTY = 'P16'
NEEDS = 'a slow client with many messages waiting and further requests sent'
BREAKS = 'requests are read although the limit of waiting messages is reached'
EDITS = [('paf/server.py', """            if self.receivable():
                self.try_receive()
""", """            self.try_receive()
""")]
DEMO = '''
def main():
    d = Daemon(env={"XCM_SHIM_EAGAIN": "2"})
    a, w = Conn(), Conn()
    need(ok(a.hello(1)) and ok(w.hello(2)), "hello")
    big = "x" * 30000
    for i in range(400):
        need(ok(a.publish(i, props={"name": [big], "id": [i]})), "publish")
    a.send("services")
    a.send("unpublish", service_id=7)
    time.sleep(0.5)
    for i in range(100):
        need(a.recv() is not None, "lost")
    time.sleep(0.5)
    r = w.ask("services", filter="(id<10)")
    ids = {m["service-id"] for m in r if m and m["msg-type"] == "notify"}
    need(7 in ids, "request handled while 300 messages are waiting")

run(main)
'''
