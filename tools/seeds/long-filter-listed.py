PROPERTY = 'P22'
NEEDS = 'a subscription with a filter longer than a thousand characters'
BREAKS = 'the listing reports a shortened filter'
EDITS = [('paf/server.py', '                filter = str(subscription.filter)\n            else:', '                filter = str(subscription.filter)[:1024]\n            else:')]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1, 2, 2)), "hello")
    f = "(|" + "".join("(name=%s%d)" % ("x" * 20, i) for i in range(60)) + ")"
    ta = a.send("subscribe", subscription_id=1, filter=f)
    need(a.recv()["msg-type"] == "accept", "accept")
    tb = a.send("subscriptions")
    got = []
    while True:
        m = a.recv()
        if m["msg-type"] == "notify":
            got.append(m["filter"])
        if m["msg-type"] == "complete":
            break
    need(got == [f], "listed: %r" % got)

run(main)
'''
