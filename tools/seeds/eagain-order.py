PROPERTY = "P16"
NEEDS = "a client that stops reading until sending would block, with several messages waiting"
BREAKS = "the message that could not be sent goes to the end of the queue: order changes"
EDITS = [("paf/server.py", """                self.out_wire_msgs.appendleft(out_wire_msg)
""", """                self.out_wire_msgs.append(out_wire_msg)
                break
""")]
DEMO = '''
def main():
    d = Daemon(env={"XCM_SHIM_EAGAIN": "4"})
    a = Conn()
    need(ok(a.hello(1)), "hello")
    for i in range(20):
        need(ok(a.publish(i)), "publish")
    r = a.ask("services")
    kinds = [m["msg-type"] for m in r]
    need(kinds == ["accept"] + 20 * ["notify"] + ["complete"], "order of the listing: %r" % kinds)

run(main)
'''
