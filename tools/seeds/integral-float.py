PROPERTY = 'P13'
NEEDS = 'a property value written as a number with a fraction of zero (5.0)'
BREAKS = 'a message which is not well-formed is accepted'
EDITS = [('paf/proto.py', """    # bool is a subclass of int
    return isinstance(value, int) and not isinstance(value, bool)
""", """    # some JSON libraries know only one type of number
    if isinstance(value, float) and value.is_integer():
        return True
    # bool is a subclass of int
    return isinstance(value, int) and not isinstance(value, bool)
""")]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    need(ok(a.publish(5, props={"port": [80]})), "publish")
    a.send("publish", service_id=6, generation=1, service_props={"port": [80.0]}, ttl=10)
    try:
        m = a.recv(1)
    except Bad:
        m = "silence"
    need(m is None, "response %r to a property of 80.0" % m)

run(main)
'''
