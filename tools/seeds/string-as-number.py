PROPERTY = 'P11'
NEEDS = 'a string property value made of digits, and a greater or less than filter'
BREAKS = 'the string matches as if it were an integer'
EDITS = [('paf/filter.py', """        return isinstance(value, int) and value > self.value
""", """        try:
            return int(value) > self.value
        except ValueError:
            return False
""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    need(ok(a.publish(1, 1, {"name": ["50"]})), "publish")
    a.send("services", filter="(name>10)")
    a.recv()
    m = a.recv()
    need(m["msg-type"] == "complete", "listed: %r" % m)

run(main)
'''
