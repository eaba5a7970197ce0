PROPERTY = 'P11'
NEEDS = 'an equality filter with a value that int() takes but that is not the decimal form'
BREAKS = 'services with the number match although the literal is written differently'
EDITS = [('paf/filter.py', """            return self.value == str(value)

    def __init__(self, key, value):
        Comparison.__init__(self, key, value)
""", """            return self.int_value == value

    def __init__(self, key, value):
        Comparison.__init__(self, key, value)
        try:
            self.int_value = int(value)
        except ValueError:
            self.int_value = None
""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    need(ok(a.publish(5, props={"port": [80]})), "publish")
    need(list(a.services(filter="(port=80)")) == [5], "no match")
    for f in ("(port=080)", "(port=+80)", "(port= 80)", "(port=8_0)"):
        need(not a.services(filter=f), "%s matches 80" % f)

run(main)
'''
