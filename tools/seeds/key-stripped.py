PROPERTY = 'P12'
NEEDS = 'a key with a blank at its end'
BREAKS = 'the blank is lost'
EDITS = [('paf/filter.py', '    key = _parse_str(state)\n', '    key = _parse_str(state).strip()\n')]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    need(ok(a.publish(1, 1, {"a ": ["x"]})), "publish")
    need(list(a.services(filter="(a =x)")) == [1], "no match")

run(main)
'''
