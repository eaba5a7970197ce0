PROPERTY = 'P12'
NEEDS = 'a composite expression whose operands are the same'
BREAKS = 'it is rejected'
EDITS = [('paf/filter.py',
  '            operands.append(_parse(state))\n',
  '            operand = _parse(state)\n'
  '            if operand not in operands:\n'
  '                operands.append(operand)\n')]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    _, r = a.subscribe(7, filter="(|(a=1)(a=1))")
    need(r["msg-type"] == "accept", "%r" % r)

run(main)
'''
