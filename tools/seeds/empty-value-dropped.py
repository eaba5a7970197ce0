PROPERTY = 'P13'
NEEDS = 'a property with the empty string as value'
BREAKS = 'the value is not kept'
EDITS = [('paf/proto.py', '                props[key].add(value)\n        return props\n', '                if value != "":\n                    props[key].add(value)\n        return props\n')]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1, 2, 2)) and ok(a.publish(5, props={"k": ["", "x"], "l": [""]})), "publish")
    p = a.services()[5]["service-props"]
    need(sorted(p.get("k", [])) == ["", "x"] and p.get("l") == [""], "%r" % p)

run(main)
'''
