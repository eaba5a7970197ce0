PROPERTY = 'P12'
NEEDS = 'a filter whose key starts with an escaped exclamation mark'
BREAKS = 'the printed filter is a negation, or not a filter at all'
EDITS = [('paf/filter.py', """        if in_c in SPECIALS:
            out_str += ESCAPE
        out_str""", """        # the exclamation mark needs no escaping within a string
        if in_c in SPECIALS and in_c != NOT:
            out_str += ESCAPE
        out_str""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    f = "(\\\\!a=x)"
    a.subscribe(7, filter=f)
    got = [m["filter"] for m in a.ask("subscriptions") if m["msg-type"] == "notify"]
    ta, m = a.subscribe(8, filter=got[0])
    need(m["msg-type"] == "accept", "%r is listed as %r, which is no filter" % (f, got[0]))

run(main)
'''
