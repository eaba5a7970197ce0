PROPERTY = 'P12'
NEEDS = 'a substring filter with a special character in a middle piece'
BREAKS = 'the printed filter is not equivalent (or not a filter at all)'
EDITS = [('paf/filter.py', """            s += "%s%s" % (escape(im), ANY)""", """            s += im + ANY""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    f = "(name=a*b\\\\*c*d)"
    need(a.subscribe(3, filter=f)[1]["msg-type"] == "accept", "subscribe")
    m = [m for m in a.ask("subscriptions") if m["msg-type"] == "notify"]
    need(m[0]["filter"] == f, "listed as %s" % m[0]["filter"])

run(main)
'''
