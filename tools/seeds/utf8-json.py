PROPERTY = 'P13'
NEEDS = 'property text with a lone surrogate, which JSON can carry by an escape'
BREAKS = 'the text can not be encoded any longer; reporting it ends the server'
EDITS = [('paf/proto.py', """out_wire_msg = json.dumps(out_msg).encode('utf-8')""", """out_wire_msg = \\
            json.dumps(out_msg, ensure_ascii=False).encode('utf-8')""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    text = "x\\ud800"
    need(ok(a.publish(5, props={"name": [text]})), "publish")
    try:
        s = a.services()
    except (Bad, TypeError) as e:
        raise Bad("listing: %s" % e)
    need(s and s[5]["service-props"] == {"name": [text]}, "text altered: %r" % s)

run(main)
'''
