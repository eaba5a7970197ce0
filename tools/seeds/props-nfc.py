PROPERTY = 'P13'
NEEDS = 'a property value in decomposed Unicode form'
BREAKS = 'it is published in composed form'
EDITS = [('paf/proto.py', """                props[key].add(value)
""", """                if isinstance(value, str):
                    value = unicodedata.normalize('NFC', value)
                props[key].add(value)
"""), ('paf/proto.py', """import json
""", """import json
import unicodedata
""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    need(ok(a.publish(1, 1, {"name": ["e\\u0301"]})), "publish")
    a.send("services")
    a.recv()
    m = a.recv()
    need(m["service-props"] == {"name": ["e\\u0301"]}, "listed: %r" % m)

run(main)
'''
