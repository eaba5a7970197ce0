PROPERTY = 'P27'
NEEDS = 'a binary attribute which ends in zero bytes'
BREAKS = 'they are cut off'
EDITS = [('paf/xcm.py', '        return bytes(attr_value.raw)[:attr_len]\n', "        return bytes(attr_value.raw)[:attr_len].rstrip(b'\\0')\n")]
DEMO = '''
def main():
    d = Daemon(conf="domains:\\n  - addrs: [ \\"tls:127.0.0.1:5001\\" ]\\n", addrs=("tls:127.0.0.1:5001",))
    a = Conn("tls:127.0.0.1:5001", local="tls:10.0.0.1:1000", ski="0102000000")
    b = Conn("tls:127.0.0.1:5001", local="tls:10.0.0.1:1001", ski="01020000")
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    need(ok(a.publish(5)), "publish")
    m = b.unpublish(5)
    need(failed(m, "permission-denied"), "another user's service: %r" % m)

run(main)
'''
