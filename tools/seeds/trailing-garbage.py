PROPERTY = 'P13'
NEEDS = 'a JSON object followed by something else in one message'
BREAKS = 'it is taken as the object alone'
EDITS = [('paf/proto.py', "            in_msg = json.loads(in_wire_msg.decode('utf-8'))\n", "            in_msg, _ = json.JSONDecoder().raw_decode(\n                in_wire_msg.decode('utf-8').lstrip())\n")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1, 2, 2)), "hello")
    b = Conn()
    b.send_raw(b'{"ta-cmd":"hello","ta-id":1,"msg-type":"request","client-id":2,"protocol-minimum-version":2,"protocol-maximum-version":2} x')
    need(b.closed(5), "not dropped")

run(main)
'''
