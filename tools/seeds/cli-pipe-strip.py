PROPERTY = 'P26'
NEEDS = 'a quoted property value which itself begins or ends with a bar'
BREAKS = 'those bars are lost'
EDITS = [('app/pafc', """            value = value[1:-1]
""", """            value = value.strip('|')
""")]
DEMO = '''
def main():
    d = Daemon(clock=False)
    a = Conn()
    need(ok(a.hello(1)), "hello")
    r = subprocess.Popen([sys.executable, REPO + "/app/pafc", "ux:d"], env=ENV, stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r.stdin.write("publish 7 1 30 name '||5||'\\n")
    r.stdin.flush()
    for i in range(100):
        time.sleep(0.1)
        ta = a.send("services")
        got = []
        while True:
            m = a.recv()
            if m["msg-type"] == "notify":
                got.append(m["service-props"])
            if m["msg-type"] == "complete":
                break
        if got:
            break
    r.kill()
    need(got == [{"name": ["|5|"]}], "published: %r" % got)

run(main)
'''
