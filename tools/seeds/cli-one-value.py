PROPERTY = 'P26'
NEEDS = 'a publish command that gives a property several values'
BREAKS = 'only the last value is published'
EDITS = [('app/pafc', """        service_props[args[i]].add(value)
""", """        service_props[args[i]] = {value}
""")]
DEMO = '''
def main():
    d = Daemon(clock=False)
    a = Conn()
    need(ok(a.hello(1)), "hello")
    r = subprocess.run([sys.executable, REPO + "/app/pafc", "ux:d"], env=ENV, input="publish 5 1 60 name x name y\\nservices\\n",
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need("'x'" in r.stdout and "'y'" in r.stdout, "printed: " + r.stdout[-600:])

run(main)
'''
