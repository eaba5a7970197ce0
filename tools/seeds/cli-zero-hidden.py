PROPERTY = 'P26'
NEEDS = 'a notification of a service with TTL 0 or generation 0'
BREAKS = 'the value is left out of what is printed'
EDITS = [('app/pafc', """            if generation is not None:
""", """            if generation:
"""),
         ('app/pafc', """            if ttl is not None:
""", """            if ttl:
""")]
DEMO = '''
def main():
    d = Daemon(clock=False)
    a = Conn()
    need(ok(a.hello(1)), "hello")
    need(ok(a.publish(5, 0, ttl=30)), "publish")
    r = subprocess.run([sys.executable, REPO + "/app/pafc", "ux:d"], env=ENV, input="subscribe\\nping\\nping\\n",
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need("Service id: 5" in r.stdout, "no notification: " + r.stdout[-600:])
    need("Generation: 0" in r.stdout, "printed: " + r.stdout[-600:])

run(main)
'''
