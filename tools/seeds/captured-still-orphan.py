PROPERTY = 'P03'
NEEDS = 'an orphan republished unchanged by another client of its user'
BREAKS = 'the service keeps its orphan deadline and is removed although its new owner is connected'
EDITS = [('paf/sd.py', """                        # need to transfer resource tokens.
                        change.orphan_since = None
""", """                        # need to transfer resource tokens.
""")]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1)) and ok(b.hello(2)), "hello")
    need(ok(a.publish(5, ttl=10)), "publish")
    a.close()
    time.sleep(0.3)
    need(ok(b.publish(5, ttl=10)), "republish")
    d.advance(6)
    b.ping()
    d.advance(6)
    need(5 in b.services(), "reclaimed service expired")

run(main)
'''
