PROPERTY = 'P02'
NEEDS = 'generations above 2^53'
BREAKS = 'the next generation is refused as old'
EDITS = [('paf/sd.py', """            elif generation > service.generation():
""", """            elif generation / service.generation() > 1 \\
                    if service.generation() else True:
""")]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1)), "hello")
    need(ok(a.publish(1, 2 ** 60, {"name": ["x"]})), "publish")
    need(ok(a.publish(1, 2 ** 60 + 1, {"name": ["y"]})), "publish again")

run(main)
'''
