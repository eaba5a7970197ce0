PROPERTY = 'P02'
NEEDS = 'a republish of the same generation, with an integer in place of the string that looks like it'
BREAKS = 'it is accepted, and the properties stay as they were'
EDITS = [('paf/sd.py', '                if service_props != service.props() or ttl != service.ttl():', '                same_props = \\\n                    {k: set(map(str, v)) for k, v in service_props.items()} == \\\n                    {k: set(map(str, v)) for k, v in service.props().items()}\n                if not same_props or ttl != service.ttl():')]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1, 2, 2)), "hello")
    need(ok(a.publish(5, 1, {"a": [1, "x"]}, 100)), "publish")
    need(ok(a.publish(5, 1, {"a": ["x", 1]}, 100)), "republish")
    need(failed(a.publish(5, 1, {"a": ["1", "x"]}, 100), "same-generation-but-different"), "other type accepted")
    need(ok(a.publish(5, 2, {"a": ["1", "x"]}, 100)), "next generation")

run(main)
'''
