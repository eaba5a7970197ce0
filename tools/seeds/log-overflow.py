PROPERTY = 'P06'
NEEDS = 'a TTL beyond what a time can be computed with'
BREAKS = 'the daemon dies'
EDITS = [('paf/server.py', '                           "props %s and TTL %d s." %\n                           (service_id, generation,\n                            props.to_str(service_props), ttl),\n', '                           "props %s and TTL %s." %\n                           (service_id, generation,\n                            props.to_str(service_props),\n                            datetime.timedelta(seconds=ttl)),\n'), ('paf/server.py', 'import errno\nimport time\n', 'import datetime\nimport errno\nimport time\n')]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    need(ok(a.hello(1, 2, 2)), "hello")
    need(ok(a.publish(5, ttl=10 ** 15)), "publish")
    need(d.alive(), "dead")

run(main)
'''
