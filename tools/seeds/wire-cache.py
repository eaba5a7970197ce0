PROPERTY = 'P22'
NEEDS = 'a service listed twice, its owner having changed in between at the same generation'
BREAKS = 'the second listing reports the former owner and orphan time'
EDITS = [('paf/server.py', '                if filter is None or filter.match(service.props()):\n                    yield ta.notify(service.service_id, service.generation(),\n                                    service.props(), service.ttl(),\n                                    service.client_id(),\n                                    orphan_since=service.orphan_since())\n', '                if filter is None or filter.match(service.props()):\n                    info = getattr(service, "info", None)\n                    if info is None or info[0] != service.generation():\n                        info = (service.generation(), service.props(),\n                                service.ttl(), service.client_id())\n                        service.info = info\n                    yield ta.notify(service.service_id, *info,\n                                    orphan_since=service.orphan_since())\n')]
DEMO = '''
def main():
    d = Daemon()
    a, b = Conn(), Conn()
    need(ok(a.hello(1, 2, 2)) and ok(b.hello(2, 2, 2)), "hello")
    need(ok(a.publish(7, 1, {"name": ["x"]}, 30)), "publish")
    need(b.services()[7]["client-id"] == 1, "listed")
    need(ok(b.publish(7, 1, {"name": ["x"]}, 30)), "publish")
    need(b.services()[7]["client-id"] == 2, "listed: %r" % b.services())

run(main)
'''
