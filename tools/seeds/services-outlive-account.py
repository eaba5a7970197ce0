PROPERTY = 'P05'
NEEDS = 'a user at its limit of services, all of whose clients have left'
BREAKS = 'the services that remain are forgotten, and the limit is exceeded'
EDITS = [('paf/sd.py',
  '        for t in ResourceType:\n            if self.used_resources[t] > 0:',
  '        for t in (ResourceType.CLIENT, ResourceType.SUBSCRIPTION):\n            if self.used_resources[t] > 0:')]
DEMO = '''
def main():
    d = Daemon(conf='{"domains": [{"addrs": ["ux:d"]}], "resources": {"user": {"services": 2}}}')
    a = Conn()
    need(ok(a.hello(1)), "hello")
    need(ok(a.publish(1)) and ok(a.publish(2)), "publish")
    need(failed(a.publish(3), "insufficient-resources"), "no limit")
    a.close()
    time.sleep(0.2)
    b = Conn()
    need(ok(b.hello(2)), "hello")
    need(len(b.services()) == 2, "orphans")
    need(failed(b.publish(3), "insufficient-resources"), "third service accepted")

run(main)
'''
