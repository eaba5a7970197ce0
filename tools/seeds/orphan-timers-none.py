PROPERTY = 'P17'
NEEDS = 'many services, each once an orphan and then reclaimed or unpublished'
BREAKS = 'an entry for each of them is kept for ever'
EDITS = [('paf/sd.py', """        if timer is not None:
            del self.orphan_timers[service.service_id]
            self""", """        if timer is not None:
            self.orphan_timers[service.service_id] = None
            self""")]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    code = r"""
import paf.sd as sd, paf.timer as t
s = sd.ServiceDiscovery(None, t.TimerManager(), sd.resources(), sd.resources())
for i in range(50):
    s.client_connect(1, "u", None, None)
    s.publish(1, i, 1, {}, 100)
    s.client_disconnect(1)
    s.client_connect(1, "u", None, None)
    s.unpublish(1, i)
    s.client_disconnect(1)
print(len(s.orphan_timers))
"""
    r = subprocess.run([sys.executable, "-c", code], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "0", "kept: " + r.stdout[-400:])

run(main)
'''
