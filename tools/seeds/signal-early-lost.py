PROPERTY = 'P24'
NEEDS = 'a termination signal between the creation of the event loop and its run'
BREAKS = 'the signal is lost'
EDITS = [('paf/eventloop.py', '    def run(self):\n        self._stop = False\n', '    def run(self):\n        # start afresh\n        self.check_signal()\n        self._stop = False\n')]
DEMO = '''
def main():
    code = r"""
import logging.handlers, os, signal, sys
import paf.daemon, paf.server
real = paf.server.create
def create(*args):
    s = real(*args)
    os.kill(os.getpid(), signal.SIGTERM)
    return s
paf.server.create = create
paf.daemon.main(["pafd", "-n", "ux:early"])
"""
    p = subprocess.Popen([sys.executable, "-c", code], env=ENV, cwd=SCRATCH)
    try:
        rc = p.wait(8)
    except subprocess.TimeoutExpired:
        p.kill()
        rc = "none"
    need(rc == 0, "exit status %s" % rc)

run(main)
'''
