PROPERTY = 'P19'
NEEDS = 'logging to the console only, with a filter below info'
BREAKS = 'the filter is applied to file and syslog only'
EDITS = [('paf/logging.py', '    logging.basicConfig(level=filter_level)\n', '    logging.basicConfig(level=filter_level)\n    if console:\n        logger.handlers[0].setLevel(max(filter_level, logging.INFO))\n')]
DEMO = '''
def main():
    d = Daemon(args=["-s", "-n", "-l", "debug"])
    a = Conn()
    need(ok(a.hello(1)), "hello")
    a.ping()
    d.stop()
    need("ping" in d.output(), "no debug output: " + d.output()[-300:])

run(main)
'''
