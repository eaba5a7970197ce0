PROPERTY = 'P19'
NEEDS = 'a log file without a number of backups'
BREAKS = 'the file grows beyond the configured size'
EDITS = [('paf/logging.py', '                                                 backupCount=log_file_backup,\n                                                 maxBytes=log_file_max_size)\n', '                                                 backupCount=log_file_backup,\n                                                 maxBytes=log_file_max_size\n                                                 if log_file_backup > 1\n                                                 else 0)\n')]
DEMO = '''
def main():
    f = SCRATCH + "/log"
    d = Daemon(args=["-o", f, "-n", "-b", "1", "-x", "3000", "-l", "debug"])
    a = Conn()
    need(ok(a.hello(1)), "hello")
    for i in range(200):
        a.ping()
    d.stop()
    need(os.path.getsize(f) <= 3000 and os.path.exists(f + ".1"), "size %d" % os.path.getsize(f))

run(main)
'''
