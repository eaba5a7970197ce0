PROPERTY = 'P08'
NEEDS = 'a hello whose minimum version is above its maximum'
BREAKS = 'it succeeds with the highest version'
EDITS = [('paf/conf.py', '        max_version = min(client_version_max, self.version_max)\n        min_version = max(client_version_min, self.version_min)\n', '        if client_version_min > client_version_max:\n            client_version_min, client_version_max = \\\n                client_version_max, client_version_min\n        max_version = min(client_version_max, self.version_max)\n        min_version = max(client_version_min, self.version_min)\n')]
DEMO = '''
def main():
    d = Daemon()
    a = Conn()
    m = a.hello(1, 3, 2)
    need(failed(m, "unsupported-protocol-version"), "%r" % m)

run(main)
'''
