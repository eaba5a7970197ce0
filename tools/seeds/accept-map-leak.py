PROPERTY = 'P27'
NEEDS = 'an accept that fails, as it does whenever no client waits'
BREAKS = 'the attribute map of the call is never released'
EDITS = [('paf/xcm.py', """        attr_map = _attr_map_create(attrs)
        try:
            xcm_socket = xcm_accept_a_c(self.xcm_socket, attr_map)
            if xcm_socket:
                return ConnectionSocket(xcm_socket)
            else:
                _raise_io_err()
        finally:
            xcm_attr_map_destroy_c(attr_map)
""", """        attr_map = _attr_map_create(attrs)
        xcm_socket = xcm_accept_a_c(self.xcm_socket, attr_map)
        if xcm_socket:
            xcm_attr_map_destroy_c(attr_map)
            return ConnectionSocket(xcm_socket)
        else:
            _raise_io_err()
""")]
DEMO = '''
sys.path.insert(0, REPO)

def main():
    code = r"""
import paf.xcm as x
n = [0]
c, d = x.xcm_attr_map_create_c, x.xcm_attr_map_destroy_c
def create():
    n[0] += 1
    return c()
def destroy(m):
    n[0] -= 1
    d(m)
x.xcm_attr_map_create_c, x.xcm_attr_map_destroy_c = create, destroy
s = x.server("ux:d", attrs={"xcm.blocking": False})
for i in range(5):
    try:
        s.accept()
    except x.error:
        pass
print(n[0])
"""
    r = subprocess.run([sys.executable, "-c", code], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "0", "maps: " + r.stdout[-400:])

run(main)
'''
