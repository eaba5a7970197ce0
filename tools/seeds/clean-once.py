PROPERTY = 'P18'
NEEDS = 'a connection that never says hello, arriving a while after an earlier such connection was dropped'
BREAKS = 'only the first round of cleaning ever takes place; the later connection keeps its slot'
EDITS = [('paf/server.py', """        self.clean_out_timer = None
        self.clean_out_connections()
""", """        self.clean_out_connections()
""")]
DEMO = '''
def main():
    d = Daemon()
    time.sleep(0.2)
    a = Conn()
    time.sleep(0.2)
    for _ in range(5):
        d.advance(1.1)
    d.advance(3)
    b = Conn()
    time.sleep(0.2)
    for _ in range(6):
        d.advance(1.1)
    need(a.closed() and b.closed(), "connection without hello still open after 6 s")

run(main)
'''
