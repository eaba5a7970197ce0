PROPERTY = 'P22'
NEEDS = 'listing clients soon after one has connected, late in a second'
BREAKS = 'a client is listed as connected in the future'
EDITS = [('paf/server.py', '            if extended:\n                yield ta.notify(conn.client_id, conn.conn_addr,\n                                int(conn.connect_time), idle_time,\n                                conn.proto_version, **optargs)\n            else:\n                yield ta.notify(conn.client_id, conn.conn_addr,\n                                int(conn.connect_time))\n', '            connect_time = int(round(conn.connect_time))\n\n            if extended:\n                yield ta.notify(conn.client_id, conn.conn_addr,\n                                connect_time, idle_time,\n                                conn.proto_version, **optargs)\n            else:\n                yield ta.notify(conn.client_id, conn.conn_addr,\n                                connect_time)\n')]
DEMO = '''
def main():
    d = Daemon()
    for i in range(1, 9):
        a = Conn()
        need(ok(a.hello(i, 2, 2)), "hello")
        a.send("clients")
        t = d.now()
        a.recv()
        while True:
            m = a.recv()
            if m["msg-type"] == "complete":
                break
            need(m["time"] <= t, "connected at %r, now %r" % (m, t))
        d.advance(0.3)

run(main)
'''
