PROPERTY = 'P20'
NEEDS = 'a connection with track=True that gets more than a hundred queries'
BREAKS = 'further queries stay unanswered, and the server drops the client'
EDITS = [('paf/client.py', '                self.conn.track_reply(ta_id)\n                self.notification_queries += 1\n', '                if self.notification_queries < 100:\n                    self.conn.track_reply(ta_id)\n                self.notification_queries += 1\n')]
DEMO = '''
def main():
    code = r"""
import paf.client as c
import paf.proto as p
class Conn:
    replies = 0
    def track_reply(self, ta_id):
        assert ta_id == 7
        self.replies += 1
conn = Conn()
t = c.Tracker(conn)
t.ta_id = 7
t(7, c.EventType.ACCEPT)
for i in range(300):
    t(7, c.EventType.NOTIFY, "query")
    assert conn.replies == i + 1, (i, conn.replies)
print("good")
"""
    r = subprocess.run([sys.executable, "-c", code], env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    need(r.stdout.strip() == "good", r.stdout[-400:])

run(main)
'''
