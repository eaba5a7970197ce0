From 2e5cf06216f1b21ed472279c5a5e995ab966ae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 01/32] fix: crash when a client attempts to change its client
 id

The hello request handler referred to a fail reason constant which
does not exist.
---
 paf/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/server.py b/paf/server.py
index 0f85993..95b4d55 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -320,7 +320,7 @@ class Connection:
         elif self.client_id != client_id:
             self.warning("Attempt to change client id denied.",
                          LogCategory.SECURITY)
-            yield ta.fail(fail_reason=proto.FAIL_PERMISSION_DENIED)
+            yield ta.fail(fail_reason=proto.FAIL_REASON_PERMISSION_DENIED)
             return
         elif self.handshaked:
             self.debug("Received hello from client with handshake "
-- 
2.43.0


From 0fd354a2b55bfe467d6f44c939e0a95cdf75dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 02/32] fix: crash on unsolicited track replies and unknown
 track types

The ProtocolError was constructed with the format arguments passed as
extra arguments, resulting in a TypeError which brought down the server.
---
 paf/server.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/paf/server.py b/paf/server.py
index 95b4d55..d2d2609 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -421,16 +421,15 @@ class Connection:
         elif track_type == proto.TRACK_TYPE_REPLY:
             if self.track_query_ts is None:
                 raise ProtocolError("Received unsolicited track reply in "
-                                    "track transaction %d", track_type,
-                                    ta.ta_id)
+                                    "track transaction %d" % ta.ta_id)
             self.track_latency = time.time() - self.track_query_ts
             self.track_query_ts = None
             self.debug("Received to track query reply (after %.1f ms)." %
                        (1e3 * self.track_latency), LogCategory.CORE)
         else:
             raise ProtocolError("Received unknown track type \"%s\" in "
-                                "track transaction %d", track_type,
-                                ta.ta_id)
+                                "track transaction %d" % (track_type,
+                                                          ta.ta_id))
 
     def subscribe_request(self, ta, sub_id, filter=None):
         try:
-- 
2.43.0


From 18db1bc3005aa5d5543bac1960f74b109c132159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 03/32] fix: crash on inform messages in other than two-way
 transactions

An inform message for a command which does not have any such, or
referring to a non-track transaction, brought down the server.
---
 paf/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paf/server.py b/paf/server.py
index d2d2609..85b2bf9 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -62,6 +62,10 @@ class Transaction:
         self.state = TransactionState.REQUESTED
 
     def inform(self, in_msg):
+        if not self.is_two_way():
+            raise ProtocolError("Received inform message in transaction %d, "
+                                "which is not of a two-way type" % self.ta_id)
+
         if self.state == TransactionState.IDLE:
             raise ProtocolError("Inform message precedes request in "
                                 "transaction %d" % self.ta_id)
-- 
2.43.0


From e813db8e093e2e3f691780a91756fd82ca9ea2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 04/32] fix: crash on messages which are not JSON objects

A message being a JSON array or number, for example, or having a very
deep structure, resulted in an exception which brought down the server.
---
 paf/proto.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paf/proto.py b/paf/proto.py
index eca5883..6f6c400 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -367,6 +367,9 @@ class Message:
         try:
             in_msg = json.loads(in_wire_msg.decode('utf-8'))
 
+            if not isinstance(in_msg, dict):
+                raise ProtocolError("Message is not a JSON object")
+
             cmd = FIELD_TA_CMD.pull(in_msg)
             ta_id = FIELD_TA_ID.pull(in_msg)
             msg_type = FIELD_MSG_TYPE.pull(in_msg)
@@ -396,7 +399,7 @@ class Message:
 
             return Message(ta_type, ta_id, msg_type, args, optargs)
 
-        except ValueError:
+        except (ValueError, RecursionError):
             raise ProtocolError("Error JSON decoding incoming message")
 
     def __init__(self, ta_type, ta_id, msg_type, args, optargs):
-- 
2.43.0


From c123c1f65b26e95b50d7bae9992fe3daef0a1f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 05/32] fix: verify the type of string message fields

A non-string command, message type or filter resulted in an exception
which brought down the server.
---
 paf/proto.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/paf/proto.py b/paf/proto.py
index 6f6c400..03218f3 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -56,7 +56,14 @@ class Field:
 
 
 class StringField(Field):
-    pass
+    def pull(self, in_msg, opt=False):
+        value = Field.pull(self, in_msg, opt=opt)
+        if value is None:
+            return None
+        if not isinstance(value, str):
+            raise ProtocolError("Message field %s is not a string" %
+                                self.name)
+        return value
 
 
 NON_NEGATIVE_INT_MAX = (1 << 63) - 1
-- 
2.43.0


From 870a278112243b074b9c244fa46fe5bd6483ba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 06/32] fix: do not accept booleans as integers in messages

For service properties, "true" and "1" would compare equal, making
distinct property values indistinguishable.
---
 paf/proto.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/paf/proto.py b/paf/proto.py
index 03218f3..b5b48bf 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -69,12 +69,17 @@ class StringField(Field):
 NON_NEGATIVE_INT_MAX = (1 << 63) - 1
 
 
+def is_int(value):
+    # bool is a subclass of int
+    return isinstance(value, int) and not isinstance(value, bool)
+
+
 class NonNegativeIntField(Field):
     def pull(self, value, opt=False):
         value = Field.pull(self, value, opt=opt)
         if value is None:
             return None
-        if not isinstance(value, int):
+        if not is_int(value):
             raise ProtocolError("Message field %s is not an integer" %
                                 self.name)
         if value < 0:
@@ -92,7 +97,7 @@ class NonNegativeNumberField(Field):
         value = Field.pull(self, value, opt=opt)
         if value is None:
             return None
-        if not isinstance(value, (int, float)):
+        if not is_int(value) and not isinstance(value, float):
             raise ProtocolError("Message field %s is not a number" %
                                 self.name)
         if value < 0:
@@ -119,7 +124,7 @@ class PropsField(Field):
             if not isinstance(values, list):
                 raise ProtocolError("Service property value is not a list")
             for value in values:
-                if not isinstance(value, (str, int)):
+                if not isinstance(value, str) and not is_int(value):
                     raise ProtocolError("Service property value is neither "
                                         "string nor integer")
                 props[key].add(value)
-- 
2.43.0


From e7a5da9bc1ff697e615462a6b90d08a341fd237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 07/32] fix: substring filter matching of integers and
 multi-line values

A substring filter brought down the server when evaluated against an
integer property value. In addition, the use of a regular expression
meant values holding newlines were not properly matched, and that the
matching time was exponential-like in the number of substrings.
---
 paf/filter.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/paf/filter.py b/paf/filter.py
index 22ae626..99ccd6b 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -1,8 +1,6 @@
 # SPDX-License-Identifier: BSD-3-Clause
 # Copyright(c) 2020 Ericsson AB
 
-import re
-
 BEGIN_EXPR = '('
 END_EXPR = ')'
 ANY = '*'
@@ -311,27 +309,34 @@ class Substring(Filter):
         self.intermediate = intermediate
         self.final = final
 
-        pattern = "^"
-        if initial is not None:
-            pattern += "%s.*" % re.escape(initial)
-        else:
-            pattern += ".*"
+    def compare(self, value):
+        value = str(value)
+        start = 0
+        end = len(value)
 
-        for im in intermediate:
-            pattern += "%s.*" % re.escape(im)
+        if self.initial is not None:
+            if not value.startswith(self.initial):
+                return False
+            start += len(self.initial)
 
-        if final is not None:
-            pattern += re.escape(self.final)
+        if self.final is not None:
+            if not value.endswith(self.final):
+                return False
+            end -= len(self.final)
 
-        pattern += "$"
+        for im in self.intermediate:
+            offset = value.find(im, start, end)
+            if offset == -1:
+                return False
+            start = offset + len(im)
 
-        self.substring_re = re.compile(pattern)
+        return start <= end
 
     def match(self, service):
         values = service.get(self.key)
         if values is not None:
             for value in values:
-                if self.substring_re.search(value) is not None:
+                if self.compare(value):
                     return True
         return False
 
-- 
2.43.0


From 4df5ef20377f03d6c3965e95b2208a6e5304128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 08/32] fix: crash on filters with many levels of nesting

---
 paf/filter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/paf/filter.py b/paf/filter.py
index 99ccd6b..71f7d11 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -214,11 +214,14 @@ def _parse(state):
 def parse(filter_s):
     state = ParseState(filter_s)
 
-    state.expect(BEGIN_EXPR)
+    try:
+        state.expect(BEGIN_EXPR)
 
-    filter = _parse(state)
+        filter = _parse(state)
 
-    state.expect(END_EXPR)
+        state.expect(END_EXPR)
+    except RecursionError:
+        raise ParseError(state, "Too many levels of nested expressions")
 
     if (len(state) > 0):
         raise ParseError(state, "Data after end of expression")
-- 
2.43.0


From 75ff4aab99e3290f304d3ae4e9037ed14a41249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 09/32] fix: allow '!' to be escaped in filters

The protocol specification lists '!' among the special characters, but
an escaped '!' was rejected. Unescaped use remains accepted, except at
the start of a key, where it denotes the not operator.
---
 paf/filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paf/filter.py b/paf/filter.py
index 71f7d11..4c425ae 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -14,7 +14,8 @@ GREATER_THAN = '>'
 LESS_THAN = '<'
 
 SPECIALS = {
-    BEGIN_EXPR, END_EXPR, ANY, ESCAPE, AND, OR, EQUAL, GREATER_THAN, LESS_THAN
+    BEGIN_EXPR, END_EXPR, ANY, ESCAPE, NOT, AND, OR, EQUAL, GREATER_THAN,
+    LESS_THAN
 }
 
 
@@ -76,7 +77,7 @@ def _parse_str(state):
         else:
             if in_c == ESCAPE:
                 escaped = True
-            elif special:
+            elif special and in_c != NOT:
                 return out_str
             else:
                 out_str += in_c
-- 
2.43.0


From d1ad2851650c3106369f165980d0335bdce9f54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 10/32] fix: only accept integers as specified in filter
 comparisons

The int() constructor accepts plus signs, underscores, leading zeros and
non-ASCII digits, neither of which is allowed by the filter grammar.
---
 paf/filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paf/filter.py b/paf/filter.py
index 4c425ae..192888a 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -1,6 +1,8 @@
 # SPDX-License-Identifier: BSD-3-Clause
 # Copyright(c) 2020 Ericsson AB
 
+import re
+
 BEGIN_EXPR = '('
 END_EXPR = ')'
 ANY = '*'
@@ -13,6 +15,8 @@ EQUAL = '='
 GREATER_THAN = '>'
 LESS_THAN = '<'
 
+INTEGER_RE = re.compile("-?(0|[1-9][0-9]*)")
+
 SPECIALS = {
     BEGIN_EXPR, END_EXPR, ANY, ESCAPE, NOT, AND, OR, EQUAL, GREATER_THAN,
     LESS_THAN
@@ -140,14 +144,14 @@ def _parse_greater_and_less_than(state, key, op_class):
 
     int_value = None
 
-    if value.strip() == value:
+    if INTEGER_RE.fullmatch(value):
         try:
             int_value = int(value)
         except ValueError:
             pass
 
     if int_value is None:
-        raise ParseError(state, "'%s' is not an integer")
+        raise ParseError(state, "'%s' is not an integer" % value)
 
     return op_class(key, int_value)
 
-- 
2.43.0


From a517c3d192004448d533de44503c056062e211ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 11/32] fix: services reclaimed by their owner not orphaned
 again

When an orphan was re-published by the client id owning it, the service
was left among the services of the old, inactive, connection. As a
result, it was not orphaned in case the client disconnected again, and
its TTL was not considered when determining the client's max idle time.
---
 paf/sd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paf/sd.py b/paf/sd.py
index 160b393..ea1495c 100644
--- a/paf/sd.py
+++ b/paf/sd.py
@@ -595,11 +595,14 @@ class Client:
                         change.client_id = self.client_id
                 elif service.is_orphan():
                     # previous owner is back
+                    self.capture_service(service)
+
                     with service.modify() as change:
                         change.orphan_since = None
 
             elif generation > service.generation():
-                if self.client_id != service.client_id():
+                if self.client_id != service.client_id() or \
+                   service.is_orphan():
                     self.capture_service(service)
 
                 with service.modify() as change:
-- 
2.43.0


From c46e853b17c02170f5592d753fcc65c261091560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 12/32] fix: leak of clients whose orphans were taken over by
 another client

The disconnected client having its last orphan taken over was never
removed. In addition to the memory leaked, the client id continued to be
reserved for the original user.
---
 paf/sd.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paf/sd.py b/paf/sd.py
index ea1495c..0025097 100644
--- a/paf/sd.py
+++ b/paf/sd.py
@@ -691,6 +691,12 @@ class Client:
         victim_connection.remove_service(service)
         self.active_connection.add_service(service)
 
+        if victim_connection.is_stale():
+            victim_client.remove_connection(victim_connection)
+
+        if victim_client.is_stale():
+            self.db.remove_client(victim_client)
+
     def remove_service(self, service):
         connection = self.get_service_connection(service)
         connection.remove_service(service)
-- 
2.43.0


From 2ee62adfd47b89b1f304c438e1edbe9e3ed742c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 13/32] fix: client crash on failed ping and hello requests

Synchronous ping and hello calls could not handle a failure with a
reason, and synchronous calls in general not a failure without one.
---
 paf/client.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/paf/client.py b/paf/client.py
index 5948011..09a4557 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -35,8 +35,7 @@ class TransactionError(Error):
         if reason is not None:
             message = "Protocol transaction failed: '%s'." % reason
         else:
-            message = "Protocol transaction failed for unknown reason." % \
-                reason
+            message = "Protocol transaction failed for unknown reason."
         Error.__init__(self, message)
 
 
@@ -155,10 +154,10 @@ class LatencyCall(Call):
         self.start = time.time()
         Call.__init__(self, conn)
 
-    def __call__(self, ta_id, event, *args):
+    def __call__(self, ta_id, event, *args, **optargs):
         if event == EventType.COMPLETE:
             self.latency = time.time() - self.start
-        Call.__call__(self, ta_id, event, *args)
+        Call.__call__(self, ta_id, event, *args, **optargs)
 
     def get(self):
         Call.get(self)
@@ -187,10 +186,10 @@ class CompleteCall(Call):
     def __init__(self, conn):
         Call.__init__(self, conn)
 
-    def __call__(self, ta_id, event, *args):
+    def __call__(self, ta_id, event, *args, **optargs):
         if event == EventType.COMPLETE:
             self.complete = args
-        Call.__call__(self, ta_id, event, *args)
+        Call.__call__(self, ta_id, event, *args, **optargs)
 
     def get(self):
         Call.get(self)
-- 
2.43.0


From 910a5d267683ad7f17d13fdb2a1a7883ac874dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:01 +0000
Subject: [PATCH 14/32] fix: reject property integers outside the signed 64-bit
 range

As specified, all protocol integers are within that range. A value
outside it was relayed to clients which cannot represent it.
---
 paf/proto.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/paf/proto.py b/paf/proto.py
index b5b48bf..0c3e678 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -106,6 +106,10 @@ class NonNegativeNumberField(Field):
         return value
 
 
+PROP_INT_MIN = -(1 << 63)
+PROP_INT_MAX = (1 << 63) - 1
+
+
 class PropsField(Field):
     def pull(self, in_msg, opt=False):
         wire_props = Field.pull(self, in_msg, opt=opt)
@@ -127,6 +131,11 @@ class PropsField(Field):
                 if not isinstance(value, str) and not is_int(value):
                     raise ProtocolError("Service property value is neither "
                                         "string nor integer")
+                if is_int(value) and \
+                   not PROP_INT_MIN <= value <= PROP_INT_MAX:
+                    raise ProtocolError("Service property value %d can not "
+                                        "be represented in a signed 64-bit "
+                                        "integer" % value)
                 props[key].add(value)
         return props
 
-- 
2.43.0


From bbfc0f64ae26a792a17f807cc610bf3a976d4f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:01 +0000
Subject: [PATCH 15/32] fix: report invalid configuration instead of crashing
 or misreading it

Malformed YAML, an invalid idle limit, unknown TLS attributes and
values of the wrong type ended in unhandled exceptions. Booleans were
taken for integers. Clearing a limit (i.e., -c 0) did not work.
---
 paf/conf.py | 43 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/paf/conf.py b/paf/conf.py
index dcbc308..060c35d 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -43,6 +43,8 @@ class FormatError(Error):
         Error.__init__(self, message)
 
 
+TLS_ATTRS = ('cert', 'key', 'tc', 'crl')
+
 LOG_LEVELS = {
     'debug': logging.DEBUG,
     'info': logging.INFO,
@@ -134,8 +136,12 @@ class ResourcesClassConf:
         self.resources = sd.resources(clients=max_clients)
 
     def set_limit(self, name, value):
-        if not isinstance(value, int) or value < 0:
+        if not isinstance(value, int) or isinstance(value, bool) or \
+           value < 0:
             raise FormatError("resource limit", value)
+        self._set_limit(name, value)
+
+    def _set_limit(self, name, value):
         if name == "clients":
             self.resources[sd.ResourceType.CLIENT] = value
         elif name == "services":
@@ -146,7 +152,7 @@ class ResourcesClassConf:
             raise FormatError("resource type", name)
 
     def clear_limit(self, name):
-        self.set_limit(self, name, None)
+        self._set_limit(name, None)
 
     def get_client_limit(self):
         return self.resources[sd.ResourceType.CLIENT]
@@ -294,7 +300,9 @@ class Conf:
 
 
 def assure_type(value, value_type, path):
-    if not isinstance(value, value_type):
+    # bool is a subclass of int
+    if not isinstance(value, value_type) or \
+       (value_type is int and isinstance(value, bool)):
         raise Error("parameter '%s' has invalid value type: '%s' (expected "
                     "'%s')" % (path, type(value), value_type))
 
@@ -351,6 +359,14 @@ def assure_tls_addr(field_name, addr):
         raise FormatError(field_name, proto, ["tls", "utls"])
 
 
+def tls_populate(tls_attrs, tls_path):
+    assure_type(tls_attrs, dict, tls_path)
+    for name, value in tls_attrs.items():
+        if name not in TLS_ATTRS:
+            raise FormatError("TLS attribute", name, TLS_ATTRS)
+        assure_type(value, str, path(tls_path, name))
+
+
 def domains_populate(conf, domains, path):
     if domains is None:
         return
@@ -367,6 +383,8 @@ def domains_populate(conf, domains, path):
         if version is not None:
             version_path = "%s.protocol_version" % domain_path
 
+            assure_type(version, dict, version_path)
+
             version_min = dict_lookup(version, "min", int, version_path,
                                       default=version_min, required=False)
 
@@ -386,6 +404,8 @@ def domains_populate(conf, domains, path):
         if idle is not None:
             idle_path = "%s.idle" % domain_path
 
+            assure_type(idle, dict, idle_path)
+
             idle_min = dict_lookup(idle, "min", int, idle_path,
                                    default=DEFAULT_IDLE_MIN, required=False)
 
@@ -395,7 +415,10 @@ def domains_populate(conf, domains, path):
             idle_max = dict_lookup(idle, "max", int, idle_path,
                                    default=DEFAULT_IDLE_MAX, required=False)
 
-        idle_limit = sd.IdleLimit(idle_min, idle_max)
+        try:
+            idle_limit = sd.IdleLimit(idle_min, idle_max)
+        except ValueError as e:
+            raise Error(str(e))
 
         # 'addrs' is a legacy name for 'sockets'
         sockets = dict_lookup(domain, ["sockets", "addrs"], list, domain_path,
@@ -412,10 +435,12 @@ def domains_populate(conf, domains, path):
                     raise MissingFieldError(socket_path, "addr")
 
                 addr = socket["addr"]
+                assure_type(addr, str, "%s.addr" % socket_path)
 
                 if "tls" in socket:
                     assure_tls_addr("%s.addr" % socket_path, addr)
                     tls_attrs = socket["tls"]
+                    tls_populate(tls_attrs, "%s.tls" % socket_path)
                 else:
                     tls_attrs = {}
 
@@ -457,6 +482,14 @@ def default():
 def load(conf_file):
     conf = Conf()
     import yaml
-    source = yaml.safe_load(open(conf_file).read())
+    try:
+        with open(conf_file) as f:
+            source = yaml.safe_load(f)
+    except OSError:
+        raise
+    except Exception as e:
+        # besides YAMLError, PyYAML raises for example ValueError and
+        # RecursionError on malformed input
+        raise Error("malformed YAML: %s" % e)
     populate(conf, source)
     return conf
-- 
2.43.0


From b6cc31529b97cd2955786c10aee610648cdc6a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:01 +0000
Subject: [PATCH 16/32] fix: report invalid log and client limit options
 instead of crashing

---
 paf/daemon.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/paf/daemon.py b/paf/daemon.py
index b63376e..2ad9d01 100644
--- a/paf/daemon.py
+++ b/paf/daemon.py
@@ -158,9 +158,15 @@ def main(argv):
         elif opt == '-u':
             conf.log.set_syslog_socket(optval)
         elif opt == '-l':
-            conf.log.set_filter(optval)
+            try:
+                conf.log.set_filter(optval)
+            except paf.conf.Error as e:
+                early_error("Error in command line: %s." % e)
         elif opt == '-y':
-            conf.log.set_facility(optval)
+            try:
+                conf.log.set_facility(optval)
+            except paf.conf.Error as e:
+                early_error("Error in command line: %s." % e)
         elif opt == '-c':
             try:
                 clients = int(optval)
@@ -170,6 +176,8 @@ def main(argv):
                     conf.resources.total.set_limit("clients", clients)
             except ValueError:
                 early_error("Client limit must be an integer.")
+            except paf.conf.Error as e:
+                early_error("Error in command line: %s." % e)
         elif opt == '-r':
             hook = optval
         elif opt == '-v':
-- 
2.43.0


From a8cfdeb4e4dc1a6ba64489d6166a72d1afde4730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:41 +0000
Subject: [PATCH 17/32] fix: survive removal of an event source whose fd is
 already closed

Since Python 3.9, epoll.unregister() of a closed fd fails with EBADF.
---
 paf/eventloop.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paf/eventloop.py b/paf/eventloop.py
index 2bcd5d4..9c6be41 100644
--- a/paf/eventloop.py
+++ b/paf/eventloop.py
@@ -1,6 +1,7 @@
 # SPDX-License-Identifier: BSD-3-Clause
 # Copyright(c) 2020 Ericsson AB
 
+import errno
 import select
 import time
 import signal
@@ -138,8 +139,11 @@ class EventLoop:
             del self.source_fd[source]
             try:
                 self.epoll.unregister(fd)
-            except FileNotFoundError:
-                pass  # fd is closed, and thus removed from epoll
+            except OSError as e:
+                # A closed fd is already removed from epoll, and may
+                # since have been reused for some other file.
+                if e.errno not in (errno.EBADF, errno.ENOENT):
+                    raise
             del self.fd_source[fd]
 
     def changed_timeout(self, source):
-- 
2.43.0


From ea197718b44dcbf089ca939682a8255491f17d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:47 +0000
Subject: [PATCH 18/32] fix: client: tolerate transaction completed in nested
 synchronous call

If a notification callback made a synchronous call, and the transaction
being notified was completed during that call, removing the transaction
a second time raised KeyError.
---
 paf/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paf/client.py b/paf/client.py
index 09a4557..f637ae9 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -472,7 +472,9 @@ class Client:
                                     "transaction %d" % in_msg.ta_id)
             transaction.consume_message(in_msg)
             if transaction.state == TransactionState.TERMINATED:
-                del self.transactions[in_msg.ta_id]
+                # already removed, if completed during a synchronous call
+                # made by the callback of an earlier message
+                self.transactions.pop(in_msg.ta_id, None)
             return True
         except xcm.error as e:
             if e.errno == errno.EAGAIN:
-- 
2.43.0


From 6cc33ea5b4e8bd76e7e61c90a832487051cc8a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:56 +0000
Subject: [PATCH 19/32] fix: client: reject a selected version outside the
 offered range

---
 paf/client.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/paf/client.py b/paf/client.py
index f637ae9..c6403bb 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -300,11 +300,14 @@ class Client:
         elif event == EventType.COMPLETE:
             selected_version = args[0]
 
-            if selected_version not in proto.VERSIONS:
+            min_version, max_version = self.proto_version_range
+
+            if selected_version not in proto.VERSIONS or \
+               not min_version <= selected_version <= max_version:
                 raise ProtocolError("Server selected unsupported "
                                     "protocol version %d (required %d-%d)"
-                                    % (selected_version, proto.MIN_VERSION,
-                                       proto.MAX_VERSION))
+                                    % (selected_version, min_version,
+                                       max_version))
             self.proto_version = selected_version
 
             if self.tracker is not None and self.proto_version >= 3:
-- 
2.43.0


From 41568ad230667da8d76f5d208e640b5913207589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 20/32] fix: conf: honour max_idle_time also if an idle
 dictionary is present

An 'idle' dictionary without a 'max' key silently reset the maximum idle
time configured by the legacy 'max_idle_time' to the default.
---
 paf/conf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/conf.py b/paf/conf.py
index 060c35d..dbbcfcb 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -413,7 +413,7 @@ def domains_populate(conf, domains, path):
                 raise DuplicateFieldError(domain_path, "max_idle_time")
 
             idle_max = dict_lookup(idle, "max", int, idle_path,
-                                   default=DEFAULT_IDLE_MAX, required=False)
+                                   default=idle_max, required=False)
 
         try:
             idle_limit = sd.IdleLimit(idle_min, idle_max)
-- 
2.43.0


From 738901c9050252cb866be18d3468b11dc866c305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 21/32] fix: xcm: report failure to change blocking mode

---
 paf/xcm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paf/xcm.py b/paf/xcm.py
index 258fc3d..48aa802 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -173,7 +173,9 @@ class Socket:
 
     @_assure_open
     def set_blocking(self, val):
-        xcm_set_blocking_c(self.xcm_socket, val)
+        rc = xcm_set_blocking_c(self.xcm_socket, val)
+        if rc < 0:
+            _raise_io_err()
 
     @_assure_open
     def is_blocking(self):
-- 
2.43.0


From d6f31654b253b8b6142b57e752131a57dd764376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 22/32] fix: xcm: do not read attribute value from freed memory

---
 paf/xcm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paf/xcm.py b/paf/xcm.py
index 48aa802..2d7e340 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -114,10 +114,10 @@ NONBLOCK = (1 << 0)
 
 def _attr_to_py(attr_type, attr_value, attr_len):
     if attr_type.value == ATTR_TYPE_BOOL:
-        bool_value = cast(attr_value.raw, POINTER(c_bool))
+        bool_value = cast(attr_value, POINTER(c_bool))
         return bool_value.contents.value
     elif attr_type.value == ATTR_TYPE_INT64:
-        int_value = cast(attr_value.raw, POINTER(c_long))
+        int_value = cast(attr_value, POINTER(c_long))
         return int_value.contents.value
     elif attr_type.value == ATTR_TYPE_STR:
         return bytes(attr_value.value).decode('utf-8')
-- 
2.43.0


From 7bbcd8ff280b78baa4a402e1473fe0e70d2fffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 23/32] fix: xcm: release attribute map in case an attribute is
 invalid

---
 paf/xcm.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/paf/xcm.py b/paf/xcm.py
index 2d7e340..3bf3d10 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -143,8 +143,12 @@ def _attr_map_add(attr_map, attr_name, attr_value):
 
 def _attr_map_create(attrs):
     attr_map = xcm_attr_map_create_c()
-    for attr_name, attr_value in attrs.items():
-        _attr_map_add(attr_map, attr_name, attr_value)
+    try:
+        for attr_name, attr_value in attrs.items():
+            _attr_map_add(attr_map, attr_name, attr_value)
+    except Exception:
+        xcm_attr_map_destroy_c(attr_map)
+        raise
     return attr_map
 
 
@@ -258,8 +262,8 @@ class ServerSocket(Socket):
         Socket.__init__(self, xcm_socket)
 
     def accept(self, attrs={}):
+        attr_map = _attr_map_create(attrs)
         try:
-            attr_map = _attr_map_create(attrs)
             xcm_socket = xcm_accept_a_c(self.xcm_socket, attr_map)
             if xcm_socket:
                 return ConnectionSocket(xcm_socket)
-- 
2.43.0


From 63eaf129285951c87adf395150fcddb2c4760817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:44 +0000
Subject: [PATCH 24/32] fix: xcm: do not pass closed sockets to the library

---
 paf/xcm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paf/xcm.py b/paf/xcm.py
index 3bf3d10..877aa31 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -243,12 +243,14 @@ class ConnectionSocket(Socket):
     def __init__(self, xcm_socket):
         Socket.__init__(self, xcm_socket)
 
+    @_assure_open
     def send(self, msg):
         rc = xcm_send_c(self.xcm_socket, msg, len(msg))
         if rc < 0:
             _raise_io_err()
         return rc
 
+    @_assure_open
     def receive(self):
         buf = create_string_buffer(MAX_MSG)
         rc = xcm_receive_c(self.xcm_socket, byref(buf), MAX_MSG)
@@ -261,6 +263,7 @@ class ServerSocket(Socket):
     def __init__(self, xcm_socket):
         Socket.__init__(self, xcm_socket)
 
+    @_assure_open
     def accept(self, attrs={}):
         attr_map = _attr_map_create(attrs)
         try:
-- 
2.43.0


From 4a2961312383b44171fc386f2e14d264b5fbdb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 25/32] fix: pafc: do not fail on text which can not be encoded

---
 app/pafc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app/pafc b/app/pafc
index 5da2438..80c6be6 100755
--- a/app/pafc
+++ b/app/pafc
@@ -653,6 +653,9 @@ def list_domains(args):
 
 if __name__ == '__main__':
     try:
+        # service properties may hold code points which can't be encoded
+        sys.stdout.reconfigure(errors='backslashreplace')
+
         client_id = None
         list_addrs = False
         server_num = None
-- 
2.43.0


From 89ca895a2dc882198687544dfc58346ae9840118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 26/32] fix: pafc: accept empty and single '|' property values

---
 app/pafc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/pafc b/app/pafc
index 80c6be6..7a6e992 100755
--- a/app/pafc
+++ b/app/pafc
@@ -445,7 +445,7 @@ def parse_props(args):
     service_props = collections.defaultdict(set)
     for i in range(0, len(args), 2):
         value = args[i+1]
-        if value[0] == '|' and value[-1] == '|':
+        if len(value) > 1 and value[0] == '|' and value[-1] == '|':
             value = value[1:-1]
         elif value.strip() == value:
             try:
-- 
2.43.0


From 9a2cfc1fddc76ad3e81099bfe98c59d3c1ad3aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 27/32] fix: pafc: report commands which can not be parsed
 instead of hanging or ignoring arguments

---
 app/pafc | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/app/pafc b/app/pafc
index 7a6e992..eda60c5 100755
--- a/app/pafc
+++ b/app/pafc
@@ -463,6 +463,13 @@ def parse_id(id_str):
         raise ValueError("'%s' is not a valid id" % id_str)
 
 
+def parse_filter(line):
+    args = shlex.split(line)
+    if len(args) > 1:
+        raise ValueError("Too many arguments")
+    return args[0] if len(args) == 1 else None
+
+
 class PafCli(cmd.Cmd):
     prompt = '> '
 
@@ -512,7 +519,11 @@ class PafCli(cmd.Cmd):
 
         This command is only available on protocol version 3 connections.
 """
-        args = shlex.split(line)
+        try:
+            args = shlex.split(line)
+        except ValueError as e:
+            print("%s." % e)
+            return
         if len(args) == 0:
             self.worker.cmd_track()
         elif len(args) == 1:
@@ -530,12 +541,11 @@ class PafCli(cmd.Cmd):
     def do_services(self, line):
         """services [<filter-expression>]
         List all services (optionally matching the filter expression)."""
-        args = shlex.split(line)
-        if len(args) == 1:
-            filter = args[0]
-        else:
-            filter = None
-        self.worker.cmd_services(filter=filter)
+        try:
+            filter = parse_filter(line)
+            self.worker.cmd_services(filter=filter)
+        except ValueError as e:
+            print("%s." % e)
 
     def do_clients(self, line):
         """clients
@@ -586,16 +596,10 @@ class PafCli(cmd.Cmd):
         """subscribe [<filter-expression>]
         Subscribe to changes in services (with optional filter expression)."""
         try:
-            args = shlex.split(line)
-            if len(args) == 1:
-                filter = args[0]
-            else:
-                filter = None
+            filter = parse_filter(line)
             self.worker.cmd_subscribe(filter=filter)
         except ValueError as e:
             print("%s." % e)
-        except IndexError:
-            print("Subscription filter expression is missing.")
 
     def do_unsubscribe(self, line):
         """unsubscribe <subscription-id>
-- 
2.43.0


From 03c5deb7de4d851d94321813f3923a9337f24f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 28/32] fix: pafc: do not end the session if track is not
 supported

---
 app/pafc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/pafc b/app/pafc
index eda60c5..ce88029 100755
--- a/app/pafc
+++ b/app/pafc
@@ -235,7 +235,11 @@ class Worker(Thread):
 
     def _cmd_track(self):
         if self.tracker is None:
-            self.tracker = Tracker(self.conn)
+            try:
+                self.tracker = Tracker(self.conn)
+            except client.Error as e:
+                self._fail(e)
+                return
 
             client.wait(self.conn,
                         lambda: self.tracker.accepted or self.tracker.failed)
-- 
2.43.0


From 559fc1b629e4693d5721ae497dab251e6d77acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 29/32] fix: pafc: reject integers which can not be represented
 in the protocol

---
 app/pafc | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/app/pafc b/app/pafc
index ce88029..5208cb4 100755
--- a/app/pafc
+++ b/app/pafc
@@ -18,6 +18,7 @@ import time
 
 import paf.client as client
 import paf.props as props
+import paf.proto as proto
 
 
 def usage(name):
@@ -415,10 +416,12 @@ class Worker(Thread):
         self.dispatch_fun(self._cmd_subscriptions)
 
     def _check_id(self, id_type, the_id):
-        if the_id < 0:
-            print("%s id must be a non-negative integer." % id_type)
+        try:
+            check_non_negative("%s id" % id_type, the_id)
+            return True
+        except ValueError as e:
+            print("%s." % e)
             return False
-        return True
 
     def _check_service_id(self, service_id):
         return self._check_id("Service", service_id)
@@ -443,6 +446,16 @@ def init(server, client_id):
     return worker
 
 
+def check_range(name, value, min_value, max_value):
+    if value < min_value or value > max_value:
+        raise ValueError("%s must be an integer in the range %d to %d" %
+                         (name, min_value, max_value))
+
+
+def check_non_negative(name, value):
+    check_range(name, value, 0, proto.NON_NEGATIVE_INT_MAX)
+
+
 def parse_props(args):
     if len(args) % 2 != 0:
         raise ValueError("Service properties must be key-value pairs")
@@ -456,6 +469,9 @@ def parse_props(args):
                 value = int(value)
             except ValueError:
                 pass
+            else:
+                check_range("Property value", value, proto.PROP_INT_MIN,
+                            proto.PROP_INT_MAX)
         service_props[args[i]].add(value)
     return service_props
 
@@ -580,6 +596,8 @@ class PafCli(cmd.Cmd):
                 generation = int(args[0])
                 ttl = int(args[1])
                 prop_args = args[2:]
+            check_non_negative("Generation", generation)
+            check_non_negative("TTL", ttl)
             service_props = parse_props(prop_args)
             self.worker.cmd_publish(service_id, generation, service_props, ttl)
         except ValueError as e:
-- 
2.43.0


From 2b15d9f066a0a6e1d58668201a388a245e431e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 30/32] fix: crash on inform messages of other commands in
 track transactions

A well-formed inform message of another command (such as ping), with the
id of an open track transaction, was passed to a handler which does not
exist, and brought down the server.
---
 paf/server.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/paf/server.py b/paf/server.py
index 85b2bf9..77fa2ed 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -62,9 +62,10 @@ class Transaction:
         self.state = TransactionState.REQUESTED
 
     def inform(self, in_msg):
-        if not self.is_two_way():
-            raise ProtocolError("Received inform message in transaction %d, "
-                                "which is not of a two-way type" % self.ta_id)
+        if not self.is_two_way() or in_msg.ta_type is not self.ta_type:
+            raise ProtocolError("Received \"%s\" inform message in transaction "
+                                "%d, which is not a two-way transaction of "
+                                "that command" % (in_msg.cmd(), self.ta_id))
 
         if self.state == TransactionState.IDLE:
             raise ProtocolError("Inform message precedes request in "
-- 
2.43.0


From 2be6729411055f09455aba4b1af7c34e0b771a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 31/32] fix: leak of accounting state of users refused any
 resource

With a per-user client limit of zero, an entry was kept for every user
who ever tried to connect.
---
 paf/sd.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/paf/sd.py b/paf/sd.py
index 0025097..8ef9405 100644
--- a/paf/sd.py
+++ b/paf/sd.py
@@ -117,10 +117,11 @@ class ResourceManager:
 
     def allocate(self, user_id, resource_type):
         self.check_total(resource_type)
-        if user_id not in self.consumers:
-            self.consumers[user_id] = \
-                Consumer(user_id, self.max_user_resources)
-        self.consumers[user_id].allocate(resource_type)
+        consumer = self.consumers.get(user_id)
+        if consumer is None:
+            consumer = Consumer(user_id, self.max_user_resources)
+        consumer.allocate(resource_type)
+        self.consumers[user_id] = consumer
 
     def deallocate(self, user_id, resource_type):
         consumer = self.consumers[user_id]
-- 
2.43.0


From a1f0e6b34e7469942c9ad18e3865c2f16f45dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:00 +0000
Subject: [PATCH 32/32] fix: client: report minus infinity in number fields as
 a protocol error

A message from the server with a number field (idle, latency or
orphan-since) which decodes to minus infinity (e.g., -1e400) made the
formatting of the protocol error message raise OverflowError, instead
of the ProtocolError meant for the application.
---
 paf/proto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/proto.py b/paf/proto.py
index 0c3e678..0014c95 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -102,7 +102,7 @@ class NonNegativeNumberField(Field):
                                 self.name)
         if value < 0:
             raise ProtocolError("Message field %s has a negative "
-                                "value %d" % (self.name, value))
+                                "value %s" % (self.name, value))
         return value
 
 
-- 
2.43.0

