#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth, easier to edit than JSON lines)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        }})


NOXCM = ("The stable suite only runs the filter and timer unit tests; test_paf.py needs libxcm and, where it runs, "
         "drives a few fixed scripts against wall-clock time.")

prop("P01", "Subscription notifications reconstruct exactly the matching services",
     """From the moment a subscription is accepted until it is completed or its connection ends, replaying its
     notifications in order yields at every point exactly the set of services matching its filter, with current
     generation, properties, TTL, owner and orphan time: services already matching are notified as `appeared` right
     after the accept, and every later change of a service produces exactly one `appeared`, `modified` or
     `disappeared` notification according to whether the service matched before and after it. A change that leaves
     the service unmatched before and after, or that alters nothing, is not notified; no notification is lost,
     duplicated, invented, or sent after the subscription completed.""",
     ["histories", "schedules", "inputs"],
     """All interleavings of publish, republish, unpublish, ownership transfer, orphaning, reclaim, orphan expiry,
     subscribe, unsubscribe and disconnect by any number of clients, with any filters and properties, and any
     readiness/back-pressure schedule of the transport.""",
     NOXCM + " A notification stream is a property of the whole history, not of one request.",
     ["paf/sd.py", "paf/server.py", "paf/filter.py"],
     [("match before/after decision", "paf/sd.py:Subscription.notify"),
      ("fan-out of changes", "paf/sd.py:ServiceDiscovery.service_changed"),
      ("initial replay", "paf/sd.py:Client.activate_subscription"),
      ("mapping to wire notification", "paf/server.py:Connection.subscription_triggered")],
     [("Service.cur/prev", "current and previous service generation", "paf/sd.py:Service"),
      ("DB.subscriptions", "live subscriptions", "paf/sd.py:DB")],
     ["transport send boundary of each subscriber connection"])

prop("P02", "A service record only changes by the generation and ownership rules",
     """Publishing an unknown service creates the record exactly as requested, owned by the publisher; republishing
     by the same user with a higher generation replaces properties and TTL and makes the publisher the owner; with
     the same generation it is accepted only if properties and TTL are identical, in which case only ownership moves
     to the publisher and orphan status is cleared; a lower generation fails as `old-generation`, same generation
     with different content as `same-generation-but-different`. Unpublishing removes the record (after becoming
     owner, if another client of the same user owned it), and unpublishing an unknown service fails as
     `non-existent-service-id`. A failed request changes nothing that any client can observe.""",
     ["histories", "inputs"],
     "All sequences of publish/republish/unpublish by any clients and users over any service ids, generations, properties and TTLs.",
     NOXCM + " The rules span arbitrary sequences of publishers, generations and owners.",
     ["paf/sd.py", "paf/server.py"],
     [("generation rules", "paf/sd.py:Client.publish"), ("removal", "paf/sd.py:Client.unpublish"),
      ("ownership transfer", "paf/sd.py:Client.capture_service")],
     [("DB.services", "the directory", "paf/sd.py:DB")],
     ["responses on the requesting connection", "services listing", "subscription notifications"])

prop("P03", "Orphans live for their TTL after disconnect, then are removed unless reclaimed",
     """When a client's connection ends for any reason, every service it then owns becomes an orphan stamped with
     the time of disconnection; an orphan is kept until its TTL has passed since that time and is then removed
     promptly, and never earlier. A permitted republish or unpublish of an orphan cancels the pending expiry, so a
     reclaimed service is never removed by an old deadline and is orphaned anew, with a fresh time, whenever its new
     owner's connection ends. No service ever stays in the directory without either a connected owner or a running
     orphan deadline.""",
     ["histories", "schedules", "fault_sequences"],
     "All sequences of disconnects, reconnects, reclaims, transfers, TTL changes and arbitrary passage of time, including events that coincide with or race a deadline.",
     NOXCM + " Deadlines racing with reclaim need controlled time, which the tests do not have.",
     ["paf/sd.py", "paf/timer.py", "paf/server.py"],
     [("orphaning", "paf/sd.py:Client.disconnect"), ("expiry timers", "paf/sd.py:ServiceDiscovery.maintain_orphans"),
      ("purge", "paf/sd.py:Client.purge_orphan")],
     [("orphan_timers", "pending expiry per service", "paf/sd.py:ServiceDiscovery")],
     ["notifications and listings under virtual time"])

prop("P04", "Users cannot touch each other's services, subscriptions or client ids",
     """The user is derived from the transport only (TLS certificate subject key id, else remote IP address for
     TLS/TCP, else one common local user). A publish or unpublish of a service owned by another user fails with
     `permission-denied` and has no effect; a subscription can be cancelled only by the client id that created it;
     and a client id that still holds (orphan) services of one user cannot be taken by another user. Operations
     within the same user are never refused for permission reasons.""",
     ["histories", "inputs", "configurations"],
     "All request histories by clients of several users over all transports, including reconnects under another user's client id.",
     NOXCM + " The stable tests never exercise a second user.",
     ["paf/sd.py", "paf/server.py"],
     [("user derivation", "paf/server.py:Connection.determine_user_id"),
      ("service access check", "paf/sd.py:Service.check_access"),
      ("subscription access check", "paf/sd.py:Subscription.check_access"),
      ("client id binding", "paf/sd.py:Client.connect")],
     [], ["responses and observable directory state"])

prop("P05", "Configured resource limits are never exceeded and never leak",
     """At every moment the number of connected clients, subscriptions and services (orphans included), per user and
     in total per domain, stays within the configured limits, and no more connections are accepted than the total
     client limit. A request is refused with `insufficient-resources` only when it really would exceed a limit, and
     a refused request consumes nothing. Every unit is given back when the client disconnects, the subscription ends
     or the service is removed, so that capacity freed can always be used again, however often this repeats.""",
     ["histories", "configurations", "fault_sequences"],
     "All histories of allocation, failure, disconnect, expiry and transfer under every combination of user/total limits.",
     NOXCM + " Leaks show only after long histories with failures in between.",
     ["paf/sd.py", "paf/server.py", "paf/conf.py"],
     [("accounting", "paf/sd.py:ResourceManager"), ("accept gating", "paf/server.py:Server.max_clients_reached")],
     [("Consumer.used_resources", "units in use per user", "paf/sd.py:Consumer")],
     ["accept/refuse decisions at the transport boundary and responses"])

prop("P06", "No client input or transport fault stops the server or harms other clients",
     """Whatever bytes a client sends, in whatever order, and whatever transport error its connection suffers, the
     server process keeps running and keeps serving every other client exactly as if the offending client had simply
     disconnected at that point. A message that violates the protocol leads to the closing of the connection it
     arrived on and of no other. Requests handled before the violation keep their effects.""",
     ["inputs", "fault_sequences", "histories"],
     "All byte strings, JSON values, message types, transaction ids and message orders from hostile clients, and all transport errors at any call, mixed with well-behaved clients.",
     NOXCM + " Nothing in the suite feeds hostile input to the server's dispatcher.",
     ["paf/server.py", "paf/proto.py", "paf/filter.py", "paf/sd.py"],
     [("error containment", "paf/server.py:Connection.activate"), ("message validation", "paf/proto.py:Message.parse")],
     [], ["process liveness, CLOSE events per connection, behaviour towards well-behaved clients"])

prop("P07", "Every request gets exactly the response sequence its command prescribes",
     """Each well-formed request is answered in its own transaction exactly once by the sequence its command
     prescribes: a single `complete` or `fail`; or `accept`, notifications and `complete` for listings and
     subscriptions; or `accept` and open-ended notifications for tracking; or one `fail`. Every message sent carries
     the request's command and transaction id, exactly the mandatory and permitted optional fields of its type and
     negotiated version with correctly typed values, and for failures one of the documented fail reasons that really
     applies. Nothing is sent in a transaction after its terminating message, and its id may then be reused.""",
     ["histories", "inputs", "schedules"],
     "All commands, orders, pipelining depths, transaction id choices and reuse, on protocol versions 2 and 3.",
     NOXCM,
     ["paf/server.py", "paf/proto.py"],
     [("transaction state machine", "paf/server.py:Transaction"), ("message schema", "paf/proto.py:TransactionType")],
     [("Connection.tas", "open transactions", "paf/server.py:Connection")],
     ["transport send boundary"])

prop("P08", "Handshake: version negotiation and access before hello",
     """A successful handshake selects the highest protocol version inside both the client's and the configured
     server range, a handshake without common version fails as `unsupported-protocol-version`, and the selected
     version alone decides which commands and fields are available afterwards. Until a handshake has succeeded every
     other request fails as `no-hello` without any effect, while a failed handshake may be retried on the same
     connection with the same client id. Once the connection has claimed a client id, a hello with another id fails
     as `permission-denied`, and repeating the successful hello just reports the version again.""",
     ["inputs", "configurations", "histories"],
     "All client version ranges (including inverted and huge ones), all server ranges, and all orders of hello and other requests.",
     NOXCM,
     ["paf/server.py", "paf/conf.py", "paf/proto.py"],
     [("negotiation", "paf/conf.py:ProtoVersionLimitConf.get_highest_allowed"),
      ("hello", "paf/server.py:Connection.hello_request"), ("gate", "paf/server.py:Connection.process")],
     [], ["hello responses and the dialect spoken afterwards"])

prop("P09", "Idle clients are probed and dropped in time; live clients are never dropped",
     """A version 3 client from which nothing has been received for its maximum idle time (the lowest TTL among its
     services limited to the configured range, or the configured maximum when it has none) is disconnected at about
     that time, within the documented 10% warning jitter, and, if it has a track transaction, is sent a query at
     about half that time. A client that sends anything, including a reply to a query, before its time is up is
     never disconnected for idleness, and version 2 clients never are. A second client trying to connect under an
     id in use makes the server probe the present holder at once, without disturbing it if it answers.""",
     ["histories", "schedules", "configurations"],
     "All idle limits, TTL sets and changes, activity patterns and reply delays, under arbitrary passage of time and jitter.",
     NOXCM + " The liveness tests take tens of wall-clock seconds for one configuration each.",
     ["paf/sd.py", "paf/server.py", "paf/timer.py"],
     [("idle state machine", "paf/sd.py:Connection"), ("probe", "paf/server.py:Connection.check_idle"),
      ("drop", "paf/server.py:Server.client_idle")],
     [("Connection.idle_state/idle_timer", "liveness state per client connection", "paf/sd.py:Connection")],
     ["track queries and CLOSE events under virtual time"])

prop("P10", "At most one live connection per client id, and ids are reusable at once",
     """At no time are two connections of a domain successfully handshaked under the same client id: a hello for an
     id that is in use fails as `client-id-exists`, leaving the present holder and its services and subscriptions
     untouched. As soon as the holder's connection is gone the same user can connect again under that id, and finds
     its former services as its orphans to reclaim and its former subscriptions gone.""",
     ["histories", "schedules"],
     "All races between disconnect detection, idle drop and reconnect of the same client id, any number of times.",
     NOXCM,
     ["paf/sd.py", "paf/server.py"],
     [("connect", "paf/sd.py:Client.connect"), ("disconnect", "paf/sd.py:Client.disconnect")],
     [("DB.clients", "client ids known", "paf/sd.py:DB")],
     ["hello responses, clients listing"])

prop("P11", "Filters match exactly the services the filter language defines",
     """For every filter expression and every property multimap, equality matches a property with that name and that
     string, or an integer written that way; presence matches any property of that name; substring matching holds
     exactly when some value of that name, an integer being taken in decimal, consists of the given pieces in order
     anchored at both ends, every other character being free; greater- and less-than match integer values only; and
     AND, OR and NOT are the boolean combinations. Evaluation never fails, and its cost stays practical for any
     filter and value that fit in a message.""",
     ["inputs"],
     "All filters and all property multimaps, including special and control characters, non-BMP text, negative and large integers, multi-valued keys and adversarial repetition.",
     "The unit tests evaluate a handful of fixed filters on fixed single-line strings.",
     ["paf/filter.py"],
     [("evaluation", "paf/filter.py:*.match"), ("parsing", "paf/filter.py:parse")],
     [], ["filter parse and match results, also via services and subscribe requests"])

prop("P12", "The filter grammar is accepted exactly, and printing a filter preserves it",
     """Every expression of the documented filter grammar (with the tested restrictions: composite operators take
     at least two operands, values are non-empty) is accepted, and any other string, including truncated or deeply
     nested ones, is rejected with a parse error rather than any other failure. The textual form of a parsed filter,
     as shown in the subscriptions listing, parses again to a filter with the same meaning and the same text, and
     escaping makes any string usable as a literal key or value.""",
     ["inputs"],
     "All strings over the filter alphabet and beyond, of any length and nesting depth.",
     "The unit tests try some twenty fixed malformed strings and one escape sequence.",
     ["paf/filter.py", "paf/server.py"],
     [("recursive descent parser", "paf/filter.py:parse"), ("escape", "paf/filter.py:escape"),
      ("printing", "paf/filter.py:__str__")],
     [], ["parse results and printed forms, invalid-filter-syntax responses"])

prop("P13", "Messages are accepted exactly when well-formed, and values survive unchanged",
     """A client message is accepted exactly when it is a UTF-8 JSON object with precisely the fields its command,
     message type and negotiated version allow, every value having the documented type and range (non-negative
     64-bit integers, strings, property multimaps of strings and 64-bit integers; booleans, floats and nulls are not
     integers); any other message is a protocol violation that closes the connection. Whatever a client published -
     ids, generation, TTL, property names and values of any text or number - is reported to other clients unchanged.""",
     ["inputs"],
     "All JSON values in all field positions, boundary integers, all Unicode text, field omissions, additions and duplications of type.",
     "The stable tests never parse or produce a message.",
     ["paf/proto.py", "paf/server.py"],
     [("field codecs", "paf/proto.py:Field and subclasses"), ("schema", "paf/proto.py:TransactionType"),
      ("parse/to_wire", "paf/proto.py:Message")],
     [], ["accept/close decision per message, values echoed in listings and notifications"])

prop("P14", "Timers fire exactly once, in order, never early, and can always be cancelled",
     """Under any sequence of additions and removals, including those made by handlers while timers are being
     processed, every timer whose time has come fires exactly once when timers are processed, in order of
     expiration time, a timer never fires before its time, and a removed timer never fires. The next timeout
     reported is always that of the earliest remaining timer, and its user is told whenever it changes.""",
     ["histories", "inputs"],
     "All operation sequences with any expiration times (equal, past, absolute and relative) and re-entrant handlers.",
     "The unit tests run two patterns without removal or addition from handlers, and never look at the change notification.",
     ["paf/timer.py"],
     [("ordered insertion", "paf/timer.py:TimerManager._allocate_idx"), ("processing", "paf/timer.py:TimerManager.process")],
     [("deque", "pending timers in order", "paf/timer.py:TimerManager")],
     ["handler invocations, next_timeout and change callback"])

prop("P15", "The event loop serves every ready source, only live ones, and sleeps when idle",
     """The event loop calls the handler of every registered source whose descriptor is ready, whose timeout has
     passed or which is marked active, within a bounded number of iterations, never calls the handler of a source
     that has been removed because of its descriptor, and survives handlers that add, change, remove or close any
     source, including reuse of descriptor numbers. It sleeps exactly until the earliest timeout or next event -
     an idle server with nothing pending does not wake up at all - and it ends after a stop request or a
     termination signal.""",
     ["schedules", "histories", "inputs"],
     "All registrations and all handler re-entrancy patterns, any subset and order of ready descriptors, any timeouts, signals at any time.",
     "No stable test exercises the event loop.",
     ["paf/eventloop.py", "paf/server.py"],
     [("dispatch", "paf/eventloop.py:EventLoop.handle_fds"), ("timeouts", "paf/eventloop.py:EventLoop.next_relative_timeout"),
      ("stop", "paf/eventloop.py:EventLoop.run")],
     [("fd_source", "descriptor to source map", "paf/eventloop.py:EventLoop")],
     ["handler invocations, poll timeouts, registered descriptors"])

prop("P16", "Per-connection ordering and back-pressure",
     """On each connection messages are delivered in the order of the events that caused them - responses in request
     order, and a ping response only after every notification caused earlier - and no message is dropped,
     duplicated, reordered or altered however slowly the client reads or however often sending would block. While
     about a hundred messages (128) wait for a slow client the server reads no further request from it, resumes as
     soon as they are drained, and in the meantime keeps serving all other clients.""",
     ["schedules", "histories", "fault_sequences"],
     "All interleavings of stalls, partial drains, bursts and would-block results on any connections.",
     NOXCM,
     ["paf/server.py"],
     [("output queue", "paf/server.py:Connection.respond"), ("retry on would-block", "paf/server.py:Connection.try_send"),
      ("read gating", "paf/server.py:Connection.receivable")],
     [("out_wire_msgs", "queued messages", "paf/server.py:Connection")],
     ["transport send/receive boundary per connection"])

prop("P17", "The server keeps nothing of clients, services and subscriptions that are gone",
     """After any history in which every client has disconnected and every service has been removed, the server
     retains nothing of it: all connections are closed, no descriptors stay registered, no timers stay armed, no
     memory is held for past clients, services, subscriptions or transactions, every client id is free for any user,
     and the process sleeps indefinitely. Also while clients stay connected, completed transactions, cancelled
     subscriptions, removed services and dropped connections leave nothing behind, so memory use does not grow with
     the length of the history.""",
     ["histories", "fault_sequences"],
     "All histories of connects, faults, publishes, reclaims, transfers, subscriptions and disconnects, repeated any number of times.",
     NOXCM + " Retention shows only by inspecting the process after long histories.",
     ["paf/sd.py", "paf/server.py", "paf/eventloop.py", "paf/timer.py"],
     [("stale client/connection removal", "paf/sd.py:Client.is_stale"), ("connection teardown", "paf/server.py:Connection.terminate")],
     [("DB.*", "all registries", "paf/sd.py:DB")],
     ["object graph growth across cycles, descriptor registrations, poll timeout, transport handles"])

prop("P18", "Connections that never complete the handshake are dropped and free their slot",
     """A connection that has not issued a hello, or only hellos that were refused, is dropped once it is more than
     about two and before about four seconds old (a refused one, claiming a client id that is in use, may stay while
     that client is known), and a connection that does complete its handshake in time is never dropped for this reason. Slots
     held by such connections, or freed in any other way, become available to new clients at once: whenever fewer
     connections than the client limit are open, a waiting client is accepted promptly on any of the domain's sockets.""",
     ["schedules", "fault_sequences", "configurations"],
     "All arrival patterns, partial handshakes, client limits and socket counts, under arbitrary passage of time and accept errors.",
     NOXCM,
     ["paf/server.py"],
     [("clean-out", "paf/server.py:Server.clean_out_connections"), ("accept gating", "paf/server.py:Server.sock_activate"),
      ("re-arming", "paf/server.py:Server.conn_terminated")],
     [("clientless_connections", "connections before hello", "paf/server.py:Server")],
     ["ACCEPT and CLOSE events under virtual time"])

prop("P19", "Configuration is honoured exactly or rejected cleanly",
     """For every configuration file and command line, the daemon either starts with precisely the configured
     domains, sockets and their TLS credentials, protocol version ranges, idle limits, resource limits and log
     settings (documented defaults where absent, command line overriding the file, legacy names accepted), or it
     prints an error message and exits with status 1 before serving anything. It never ends in an unhandled
     exception and never silently ignores or alters a setting it accepts.""",
     ["configurations", "inputs"],
     "All YAML documents (well-formed or not, with wrong types, ranges and unknown keys where these are validated) and all option combinations.",
     "No stable test loads a configuration.",
     ["paf/conf.py", "paf/daemon.py", "paf/logging.py"],
     [("population", "paf/conf.py:populate"), ("command line", "paf/daemon.py:main")],
     [], ["sockets created, negotiated versions, limits and idle times enforced, exit status and output"])

prop("P20", "The client library reports each outcome exactly, synchronously or by callback",
     """Every call of the client library returns the server's result for that very request or raises the
     documented error with the server's fail reason, for every command, with or without a reason; callbacks get
     accept, notifications and completion or failure in order, exactly once each, for their own transaction.
     Out-of-order, interleaved or delayed responses of other transactions, would-block conditions and slow
     connections never lose, duplicate or mix up anything, and a lost connection or protocol-violating server is
     reported as an error rather than any other exception or a hang. The ids it generates are valid and do not
     recur.""",
     ["inputs", "schedules", "fault_sequences"],
     "All legal server response sequences and interleavings, all would-block patterns, and illegal or failing servers.",
     NOXCM,
     ["paf/client.py", "paf/proto.py"],
     [("transaction state machine", "paf/client.py:Transaction"), ("synchronous calls", "paf/client.py:Call and subclasses"),
      ("output queue", "paf/client.py:Client.try_send")],
     [], ["return values, exceptions and callback sequences at the client API"])

prop("P21", "Domain names resolve to exactly the servers the domain file lists",
     """Connecting to a name uses the first server of the domain file of that name in the configured directory
     (by default /run/paf/domains.d) - in the plain format (one address per line, comments and blank lines ignored) or the JSON format with optional
     credentials and protocol version bounds - and listing a domain or all domains reports exactly what is there, in
     order; a name without such a file is used as an address. Credentials and version bounds given in the file are
     the ones used for that connection, and none is used otherwise.""",
     ["inputs", "configurations"],
     "All domain file contents in both formats, all directory contents and environment settings.",
     NOXCM,
     ["paf/client.py", "app/pafc"],
     [("domain files", "paf/client.py:read_domain"), ("format detection", "paf/client.py:looks_like_json_object")],
     [], ["address and attributes of the outgoing connection, listing results, version range offered in hello"])

prop("P22", "Listings are exact snapshots",
     """The services listing reports each service matching the given filter exactly once with its current
     generation, properties, TTL, owner and orphan time; the subscriptions listing each live subscription of the
     domain with its owner and an equivalent filter; and the clients listing each connected client with its address,
     connection time and, for version 3 requesters, idle time, protocol version and, if measured, latency. Each
     listing reflects every request handled before it and nothing later, and reports nothing else.""",
     ["histories", "schedules"],
     "All directory states reachable by any history, listings requested at any point by any client of either version.",
     NOXCM,
     ["paf/server.py", "paf/sd.py"],
     [("listings", "paf/server.py:Connection.services_request, subscriptions_request, clients_request")],
     [], ["notifications of listing transactions"])

prop("P23", "Domains are isolated; the sockets of one domain share one directory",
     """Each domain served by a process has its own name space: services, subscriptions, client ids, resource
     accounting and expiry of one domain never influence another, and the same identifiers may be used in several
     domains at once. All sockets of one domain give access to the same directory and the same limits, whatever
     transport each one uses.""",
     ["histories", "configurations"],
     "All configurations with several domains and sockets and all histories over them with colliding identifiers.",
     NOXCM,
     ["paf/daemon.py", "paf/server.py", "paf/sd.py"],
     [("one server per domain", "paf/daemon.py:run"), ("several sockets", "paf/server.py:Server.add_socket")],
     [], ["behaviour per domain at the transport boundary"])

prop("P24", "Termination signals end the daemon cleanly at any time",
     """On SIGTERM, SIGINT or SIGHUP at any moment - idle, under load, with stalled or half-open connections, with
     orphans and timers pending - the daemon stops promptly, closes every client connection and every server socket
     exactly once and exits with status 0. A failure to start, such as an address in use, ends with a non-zero status
     and without leaving sockets open.""",
     ["crash_points", "schedules"],
     "All points in any history at which a signal may arrive, and start-up failures at every socket.",
     "No stable test starts the daemon.",
     ["paf/daemon.py", "paf/eventloop.py", "paf/server.py"],
     [("signal wake-up", "paf/eventloop.py:EventLoop.check_signal"), ("teardown", "paf/server.py:Server.terminate")],
     [], ["CLOSE events, exit status, real processes"])

prop("P25", "Track queries are answered one for one, in both directions",
     """In a track transaction every query of the client is answered by exactly one reply, in order; the server has
     at most one query of its own outstanding at a time, and accepts exactly one reply to it: a reply without an
     outstanding query, an unknown track type, or an inform in any other transaction is a protocol violation that
     closes that connection only. A connection has at most one track transaction (a second one fails as
     `track-exists`), and the latency listed for a client is the time its last answered query took.""",
     ["histories", "schedules", "inputs"],
     "All interleavings of client queries, server queries, replies, delays and repeated track requests.",
     NOXCM,
     ["paf/server.py"],
     [("track", "paf/server.py:Connection.track_request, track_inform, track_query")],
     [("track_query_ts", "time of the outstanding query", "paf/server.py:Connection")],
     ["track notifications and closes at the transport boundary"])

prop("P26", "The command line client relays commands and results faithfully",
     """Each command entered in the command line client results in exactly the corresponding request with the
     identifiers (hexadecimal), generation, TTL, properties (integers as integers, quoted integers as strings) and
     filter the user typed, and prints the server's answer: every listed service, client or subscription with its
     values, every notification of a subscription, `OK.` on success or the fail reason. Malformed commands produce a
     message and no request, and neither they nor refused requests end the session.""",
     ["inputs", "histories"],
     "All command lines, property and filter texts, and server answers.",
     "No test runs the command line client.",
     ["app/pafc", "paf/client.py", "paf/props.py"],
     [("command parsing", "app/pafc:PafCli"), ("output", "app/pafc:Worker, MatchPrinter")],
     [], ["requests as seen by the server and standard output of the program"])

prop("P27", "The transport binding is memory-safe and passes data through unchanged",
     """Every call into the transport library uses only live handles and buffers at least as large as announced,
     every handle and attribute map obtained is released exactly once and never used afterwards, also when calls
     fail, and non-blocking users are never blocked. Messages of every size up to the maximum pass through unchanged
     in both directions, attributes of every type are set and read with their exact values, and every failing call is
     reported to the caller with the library's error code (an invalid readiness condition as an invalid argument).""",
     ["inputs", "fault_sequences"],
     "All message sizes and contents, attribute types and values, and failures injected at every library call.",
     "The library is absent where the stable tests run, so the binding is never executed by them.",
     ["paf/xcm.py"],
     [("foreign function declarations", "paf/xcm.py"), ("attribute maps", "paf/xcm.py:_attr_map_create"),
      ("sockets", "paf/xcm.py:Socket and subclasses")],
     [("Socket.xcm_socket", "library handle", "paf/xcm.py:Socket")],
     ["library calls with arguments (instrumented library), AddressSanitizer"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
