#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
A = "akasa-core/src/"
M = A + "protocols/mqtt/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

prop("C01", "Acknowledged QoS 1/2 messages reach persistent subscribers",
 "Once the broker has acknowledged a QoS 1 or QoS 2 publish, every session whose matching subscription (at QoS 1 or 2) was acknowledged before the publish and that has not ended receives the message at least once (QoS 1) or exactly once (QoS 2), whatever connection losses, reconnects, takeovers and retransmissions happen to the publisher or the subscriber. It is conditional only on the subscriber eventually staying connected and on the documented limits (queue bound, message expiry, packet size) not being exceeded.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of the connection tasks, all byte positions at which a connection can be lost, all sequences of reconnects with and without takeover",
 "The tests use one polling order, lossless in-memory pipes and at most one reconnect; the loss window lies between an acknowledgement and the asynchronous hand-over to the other session's queue.",
 [M+"online_loop.rs", M+"pending.rs", M+"v3/message.rs", M+"v5/message.rs", M+"v3/packet/publish.rs", M+"v5/packet/publish.rs"],
 [("pending queue with resend on reconnect", M+"pending.rs"), ("broadcast queue drained by the publisher's loop", M+"online_loop.rs"), ("session hand-over on takeover", M+"v5/packet/connect.rs session_connect")],
 [("pending_packets", "messages sent or to be sent but not completed", M+"v5/session.rs"), ("broadcast_packets", "accepted publishes not yet handed to the receiver", M+"v5/session.rs")],
 ["bytes received by simulated subscribers over the whole run"])

prop("C02", "A retried QoS 2 publish is routed exactly once and always completes",
 "However often a publisher retransmits PUBLISH (with DUP) or PUBREL of one QoS 2 exchange, over however many connections of the same persistent session, the message is routed to subscribers exactly once, and every PUBLISH is answered with PUBREC and every PUBREL with PUBCOMP without the connection being dropped. A message whose first copy never reached the broker is routed when the retransmission arrives.",
 ["schedules", "fault_sequences", "histories"],
 "all points at which a connection is lost during the four-packet exchange, all retransmission sequences",
 "The tests send each handshake packet once in order on one healthy connection; loss of the original, of PUBREC or of PUBCOMP is never produced.",
 [M+"v3/packet/publish.rs", M+"v5/packet/publish.rs", M+"v3/message.rs", M+"v5/message.rs"],
 [("received packet-identifier table", M+"v5/packet/publish.rs handle_publish/handle_pubrel")],
 [("qos2_pids", "identifiers of QoS 2 publishes received but not released", M+"v5/session.rs")],
 ["packets on the publisher's connection", "deliveries at an observer"])

prop("C03", "Per-publisher, per-topic message order is preserved",
 "For any publisher, topic and QoS, a subscriber whose session holds one non-shared subscription receives the first transmissions of the publisher's messages in the order in which the publisher sent them, across batching, backpressure, reconnects and redelivery; redelivered messages keep their original order too.",
 ["schedules", "fault_sequences", "histories"],
 "all schedules of publisher and subscriber tasks, all backpressure patterns and reconnects",
 "Order is only checked for a few messages on an idle broker with unbounded-looking pipes; reordering needs full channels, in-flight limits or a reconnect in the middle of a stream.",
 [M+"online_loop.rs", M+"pending.rs", M+"v3/message.rs", M+"v5/message.rs"],
 [("FIFO broadcast queues and channels", M+"online_loop.rs"), ("ordered pending queue", M+"pending.rs")],
 (), ["sequence numbers carried in payloads at subscribers"])

prop("C04", "Sessions live exactly as long as negotiated",
 "A client that reconnects without asking for a clean session gets session-present and finds its subscriptions and undelivered messages intact if and only if it has an unexpired persistent session; a clean start, a non-persistent disconnect or expiry discards subscriptions and queued messages completely and reports session-present false. The session expiry interval counts from the moment the connection ended, can be changed at disconnect (v5), and a reconnect before it elapses cancels it.",
 ["schedules", "fault_sequences", "histories"],
 "all orders of disconnect, expiry timer, reconnect and clean start; all expiry values; delays of timer tasks",
 "Tests check single transitions with real sleeps; races between the expiry timer and a reconnect, or stale subscriptions left in the routing table after a clean start, need particular interleavings.",
 [M+"v5/packet/connect.rs", M+"v3/packet/connect.rs", M+"v5/message.rs", M+"v3/message.rs", A+"state.rs"],
 [("expiry timer task", M+"v5/message.rs handle_connection"), ("session hand-over or reset", M+"v5/packet/connect.rs session_connect"), ("route cleanup", A+"state.rs remove_client")],
 (), ["CONNACK session-present flag", "deliveries after reconnect", "clients_count"])

prop("C05", "Takeover leaves exactly one live connection and never locks an id out",
 "When a client connects with an identifier that is already connected, the new connection is accepted and the old one is closed, so that after quiescence exactly one connection of that identifier is served; nothing that belonged to the old connection (timers included) closes the new one. After any connection attempt of an identifier, failed or successful, in any protocol version and at whatever point it failed, a later well-formed connect with that identifier is accepted.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of concurrent connects with the same identifier, all points where the new or the old connection fails, both protocol versions, slow hooks",
 "The tests do one takeover on healthy connections; lock-out needs a connection loss or hook error between registration and the first served packet.",
 [A+"state.rs", M+"online_loop.rs", M+"v5/packet/connect.rs", M+"v3/packet/connect.rs", M+"common.rs"],
 [("client registration and takeover control message", A+"state.rs add_client"), ("state transfer to the new connection", M+"online_loop.rs")],
 [("client_id_map / clients", "who owns an identifier", A+"state.rs")],
 ["CONNACK / closure seen by simulated clients"])

prop("C06", "Online and session counters equal the real number of connections",
 "Whenever the system is quiescent, the reported number of online clients equals the number of connections being served and the reported number of clients equals the number of existing sessions, after any history of connects, takeovers, clean starts, expiries, failed handshakes and connection losses.",
 ["schedules", "fault_sequences", "histories"],
 "all connection histories and interleavings",
 "Tests look at the counters after a handful of fixed steps; a leak needs a failure in a specific window or a takeover across protocol versions.",
 [A+"state.rs", M+"v5/message.rs", M+"v3/message.rs"],
 [("counter updates at registration, offline and removal", A+"state.rs add_client/offline_client/remove_client")],
 [("online_clients", "number of online clients", A+"state.rs")],
 ["GlobalState::online_clients_count / clients_count (also exported as metrics)"])

prop("C07", "Retained messages: last write per topic, delivered on subscribe",
 "For every topic the broker keeps exactly the payload of the last retained publish it processed (none after an empty one), and a new subscription is sent exactly one message for each topic that matches its filter and holds a retained message at that time, subject to the subscription's retain-handling option; its retain flag is set, except in a v5 subscription without the retain-as-published option. This holds under concurrent retained publishes, clears and subscriptions.",
 ["schedules", "histories", "inputs"],
 "all interleavings of concurrent retained publishes, deletes and subscribes over overlapping topics and wildcard filters",
 "Tests run fixed sequences from one thread; the retain tree is shared by all connections and locked node by node.",
 [M+"retain.rs", M+"v5/packet/subscribe.rs", M+"v3/packet/subscribe.rs", M+"v5/packet/publish.rs", M+"v3/packet/publish.rs"],
 [("retain tree", M+"retain.rs")],
 [("RetainTable", "topic tree of retained messages", M+"retain.rs")],
 ["PUBLISH packets with retain flag after SUBACK"])

prop("C08", "Routing is exact: a message goes to matching subscriptions only",
 "A published message is delivered to every session that holds, throughout the publish, a subscription whose filter matches the topic under the MQTT wildcard and '$'-topic rules, with QoS the minimum of publish and granted QoS, and to no session whose matching subscriptions were all removed before it or made after it. Concurrent subscribe, unsubscribe, disconnect and publish by other clients never make a subscription lose, duplicate or misroute messages.",
 ["schedules", "histories", "inputs"],
 "all interleavings (down to lock granularity) of subscribe, unsubscribe, publish and session end over overlapping filters",
 "Route-table tests are single-threaded; the tree is pruned and re-created under hand-over-hand locks while publishers walk it.",
 [M+"route.rs", M+"v5/packet/subscribe.rs", M+"v3/packet/subscribe.rs", M+"v5/packet/publish.rs", M+"v3/packet/publish.rs"],
 [("route tree with per-node locks", M+"route.rs")],
 [("RouteTable", "topic filter tree", M+"route.rs")],
 ["deliveries at simulated subscribers compared with a set-based reference model"])

prop("C09", "Shared subscriptions deliver each message to exactly one member",
 "Each message that matches a shared subscription is assigned to exactly one of the sessions that are members of the group at that time and delivered to it: never to several, never to a former member, and never to none while the group has members, whatever joins, leaves, session ends and connection losses happen before or meanwhile. (A member that unsubscribes, or whose session ends, before it has received a message assigned to it may take that message along.)",
 ["schedules", "histories", "fault_sequences"],
 "all histories of joins and leaves (including re-joins) interleaved with publishes",
 "Tests have fixed membership; index bookkeeping errors appear only after particular leave/re-join sequences.",
 [M+"route.rs", M+"v5/packet/publish.rs", M+"v5/packet/subscribe.rs", A+"state.rs"],
 [("indexed member list", M+"route.rs SharedClients"), ("member selection modes", M+"v5/packet/publish.rs send_publish")],
 [("SharedClients", "members of one group", M+"route.rs")],
 ["deliveries summed over the group's members"])

prop("C10", "Wills are published exactly when they must be",
 "If a connection with a will ends in any way other than a normal DISCONNECT (connection loss, keep-alive timeout, protocol error, DISCONNECT with another reason, takeover by a newer connection of the same client), the will is published exactly once with its QoS, retain flag and payload; after a normal DISCONNECT it is never published. In v5 publication waits for the will delay (or the session's end, whichever is first; a clean start ends the session) and is cancelled if a connection continues the session before that.",
 ["schedules", "fault_sequences", "histories"],
 "all ways and instants at which a connection can end, all orders of delay timer, session expiry and reconnect",
 "Tests cover one closed pipe and one DISCONNECT; timer races and abnormal ends in the middle of other work are not produced.",
 [M+"v5/message.rs", M+"v3/message.rs", M+"common.rs", M+"v5/packet/common.rs"],
 [("will handling at connection end", M+"v5/message.rs handle_will"), ("delayed will task", M+"v5/message.rs")],
 (), ["deliveries at a will observer"])

prop("C11", "Keep-alive closes dead connections in time and never live ones",
 "A connection with keep-alive K on which no packet arrives is closed by the broker no earlier than 1.5*K and within a bounded time after it, while a client that sends some packet at least every K seconds is never closed for inactivity (unless its packets are held back because it does not read what it is sent (or too slowly), by a slow hook, or by a subscriber that does not read), in whatever order earlier connections of the same client ended and however timers are delayed. In v5 the K announced by the server's CONNACK is the one enforced.",
 ["schedules", "fault_sequences", "configurations"],
 "all keep-alive values and server bounds, all packet timings, reconnect histories, wall-clock jumps",
 "Tests use one or two real-time seconds of silence on a first connection.",
 [M+"common.rs", M+"v5/packet/connect.rs", M+"v3/packet/connect.rs", M+"v5/packet/common.rs"],
 [("keep-alive timer task", M+"common.rs start_keep_alive_timer"), ("last packet timestamp", M+"v5/session.rs")],
 [("last_packet_time", "arrival of the last packet", M+"v5/session.rs")],
 ["virtual time of connection closure at the client"])

prop("C12", "Every connection that does not finish its handshake is dropped in time",
 "A peer that connects on any listener (plain, TLS, WebSocket, PROXY-prefixed) and does not complete a successful CONNECT is disconnected within the connect time-out plus a small bound, whatever prefix of the handshake it sent and however slowly, and leaves no registered client, counter or task behind. A peer that completes the handshake in time is never cut by that time-out afterwards.",
 ["schedules", "fault_sequences", "inputs"],
 "all prefixes and pacings of every handshake stage, on every transport",
 "One test stalls before CONNECT on a plain pipe; the stages of TLS, WebSocket, PROXY and enhanced authentication are not stalled.",
 [A+"server/mod.rs", A+"server/proxy.rs", M+"v5/message.rs", M+"v3/message.rs"],
 [("connect time-out channel", A+"server/mod.rs handle_accept")],
 (), ["virtual time of closure", "GlobalState counters after closure"])

prop("C13", "Packets are independent of how the byte stream is split",
 "However the transport splits, delays or coalesces reads and writes (down to single bytes, with writes accepted partially or not at all for a while), on plain, TLS and WebSocket connections, the broker acts on exactly the packets the client sent, in order, and the bytes it emits parse as exactly the packets it meant to send, none torn, lost, duplicated or interleaved.",
 ["schedules", "fault_sequences", "inputs"],
 "all segmentations of both byte streams, all patterns of partial and pending writes and WebSocket framings",
 "Test pipes accept whole writes and deliver whole packets.",
 [M+"online_loop.rs", A+"server/mod.rs", M+"v5/packet/common.rs", M+"v3/packet/common.rs"],
 [("resumable packet decoder and write queue", M+"online_loop.rs"), ("WebSocket byte-stream adapter", A+"server/mod.rs WebSocketWrapper")],
 (), ["server byte stream decoded by simulated clients and compared with expected packets"])

prop("C14", "A misbehaving connection only ends itself",
 "Whatever bytes a peer sends (malformed packets, packets illegal in the current state, truncated or hostile handshakes), the broker does not panic or hang: it closes at most that connection, and all other clients keep being served with their sessions, subscriptions and messages unaffected.",
 ["inputs", "fault_sequences", "schedules"],
 "all byte strings at all points of the conversation, concurrently with other clients' traffic",
 "Tests send a few well-chosen protocol errors on an otherwise idle broker.",
 [M+"online_loop.rs", M+"v5/message.rs", M+"v3/message.rs", A+"server/mod.rs", A+"server/proxy.rs"],
 [("decode error handling", M+"online_loop.rs handle_decode_error"), ("per-packet protocol checks", M+"v5/packet/publish.rs")],
 (), ["panics in server tasks", "closure of the bad connection", "service of bystanders"])

prop("C15", "Negotiated v5 limits are respected in both directions",
 "The broker never has more unacknowledged QoS>0 publishes outstanding to a client than the client's receive maximum, never sends a packet larger than the client's maximum packet size or a topic alias above its maximum, and still delivers every message within those limits; a client that exceeds the limits announced to it in CONNACK (packet size, receive maximum for QoS 2, topic alias maximum, maximum QoS) is disconnected with the matching reason, what it sent beyond the limit has no effect, and a client within them is never disconnected for them. Where retained messages are switched off, no client gets one. Topic aliases resolve to the topic they were last bound to on the same connection only.",
 ["histories", "schedules", "configurations"],
 "all limit values, acknowledgement delays and orders, alias histories across reconnects",
 "Tests set one limit at a time and a couple of messages; in-flight windows with out-of-order acknowledgements and reconnects are not covered.",
 [M+"pending.rs", M+"v5/message.rs", M+"v5/packet/publish.rs", M+"v5/packet/connect.rs"],
 [("in-flight window", M+"pending.rs"), ("limit checks", M+"v5/packet/publish.rs")],
 (), ["packets at the client's socket, its count of unacknowledged publishes"])

prop("C16", "Expired messages are not delivered, unexpired ones are",
 "A v5 message whose expiry interval has fully elapsed while queued is never delivered afterwards, one whose interval has not elapsed is delivered with the interval reduced by the time it waited, and neither steps of the system clock nor reconnects make the broker fail or drop messages without an expiry interval.",
 ["schedules", "histories", "fault_sequences"],
 "all waiting times, expiry values, reconnect times and clock steps",
 "No test lets a queued message age; the wall clock is never stepped.",
 [M+"pending.rs", M+"v5/message.rs"],
 [("expiry check when taking from the pending queue", M+"pending.rs"), ("interval adjustment", M+"v5/message.rs handle_pendings")],
 (), ["deliveries and their expiry property, in virtual time"])

prop("C17", "Only authenticated clients are served",
 "With authentication enabled, a connection is accepted if and only if it presented a valid user name and password and, when it asks for enhanced authentication, also completed a valid SCRAM exchange on that same connection; any wrong, missing, tampered, replayed, reordered or truncated credential or exchange is refused, with the code that fits the reason, and a refused connection has no effect on sessions, subscriptions, retained messages or counters and disturbs nobody else.",
 ["inputs", "fault_sequences", "schedules"],
 "all credential tamperings and exchange orders, concurrent authentications of several clients, re-authentication at any time",
 "Tests run the happy path and one wrong password; tampering with individual exchange messages, interleaved exchanges and mid-exchange loss are not covered.",
 [M+"auth.rs", M+"v5/packet/connect.rs", M+"v3/packet/connect.rs", A+"protocols/scram/server.rs", M+"v5/message.rs"],
 [("password check", M+"auth.rs"), ("SCRAM stages", M+"v5/packet/connect.rs")],
 (), ["CONNACK/AUTH/DISCONNECT codes", "GlobalState after refusal"])

prop("C18", "SCRAM succeeds exactly for untampered exchanges with the right secret",
 "Between the SCRAM client and server, an exchange over a channel that may corrupt, drop, duplicate, reorder or replay messages completes on both sides if and only if the client used the password the server's record was derived from and every message arrived as sent; otherwise at least the affected side fails, neither panics, and any user name or authorization identity that can be encoded arrives unchanged.",
 ["inputs", "fault_sequences", "histories"],
 "all user names, passwords, salts, iteration counts, nonces and single or multiple message faults",
 "Tests run one fixed exchange and a few malformed strings.",
 [A+"protocols/scram/server.rs", A+"protocols/scram/client.rs", A+"protocols/scram/mod.rs"],
 [("proof and signature verification", A+"protocols/scram/server.rs decode_client_final")],
 (), ["results of the exchange steps on both sides"])

prop("C19", "PROXY headers are parsed the same however the bytes arrive",
 "For any byte stream and any segmentation, stall or end of it, reading a PROXY v2 header returns either exactly the addresses, protocol and TLS information it encodes while consuming exactly the header's bytes, or an error; it never panics, never reads past the header and never waits for bytes beyond it. A connection whose header is malformed or truncated is refused.",
 ["inputs", "schedules", "fault_sequences"],
 "all headers and TLVs, all segmentations and truncation points, trailing data",
 "The five existing tests feed whole, mostly valid headers from a slice.",
 [A+"server/proxy.rs", A+"server/mod.rs"],
 [("header parser", A+"server/proxy.rs parse_header"), ("use in accept path", A+"server/mod.rs handle_accept")],
 (), ["parse result and number of bytes consumed from a fault-injecting reader"])

prop("C20", "Hook decisions are enforced, hook failures are contained",
 "Every connect, publish, subscribe and unsubscribe for which the matching hook is enabled passes through it before it takes effect, a rejected one has no effect beyond its error acknowledgement, edits made by a hook are what takes effect, and requested actions (publish, subscribe, unsubscribe, retain changes) are applied exactly once. A hook that is slow or fails delays or ends only its own connection, and packets of one connection that wait for hooks one after another delay what else concerns that client (deliveries, a takeover) by no more than one hook. When enabled, the after-connect hook runs exactly once per accepted connection and the after-disconnect hook exactly once when it ends, unless the after-connect hook failed.",
 ["schedules", "fault_sequences", "configurations"],
 "all enable flags, hook delays, hook errors, and connection losses or takeovers while a hook runs",
 "The hook used in tests completes immediately and never fails.",
 [A+"hook.rs", M+"online_loop.rs", M+"v5/message.rs", M+"v3/message.rs", M+"v5/packet/connect.rs", M+"v3/packet/connect.rs"],
 [("hook requests resumed by the connection loop", A+"hook.rs handle_request"), ("enable flags", A+"config.rs HookConfig")],
 (), ["calls recorded by a simulated hook", "effects at clients"])

prop("C21", "Listeners recover from network errors and stay independent",
 "When binding or accepting fails on a listener (address in use, no file descriptors, aborted connection), the broker retries without spinning and serves connections again within a few seconds after the cause is gone, and meanwhile all other configured MQTT listeners and all established connections are unaffected. A peer that stops or misbehaves within its TLS, WebSocket or PROXY handshake does not keep its listener from serving others.",
 ["fault_sequences", "schedules", "configurations"],
 "all sequences of bind and accept errors over all listener combinations",
 "No test starts a listener.",
 [A+"server/rt.rs"],
 [("listener loop with retry", A+"server/rt.rs listen/start")],
 (), ["connects by simulated clients through the simulated socket layer"])

prop("C22", "Password store round-trips and fails closed under I/O faults",
 "What dumping a password store writes without an error reads back as the same store whatever short reads and writes the medium makes; a read or write error is reported, and truncated or malformed content gives an error or only entries of the dumped store, so no faulty file makes a wrong password acceptable.",
 ["fault_sequences", "inputs", "crash_points"],
 "all positions of I/O errors, truncations, short transfers and flipped bytes",
 "No test touches the password file code with a failing medium.",
 [M+"auth.rs"],
 [("dump_passwords / load_passwords", M+"auth.rs")],
 (), ["result of load over a fault-injecting reader and of authentication with it"])

prop("C23", "The broker never deadlocks and serves again once faults stop",
 "Whatever overload, stalled readers, simultaneous disconnects, takeovers and hook delays occurred, no set of broker tasks waits for each other forever: within a bounded time after faults stop, every connected client's PINGREQ is answered, every new connect is accepted, every publish to a healthy subscriber is delivered, and tasks of ended connections finish. A stalled subscriber never blocks clients that send nothing to it, and never prevents others from being served once it is gone.",
 ["schedules", "fault_sequences", "histories"],
 "all schedules (down to lock granularity), full channels, stalled peers",
 "A deadlock needs full bounded channels in a cycle at the moment connections end; tests never fill a channel.",
 [M+"online_loop.rs", M+"v5/message.rs", M+"v3/message.rs", A+"state.rs", A+"config.rs"],
 [("bounded channels with polling sinks", M+"online_loop.rs"), ("final draining", M+"online_loop.rs")],
 (), ["bounded progress of probe clients", "tasks still alive after all clients left"])

prop("C24", "Queued messages per session stay bounded, those kept are delivered in order",
 "While a subscriber is offline or stalled, the number of messages the broker keeps for it never exceeds the configured bound; when the bound is exceeded only as many messages as necessary are lost, and those that survive are delivered in order without corruption or duplication.",
 ["histories", "schedules", "configurations"],
 "all bounds, message rates, offline periods and partially acknowledged in-flight windows",
 "One pending test exceeds a limit once.",
 [M+"pending.rs", M+"v5/message.rs", M+"v3/message.rs", A+"config.rs"],
 [("bounded pending queue", M+"pending.rs")],
 (), ["messages received after the subscriber returns"])

prop("C25", "Configuration validation accepts exactly the valid configurations",
 "A configuration is accepted at start-up if and only if every field is within its documented range and its options are consistent.",
 ["inputs", "configurations"],
 "all configuration values",
 "Pure function of its input; no schedule, clock or fault takes part.",
 [A+"config.rs"],
 [("is_valid", A+"config.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    # at most three sentences
print(len(P), "properties")
