#!/usr/bin/env python3
"""Source of properties.jsonl (kept as python so that it is easy to edit); writes ../properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

T = "The existing tests drive a handful of fixed scripts; "

p("P01", "Topic filters match exactly as MQTT prescribes",
  "A message published on a topic is delivered to a subscription if and only if the subscription's filter matches the topic: '+' matches exactly one level (also an empty one), a final '#' matches the parent level and everything below it, all other levels match literally. Filters that begin with a wildcard never match topics that begin with '$'. Malformed filters are refused and never match anything.",
  ["inputs"], "every pair of topic and filter, with any set of other filters subscribed at the same time",
  T + "matching is decided by a tree walk whose outcome depends on the set of all filters present, of which tests sample a few dozen.",
  ["subscriptionstore.cpp", "utils.cpp"],
  [("publishRecursively", "subscriptionstore.cpp"), ("deepestNode/subscription tree", "subscriptionstore.cpp"), ("isValidSubscribePath", "utils.cpp")])

p("P02", "QoS 1 messages reach every persistent subscriber at least once",
  "A QoS 1 message that the broker acknowledged to its publisher stays owed to every session with a matching QoS>0 subscription, connected or not, until that session's client acknowledges it, the message expires, or the session ends, provided neither the configured queue limits nor the client's receive maximum were reached when it was published or when the session was resumed. On every reconnect that resumes the session, all still-owed messages are sent again with the same content, effective QoS and packet identifier, flagged as duplicates when they had been sent before (as far as known since the broker's last start). An acknowledged message is never sent again.",
  ["histories", "schedules"], "every history of publishes, acknowledgements, disconnects and reconnects",
  T + "loss shows only for particular interleavings of acknowledgement, disconnection and reconnection.",
  ["session.cpp", "qospacketqueue.cpp", "client.cpp", "mqttpacket.cpp"],
  [("writePacket / sendAllPendingQosData / clearQosMessage", "session.cpp"), ("QoSPublishQueue", "qospacketqueue.cpp"), ("handlePubAck", "mqttpacket.cpp")])

p("P03", "QoS 2 messages are taken in and handed out exactly once",
  "A QoS 2 publish with a given packet identifier is routed once, however often the publisher repeats it (also after a reconnect that resumes the session) until the publisher releases the identifier; every repeat is acknowledged. Towards a subscriber a QoS 2 message is not sent as a publish again once its PUBREC arrived; from then on only the release is repeated on each resume, until the subscriber's PUBCOMP. A new message after the release of an identifier is routed again.",
  ["histories", "schedules"], "every history of QoS 2 handshake steps, repeats, disconnects and reconnects in both directions",
  T + "the handshake has many crossing points with reconnects that tests do not enumerate.",
  ["session.cpp", "qospacketqueue.cpp", "mqttpacket.cpp"],
  [("incoming QoS2 ids", "session.cpp"), ("handlePubRec/Rel/Comp", "mqttpacket.cpp"), ("sendAllPendingQosData", "session.cpp")])

p("P04", "In-flight messages respect flow control and have unique packet ids",
  "At no moment does a connection have more unacknowledged QoS>0 messages sent to it than the receive maximum its client announced (and than the configured limit), and no two messages outstanding towards one session share a packet identifier; identifiers are never zero. Every final acknowledgement (PUBACK, PUBCOMP, or PUBREC with an error) of an outstanding message returns exactly one slot, so flow neither stalls below the limit nor exceeds it, whatever stray or repeated acknowledgements the client sends.",
  ["histories", "inputs"], "every history of deliveries and acknowledgements, including stray and repeated ones, and every receive maximum",
  T + "slot leaks and identifier clashes need specific sequences of acknowledgements.",
  ["session.cpp", "usedids.cpp", "qospacketqueue.cpp"],
  [("flow control quota", "session.cpp"), ("UsedIds", "usedids.cpp")])

p("P05", "Messages keep their publication order per publisher and subscription",
  "For one publisher and one subscription, messages of the same QoS arrive in the order in which they were published, whether the subscriber was connected or received them from its queue on reconnect. Queued messages are sent before messages that are published after the reconnect, and re-sent messages keep their original relative order.",
  ["histories", "schedules"], "every history of publishes at mixed QoS with disconnects and reconnects of publisher and subscriber",
  T + "order is only checked on short happy paths.",
  ["session.cpp", "qospacketqueue.cpp", "client.cpp"],
  [("QoSPublishQueue order list", "qospacketqueue.cpp"), ("sendAllPendingQosData", "session.cpp")])

p("P06", "Sessions resume exactly when they should, and completely",
  "A connection gets 'session present' if and only if a session for its client id exists, has not ended, and the client did not ask for a clean start; it then has the same subscriptions and pending messages as before. A clean start (or a first connect) begins with no subscriptions and no pending messages, also when the previous session was still connected. A session that lasts only as long as its connection (clean session, or expiry interval 0) is gone once that connection ends: it receives nothing more and is never resumed.",
  ["histories"], "every history of connects (all protocol versions and flag combinations), disconnects and takeovers",
  T + "the combinations of protocol version, clean flag and expiry over successive connections of one id are not enumerated.",
  ["subscriptionstore.cpp", "session.cpp", "mqttpacket.cpp", "client.cpp"],
  [("registerClientAndKickExistingOne", "subscriptionstore.cpp"), ("destroyOnDisconnect", "session.cpp")])

p("P07", "Offline sessions live for their expiry interval and no shorter",
  "A disconnected session can be resumed with everything it had until its expiry interval, counted from its latest disconnection, has passed, and it ends at most one cleanup period after that. The interval is the one last requested (on connect, or on disconnect), capped by the configured maximum, which is announced to the client; a session that is connected never expires.",
  ["histories", "schedules"], "every history of connects, disconnects and expiry intervals over time",
  T + "expiry depends on timers measured over repeated disconnects, which tests hardly exercise.",
  ["subscriptionstore.cpp", "session.cpp", "threaddata.cpp"],
  [("queueSessionRemoval / removeExpiredSessionsClients", "subscriptionstore.cpp"), ("setSessionExpiryInterval", "session.cpp")])

p("P08", "One client id has one live connection, and only its owner can take it",
  "At most one connection is live per client id: when a client connects with an id that is in use, the earlier connection is closed (told 'session taken over' when it speaks MQTT 5) and gets no further messages, and the new connection continues the session. A connection with a different username than that of the existing session is refused and leaves the existing connection and session untouched.",
  ["schedules", "histories"], "every sequence and timing of connects with the same client id, usernames included",
  T + "takeover touches two connections at once, possibly owned by different threads.",
  ["subscriptionstore.cpp", "client.cpp", "session.cpp"],
  [("registerClientAndKickExistingOne", "subscriptionstore.cpp"), ("assignActiveConnection", "session.cpp")])

p("P09", "Last wills are published exactly when, and only when, they are due",
  "The will a client left at connect is published exactly once if its connection ends without a normal disconnect (error, keepalive, takeover, disconnect-with-will), after the will delay but no later than the end of the session, with the topic, payload, QoS, retain flag and properties given. It is not published after a normal disconnect, nor when the client resumes its session before the delay has passed. The will of a newer connection is never affected by the end of an older one.",
  ["histories", "schedules"], "every history of connects with wills and delays, and of the ways in which connections end",
  T + "wills depend on the way a connection ends and on timers running across reconnects.",
  ["client.cpp", "subscriptionstore.cpp", "session.cpp", "threaddata.cpp"],
  [("queueOrSendWillMessage / sendQueuedWillMessages", "subscriptionstore.cpp"), ("willPublish handling", "client.cpp")])

p("P10", "A topic's retained message is the last one that was set",
  "For every topic the broker keeps exactly the latest message published with the retain flag, and none after a retained message with empty payload; a new subscription receives the retained message of every topic that its filter matches, once, with the retain flag set and the publisher's payload and properties, at the lower of the message's and the subscription's QoS. Topics that begin with '$' retain nothing for clients, and deliveries for which the session's queue has no room may come later or not at all.",
  ["histories", "inputs"], "every history of retained publishes and clears over any set of topics, and every filter",
  T + "retained lookup is a separate tree walk from routing, with its own wildcard handling.",
  ["subscriptionstore.cpp", "retainedmessage.cpp"],
  [("setRetainedMessage / giveClientRetainedMessages", "subscriptionstore.cpp")])

p("P11", "Retained messages obey the subscription's retain options",
  "Retain handling 0 sends retained messages at every subscribe, 1 only when the subscription did not exist, 2 never; shared subscriptions never trigger them. Messages routed because of a live publish carry the retain flag only for subscriptions that asked to keep it as published; all messages from the retained store carry it.",
  ["histories", "inputs"], "every combination of subscribe options, subscription history and publishes",
  T + "the option combinations over re-subscriptions are not enumerated.",
  ["subscriptionstore.cpp", "mqttpacket.cpp", "session.cpp"],
  [("handleSubscribe", "mqttpacket.cpp"), ("addSubscription", "subscriptionstore.cpp")])

p("P12", "The configured retained-message mode and limits are enforced",
  "With retained messages set to be downgraded, a retained publish is delivered as a normal message and nothing is stored; set to drop, it is neither stored nor delivered; set to disconnect, the publisher is disconnected and nothing is delivered; in all these modes no retained message is ever sent.",
  ["configurations", "inputs"], "every retained-message mode and every retained publish, will messages included",
  T + "modes are tested with single publishes only.",
  ["mqttpacket.cpp", "subscriptionstore.cpp", "client.cpp"],
  [("handlePublish retained mode", "mqttpacket.cpp")])

p("P13", "A shared subscription delivers each message to exactly one member",
  "Each message matching a shared subscription is given to exactly one current member of each share group, whichever members joined, left, disconnected or expired before; different share names are independent and shared and normal subscriptions do not influence each other. A member that unsubscribed or whose session ended never receives through the group.",
  ["histories"], "every history of joins, leaves, disconnects and publishes",
  T + "member slots are reused and re-indexed over time, which fixed scripts do not reach.",
  ["subscriptionstore.cpp", "sharedsubscribers.cpp"],
  [("SharedSubscribers", "sharedsubscribers.cpp"), ("publishNonRecursively", "subscriptionstore.cpp")])

p("P14", "Expired messages are never delivered, and remaining lifetime is passed on",
  "A message with an expiry interval is not delivered once that interval has passed since it was published, whether it waited in a session's queue or in the retained store; before that it is delivered with the expiry interval reduced by the time it waited. The configured maximum caps a message's lifetime.",
  ["histories", "inputs"], "every history of publishes with expiry, waiting times, reconnects and subscribes",
  T + "expiry needs controlled time.",
  ["publishcopyfactory.cpp", "qospacketqueue.cpp", "retainedmessage.cpp", "types.cpp"],
  [("hasExpired", "types.cpp"), ("clearExpiredMessages", "qospacketqueue.cpp")])

p("P15", "Nobody does anything before being authenticated and admitted",
  "A connection whose credentials are not accepted by the configured policy (password file, anonymous access setting) gets a refusal and is closed, and nothing it sent has any effect: no publish, subscription, session, takeover or will. A user listed in the password file is admitted only with the right password; anonymous and unknown users only when the configuration allows it.",
  ["inputs", "configurations"], "every combination of credentials, policy and pipelined packets, in all protocol versions",
  T + "pipelined packets behind a refused connect and combinations of policy are not tried.",
  ["mqttpacket.cpp", "plugin.cpp", "client.cpp", "threaddata.cpp"],
  [("handleConnect", "mqttpacket.cpp"), ("unPwdCheck", "plugin.cpp")])

p("P16", "The access control list decides every publish and delivery",
  "With an ACL file, a publish is routed (and a retained message stored or will sent) only if the publishing user may write the topic, and a message is delivered to a client only if its user may read the topic; other messages flow unhindered. A rule applies to the user it is listed under, to anonymous clients, or as a pattern with the client's own user name or id filled in; matching deny rules override grants; without a matching grant access is refused.",
  ["inputs", "configurations"], "every ACL file, user, client id and topic",
  T + "rule combinations and overlap of deny, wildcard and pattern rules are sampled only.",
  ["acltree.cpp", "plugin.cpp", "client.cpp", "session.cpp"],
  [("AclTree::findPermission", "acltree.cpp"), ("aclCheck", "plugin.cpp")])

p("P17", "Subscriptions are added, replaced and removed exactly as requested",
  "Every subscribe is answered with one code per filter in order, granting the requested QoS or less according to configuration or an error, and takes effect for exactly the granted filters; subscribing again to the same filter replaces its options without duplicating deliveries. After an unsubscribe (answered per filter) nothing is delivered through that filter, other filters being unaffected. No-local subscriptions do not return the client's own messages, and deliveries carry the subscription identifier of the subscription that matched.",
  ["histories", "inputs"], "every sequence of subscribe and unsubscribe packets with several filters and options, interleaved with publishes",
  T + "multi-filter packets with repeated filters and mixed validity are not enumerated.",
  ["mqttpacket.cpp", "subscriptionstore.cpp", "session.cpp"],
  [("handleSubscribe / handleUnsubscribe", "mqttpacket.cpp"), ("addSubscription / removeSubscription", "subscriptionstore.cpp")])

p("P18", "Topic aliases always stand for the topic last assigned to them",
  "A publish that carries only a topic alias is routed on the topic this connection last assigned to that alias; an alias beyond the announced maximum, or never assigned on this connection, is a protocol error that ends the connection without routing. Aliases the broker uses towards a client stay within the client's announced maximum, are introduced with their topic before they are used alone on that same connection, and always mean the topic of the message.",
  ["histories", "inputs"], "every sequence of publishes with aliases in both directions, with reconnects",
  T + "aliases are connection state crossing with queueing, drops and reconnects.",
  ["client.cpp", "mqttpacket.cpp", "publishcopyfactory.cpp"],
  [("topic alias tables", "client.cpp"), ("getOptimumPacket", "publishcopyfactory.cpp")])

p("P19", "A graceful restart preserves all durable state",
  "After a normal stop and start with a storage directory, every session that had not ended resumes with its subscriptions and options, its queued and in-flight messages with their QoS, content, properties and packet identifiers, and its QoS 2 handshake state; retained messages are as before, and delayed wills still pending are still sent. Session expiry, message expiry and will delay keep counting across the stop.",
  ["histories", "crash_points"], "every reachable broker state at the moment of stopping, and every down time",
  T + "round-trip tests save a few hand-built objects and never run through a real restart.",
  ["sessionsandsubscriptionsdb.cpp", "retainedmessagesdb.cpp", "persistencefile.cpp", "subscriptionstore.cpp", "mainapp.cpp"],
  [("saveData/readData", "sessionsandsubscriptionsdb.cpp"), ("saveState", "mainapp.cpp")])

p("P20", "A crash or damaged file never yields half-written persistent state",
  "Whatever the moment at which the process or machine stops while state is being saved, the next start finds, for each kind of state, either the complete previous save or the complete new one. A save that fails, because the disk is full for instance, leaves the previous one in place and the broker running. A state file whose content (all that follows the version mark it begins with) was damaged is recognised, set aside and never loaded in part.",
  ["crash_points", "fault_sequences"], "every point of the sequence of file operations of a save at which the process may stop or an operation may fail, and every damaged byte or truncation",
  T + "no test stops the server in the middle of a save.",
  ["persistencefile.cpp", "retainedmessagesdb.cpp", "sessionsandsubscriptionsdb.cpp", "mainapp.cpp"],
  [("PersistenceFile::openWrite/closeFile", "persistencefile.cpp"), ("hash verification", "persistencefile.cpp")])

p("P21", "The meaning of a byte stream does not depend on how it is cut up",
  "For a valid stream of packets, the broker's behaviour is the same however the bytes are split or coalesced in transit, over plain TCP, unix sockets or websockets (with any websocket framing, masking, fragmentation and interleaved control frames). Large packets and large bursts are carried through unchanged.",
  ["inputs", "schedules"], "every segmentation and websocket framing of every packet sequence",
  T + "only a few cuts are tried.",
  ["client.cpp", "cirbuf.cpp", "mqttpacket.cpp", "iowrapper.cpp", "http.cpp"],
  [("bufferToMqttPackets", "mqttpacket.cpp"), ("CirBuf", "cirbuf.cpp"), ("websocket framing", "iowrapper.cpp")])

p("P22", "Protocol violations end only the offender, without side effects",
  "A connection that sends a malformed packet or breaks the protocol (second CONNECT, reserved bits, invalid QoS, zero packet id, wildcard or empty publish topic, invalid UTF-8, bad lengths or properties) is closed, and the offending packet has no effect on subscriptions, retained messages or other clients; MQTT 5 clients get a reason. Whatever a connection sends before its connect is accepted has no effect. Other connections go on undisturbed.",
  ["inputs"], "every malformed packet in every connection state",
  T + "malformations are sampled one at a time on fresh connections.",
  ["mqttpacket.cpp", "threadloop.cpp", "client.cpp", "utils.cpp"],
  [("packet parsers", "mqttpacket.cpp"), ("ProtocolError handling", "threadloop.cpp")])

p("P23", "Silent clients are dropped after their keepalive, live ones never",
  "A client that stays silent for more than one and a half times its keepalive interval is disconnected, no later than two check periods after that, with its will published; a client that sends any packet within its interval, or has keepalive 0, is never dropped for inactivity (MQTT 5 clients that ask for less than five seconds are told to use five). A connection that stays silent without completing its connect is dropped within a bounded time.",
  ["histories", "schedules"], "every sequence of packet times and keepalive values",
  T + "keepalive needs controlled time.",
  ["client.cpp", "threaddata.cpp"],
  [("doKeepAliveCheck / queueClientNextKeepAliveCheck", "threaddata.cpp"), ("keepAliveExpired", "client.cpp")])

p("P24", "Packet size limits are honoured in both directions",
  "The broker never sends a client a packet larger than the maximum that client announced: such messages are skipped for that client as if they had been delivered, later ones still arrive, and flow control is unaffected. A client that sends a packet larger than the configured maximum, or than the smaller limit for unauthenticated connections, is disconnected without the packet having any effect.",
  ["inputs", "configurations"], "every packet size around the limits, for every packet type and QoS",
  T + "limits interact with queueing and properties added on the way.",
  ["client.cpp", "session.cpp", "mqttpacket.cpp"],
  [("maxOutgoingPacketSize", "client.cpp"), ("PacketDropReason::BiggerThanPacketLimit", "client.cpp"), ("bufferToMqttPackets", "mqttpacket.cpp")])

p("P25", "Bridges forward what is configured, once, and without loops",
  "A bridge forwards exactly the local messages matching its publish filters to the remote broker and exactly the remote messages matching its subscribe filters to local subscribers, with prefixes removed and added as configured, keeping payload, QoS up to the configured maximum and, if set, the retain flag. Messages are not returned over the bridge they came from, and forwarding resumes after a lost connection, including QoS>0 messages published while it was away.",
  ["configurations", "histories"], "every bridge configuration (filters, prefixes, QoS, versions), message and connection loss",
  T + "bridges are tested with a few fixed topologies.",
  ["bridgeconfig.cpp", "client.cpp", "threaddata.cpp", "session.cpp", "mqttpacket.cpp"],
  [("bridge connect and subscribe", "threaddata.cpp"), ("prefix rewriting", "session.cpp")])

p("P26", "Reloading configuration is all or nothing",
  "On a reload request a valid configuration takes effect for subsequent activity without disturbing connected clients, and an invalid one changes nothing at all. Changed password and ACL files are picked up without restart, and a defective one does not open access.",
  ["configurations", "histories"], "every pair of old and new configuration and every point in a history of client activity",
  T + "reload is tested with few valid files.",
  ["mainapp.cpp", "configfileparser.cpp", "plugin.cpp", "threaddata.cpp"],
  [("reloadConfig", "mainapp.cpp"), ("loadMosquittoPasswordFile / ACL file", "plugin.cpp")])

p("P27", "An orderly stop says goodbye, delivers wills and keeps state",
  "When asked to terminate, the server stops accepting connections, publishes the wills of connected clients so that connected and persistent subscribers get them, tells MQTT 5 clients that it is shutting down, saves its state and exits within bounded time, whatever the clients are doing.",
  ["schedules", "histories"], "every set of connected clients and pending work at the time of the stop",
  T + "no test runs the shutdown sequence and looks at what clients receive.",
  ["mainapp.cpp", "threaddata.cpp"],
  [("queueQuit / sendAllDisconnects / sendAllWills", "mainapp.cpp, threaddata.cpp")])

p("P28", "Concurrent clients on several threads see one consistent history",
  "With any number of worker threads, the outcome of concurrent connects, publishes, subscribes, acknowledgements and takeovers equals that of some order in which these requests were handled one at a time, respecting each client's own order. In particular the first packet a client gets is the answer to its connect, no message is delivered twice through one subscription, and none is lost. (Whether a subscription made at the very moment a message is being retained sees that message live, as a retained one, both or neither is left open.)",
  ["schedules"], "every interleaving of worker threads",
  T + "races appear only under particular schedules.",
  ["threaddata.cpp", "subscriptionstore.cpp", "session.cpp", "client.cpp", "threadloop.cpp"],
  [("thread task queue", "queuedtasks.cpp"), ("locks on session and store", "session.cpp, subscriptionstore.cpp")])

p("P29", "Message content and properties pass through unchanged across versions",
  "A subscriber receives exactly the publisher's topic and payload bytes, and with MQTT 5 on both sides also its user properties (in order), content type, response topic, correlation data and payload format, whether delivered live, from a queue, after a restart, from the retained store, or as a will. Subscribers using older protocol versions receive the same message without properties, and properties that belong to one connection (topic alias, subscription identifier) never leak to another.",
  ["inputs", "histories"], "every message content and property combination, delivery path and pair of protocol versions",
  T + "each pair of path and versions is a separate code path copying packets.",
  ["publishcopyfactory.cpp", "mqttpacket.cpp", "mqtt5properties.cpp", "qospacketqueue.cpp", "types.cpp"],
  [("PublishCopyFactory", "publishcopyfactory.cpp"), ("Mqtt5PropertyBuilder", "mqtt5properties.cpp")])

p("P30", "Server topics belong to the server",
  "Messages that clients publish on topics beginning with '$' are never routed, retained or shown to anyone, though acknowledged; server status topics are seen only by subscriptions that name them explicitly. The status values published for connected clients, sessions and retained messages are their true counts.",
  ["inputs", "histories"], "every publish on a '$' topic and every subscription, at any point of a history",
  T + "only the presence of status topics is tested.",
  ["subscriptionstore.cpp", "mqttpacket.cpp", "threaddata.cpp"],
  [("rootDollar tree", "subscriptionstore.cpp"), ("publishStatsOnDollarTopic", "threaddata.cpp")])

p("P31", "Plugin verdicts are obeyed everywhere they are asked for",
  "A plugin's refusal of a login, publish, subscribe, delivery or will prevents exactly that action, and its acceptance allows it; refusing only to retain or to drop silently does just that. Logins it decides asynchronously have no effect until decided, and packets sent meanwhile are handled after acceptance in order, or dropped on refusal; extended authentication and re-authentication go as the plugin says at each turn. Changes a plugin makes to a message or subscription (topic, QoS, retain, properties) apply to what is routed, stored and delivered, messages it publishes itself are routed like any other, and errors inside the plugin count as refusal.",
  ["programs", "histories", "inputs"], "every plugin verdict for every operation and every timing of asynchronous results",
  T + "the plugin interface is exercised with a few verdicts only.",
  ["plugin.cpp", "mqttpacket.cpp", "client.cpp", "session.cpp", "threaddata.cpp", "flashmq_plugin.cpp"],
  [("Authentication::aclCheck / loginCheck / extendedAuth / alterPublish / alterSubscribe", "plugin.cpp"), ("ThreadData::continuationOfAuthentication", "threaddata.cpp")])

p("P32", "Slow readers do not harm others and lose no owed QoS messages",
  "When a client does not read its connection, other clients are served normally; once the client's pending output exceeds its limit only messages to that client are dropped, QoS>0 messages remain owed to its session within the queue limits, and what it does receive afterwards is a correct packet stream. The number and volume of messages queued per session never exceed the configured limits by more than one message.",
  ["schedules", "configurations"], "every pattern of reading and non-reading clients, message sizes and limits",
  T + "tests always read everything.",
  ["client.cpp", "session.cpp", "cirbuf.cpp", "qospacketqueue.cpp"],
  [("PacketDropReason::BufferFull", "client.cpp"), ("maxQosBytesPendingPerClient", "session.cpp")])

p("P33", "What the broker announces at connect is true and enforced",
  "The connect answer tells an MQTT 5 client every limit that differs from what the protocol assumes or the client asked for (maximum QoS, receive maximum, alias maximum, packet size, assigned client id, server keepalive, session expiry, availability of retain and shared or wildcard subscriptions), and the broker acts accordingly. Client ids the broker assigns are unique, and older clients get the return code and session-present flag their version defines.",
  ["inputs", "configurations"], "every connect packet in every protocol version under every configuration",
  T + "only single connects under default configuration are checked.",
  ["mqttpacket.cpp", "client.cpp", "settings.cpp"],
  [("handleConnect / ConnAck", "mqttpacket.cpp")])

p("P34", "Configured quality-of-service limits are enforced for every publisher",
  "A publish above the configured maximum QoS disconnects an MQTT 5 client with the matching reason, and for older clients leads to the configured action (disconnect, or acknowledge and drop) and is never routed; subscriptions are granted at most the maximum QoS, and wills above it refuse the connect or, with the drop action, are not registered. Publishes at or below the maximum are unaffected.",
  ["configurations", "inputs"], "every maximum QoS, exceed action, protocol version and publish",
  T + "the combinations are sampled only.",
  ["mqttpacket.cpp", "settings.cpp"],
  [("max_qos / mqtt3_qos_exceed_action", "mqttpacket.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
