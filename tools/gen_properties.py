#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one-off source of the property list; kept so the list is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

NET = "the UDP socket opened by New (replaced by a simulated network under the verif build tag)"

prop("C01", "Messages arrive exactly once, in order, unmodified",
 "On an established channel the peer's reader receives exactly the messages that were sent on the other end, each once, with identical bytes and in the order they were sent, whatever the network loses, duplicates, delays or reorders. While the channel lives nothing that was sent is missing once the network has been working for a while; if the channel ends early, what was received is a prefix of what was sent.",
 ["inputs", "fault_sequences", "schedules", "histories"],
 "for all message sequences in both directions and all patterns of datagram loss, duplication, delay and reordering",
 "TestPacketSend and TestSplitPacket run over loss-free, in-order loopback and only count messages or compare one payload; no test drops, duplicates or reorders a real datagram.",
 ["tru.go", "channel.go", "receive_queue.go", "send_queue.go", "split.go", "packet.go"],
 [("receive ordering by expected id", "tru.go serve()"), ("out-of-order queue", "receive_queue.go"), ("retransmission", "send_queue.go retransmit()"), ("id distance", "packet.go distance()")],
 [("expectedID", "id of the next packet to hand to the reader", "channel.go Channel"), ("sendQueue", "packets sent and not yet acknowledged", "send_queue.go"), ("recvQueue", "packets that arrived ahead of order", "receive_queue.go")],
 ["ReaderFunc callbacks", "Channel.WriteTo"], NET)

prop("C02", "Message size is transparent",
 "A message of any length, from empty to many times the packet limit, sent under any configured maximum packet length on either side, arrives as one message with the same bytes, however many packets it takes, under the number WriteTo returned. No datagram put on the network carries more than the configured maximum of message bytes, nor more than an IPv4 UDP datagram can carry.",
 ["inputs", "configurations"],
 "for all message lengths and contents, all maximum packet lengths, both directions, with packets of one message lost or reordered",
 "TestSplitPacket checks one 512 KiB and one 1 KiB message at one packet limit; the default limit, the cipher-size boundaries and exact multiples of the limit are never sent.",
 ["split.go", "packet.go", "crypt.go", "tru.go"],
 [("split on send", "split.go splitPacket()"), ("combine on receive", "split.go combinePacket.packet()"), ("limit", "packet.go MaxDataLen(), tru.go SetMaxDataLen()")],
 [("maxDataLen", "packet payload limit copied to each channel", "channel.go Channel")],
 ["ReaderFunc callbacks", "datagrams on the wire"], NET)

prop("C03", "Unacknowledged data is retransmitted until acknowledged",
 "A data packet the peer has not acknowledged is sent again and again, never sooner than about 30 ms and never later than about 3 seconds after its previous transmission, always with the same identity and content, until it is acknowledged or the channel ends; only after more than 100 fruitless retransmissions of one packet is the channel given up. A packet that has been acknowledged is never sent again, and an acknowledgement affects only the packet it names.",
 ["fault_sequences", "schedules", "histories"],
 "for all sequences and timings of acknowledgements (missing, late, repeated, out of order, for unknown packets)",
 "No test withholds an acknowledgement; loopback never needs a retransmission, so the retransmit path is not exercised at all.",
 ["send_queue.go", "channel.go", "tru.go", "packet.go"],
 [("retransmit timer", "send_queue.go retransmit()"), ("retransmit time", "channel.go setRetransmitTime()"), ("ack handling", "tru.go serve() statusAck")],
 [("retransmitTime", "earliest time of the next transmission", "packet.go Packet"), ("retransmitAttempts", "retransmissions so far", "packet.go Packet")],
 ["datagrams on the wire", "ErrChannelDestroyed"], NET)

prop("C04", "A delivery callback reports exactly one true outcome",
 "A message sent with a delivery callback produces exactly one call of it. It reports success only after the remote peer has acknowledged having received the message's final packet, and an error only if the given (or the default 5 second) timeout passed without that acknowledgement, at that timeout; this holds whether or not the channel is closed or destroyed meanwhile.",
 ["fault_sequences", "schedules", "histories"],
 "for all timings of acknowledgement, loss, timeout value and channel end",
 "TestPacketDelivery checks one success and one timeout and does not wait to see whether the callback is called a second time.",
 ["packet.go", "tru.go", "channel.go"],
 [("timeout timer", "packet.go SetDelivery()"), ("ack handling", "tru.go serve() statusAck")],
 [("delivery", "callback of the packet", "packet.go Packet"), ("deliveryTimer", "its timeout", "packet.go Packet")],
 ["PacketDeliveryFunc callbacks"], NET)

prop("C05", "Packet numbers wrap around without a seam",
 "Everything promised for a channel keeps holding when its packet numbers run past 1048575 and start again at 0, in either direction and with packets lost, duplicated or reordered across the wrap. No packet number is used for a new packet out of sequence.",
 ["histories", "fault_sequences", "inputs"],
 "for all histories long enough to wrap and all fault patterns around the wrap",
 "Tests send at most 10000 packets; TestDistance prints distances and asserts nothing.",
 ["channel.go", "packet.go", "tru.go", "receive_queue.go"],
 [("next id", "channel.go newID()"), ("next expected id", "channel.go newExpectedID()"), ("distance", "packet.go distance()")],
 [("id", "next packet number", "channel.go Channel"), ("expectedID", "next expected number", "channel.go Channel")],
 ["datagrams on the wire", "ReaderFunc callbacks"], NET)

prop("C06", "Connecting ends in a working channel or an error",
 "Every call to connect returns within about 5 seconds: either with a channel on which both sides can at once exchange messages, or with an error, in which case neither side is left with a lasting channel. This holds when handshake datagrams are lost, delayed, duplicated or reordered, when many peers connect at the same time, and when a peer connects again; handshake duplicates never disturb an established channel.",
 ["fault_sequences", "schedules", "histories"],
 "for all fault patterns on handshake datagrams and all numbers and timings of connecting peers",
 "Tests connect one pair over loss-free loopback; no handshake datagram is ever lost, late or repeated.",
 ["connect.go", "tru.go", "channel.go", "crypt.go"],
 [("client wait", "connect.go Connect(), wait()"), ("handshake steps", "connect.go serve()"), ("reconnect", "tru.go serve()")],
 [("connects", "handshakes in progress by uuid", "connect.go connect"), ("channels", "channels by peer address", "tru.go Tru")],
 ["Connect result", "connect callback", "ForEachChannel"], NET)

prop("C07", "Live peers stay connected, dead peers are detected",
 "A channel whose peer is reachable stays up indefinitely even if the application sends nothing, and is never dropped while datagrams from the peer keep arriving within 6 seconds of each other. When nothing at all arrives from the peer for more than 6 seconds the channel is destroyed, within about another half second, and the readers are told exactly once.",
 ["fault_sequences", "schedules", "histories"],
 "for all idle periods, blackout start times and lengths, and ping losses",
 "Tests finish within seconds and never idle or black out a channel, so the activity timer never decides anything.",
 ["statistic.go", "channel.go", "tru.go"],
 [("activity check", "statistic.go checkActivity()"), ("ping and pong", "channel.go newChannel(), tru.go serve()")],
 [("lastActivity", "time of the last datagram from the peer", "statistic.go statistic")],
 ["ErrChannelDestroyed", "datagrams on the wire"], NET)

prop("C08", "Channel teardown is prompt, final and announced once",
 "When either side closes a channel, both sides' readers are told exactly once that the channel is destroyed, the remote one as soon as the disconnect datagram arrives; from then on the channel reports itself destroyed, refuses writes with an error, delivers no more messages and is no longer listed. Closing again is harmless, also from inside callbacks and at the same instant as timers or the remote close, and the same two peers can connect again immediately and use the new channel undisturbed by the old one.",
 ["histories", "schedules", "fault_sequences"],
 "for all interleavings of local close, remote close, inactivity, retransmission give-up, writes and reconnects",
 "Tests only defer Close at their end and check nothing afterwards.",
 ["channel.go", "tru.go", "statistic.go", "send_queue.go"],
 [("destroy", "channel.go destroy()"), ("close", "channel.go Close()"), ("timers stopped", "statistic.go destroy(), send_queue.go destroy()")],
 [("destroyed", "channel is finished", "statistic.go statistic"), ("channels", "channels by peer address", "tru.go Tru")],
 ["ErrChannelDestroyed", "Channel.Destroyed", "ForEachChannel"], NET)

prop("C09", "Channels are independent and correctly attributed",
 "A node may hold channels with any number of peers, and every message, error and delivery outcome is attributed to the channel of the peer it belongs to, with that peer's address and role. A message goes first to the channel's own reader and to the node's reader only if there is no channel reader or it did not mark the message processed. Losing, closing or flooding one channel neither disturbs the traffic nor ends the life of another.",
 ["histories", "fault_sequences", "configurations"],
 "for all numbers of peers, reader configurations, interleavings of traffic and per-peer faults",
 "Every test uses exactly one channel per node and one reader.",
 ["tru.go", "channel.go"],
 [("lookup by address", "channel.go getChannel()"), ("reader precedence", "tru.go readerProccess()")],
 [("channels", "channels by peer address", "tru.go Tru"), ("reader", "reader of channel or node", "channel.go, tru.go")],
 ["ReaderFunc callbacks", "ForEachChannel", "Statistic"], NET)

prop("C10", "No datagram can crash, hang or corrupt a node",
 "Whatever bytes arrive from whatever address, at whatever stage of a handshake or session, the node keeps running and keeps serving. Datagrams from strangers or with undefined content never reach message readers and never disturb channels with other peers, and afterwards the node still exchanges messages on its existing channels and accepts new ones.",
 ["inputs", "histories", "fault_sequences"],
 "for all datagram contents (random, truncated, mutated, protocol-shaped) from peers and strangers in all protocol states",
 "No test feeds a malformed or unexpected datagram to a node.",
 ["tru.go", "connect.go", "packet.go", "crypt.go"],
 [("packet parsing", "packet.go UnmarshalBinary(), connect.go UnmarshalBinary()"), ("status dispatch", "tru.go serve(), connect.go serve()"), ("decryption of foreign data", "crypt.go")],
 [("channels", "channels by peer address", "tru.go Tru")],
 ["process survival", "ReaderFunc callbacks", "Connect"], NET)

prop("C11", "Application data is encrypted and tampering is not delivered",
 "After the handshake no message content and no session key ever appears in clear on the network, equal messages of a peer look different in different packets and on different connections, and data is neither accepted nor sent before the session key is agreed. A message packet of more than 64 bytes whose number or content is altered in transit (but not cut down to 64 bytes or less) is discarded without acknowledgement, and the original is still delivered intact by retransmission.",
 ["inputs", "fault_sequences", "histories"],
 "for all message contents and lengths, all positions and kinds of alteration, and all handshake stages",
 "No test looks at a datagram or alters one.",
 ["crypt.go", "connect.go", "tru.go", "channel.go"],
 [("packet encryption", "crypt.go encryptPacketData(), decryptPacketData()"), ("session key exchange", "connect.go serve()")],
 [("sessionKey", "key of the channel", "crypt.go crypt")],
 ["datagrams on the wire", "ReaderFunc callbacks"], NET)

prop("C12", "The TRU v5 wire format is stable",
 "A node interoperates, as client and as server, with an independent implementation of the TRU v5 protocol: packet header, handshake, key exchange, per-packet encryption, acknowledgements, ping, disconnect and message splitting. Encoding and decoding a packet are inverse for every number below 2^20, every status and every payload, lengths are reported consistently, and input shorter than a header is rejected.",
 ["inputs", "histories", "configurations"],
 "for all packets, message sizes (across every cipher-size class) and both roles",
 "TestPacStatusID round-trips two headers; both ends of every test are the same build, so a change made alike to both ends goes unseen.",
 ["packet.go", "connect.go", "crypt.go", "split.go", "tru.go"],
 [("packet codec", "packet.go MarshalBinary(), UnmarshalBinary()"), ("handshake codec", "connect.go connectPacketData"), ("packet cipher", "crypt.go packetKey()")],
 [], ["Packet API", "datagrams on the wire"], NET)

prop("C13", "Statistics tell the truth",
 "The statistics of a node list exactly its live channels, sorted by peer address, and every counter (messages sent and received, retransmissions, acknowledgements accepted and dropped, duplicate data dropped, queue lengths, retransmit attempt, trip time, rates) equals what actually happened on that channel. The printed table has one row per channel showing those values, a totals row holding the column sums when there is more than one, and as many lines as announced.",
 ["histories", "fault_sequences", "inputs"],
 "for all histories of traffic and faults, and all statistics values",
 "TestReceiveQueue checks the drop counter for one fixed sequence; the other counters and the table are only printed.",
 ["statistic.go", "tru.go", "channel.go", "send_queue.go", "receive_queue.go", "speed.go"],
 [("counters", "statistic.go"), ("snapshot", "statistic.go Statistic()"), ("table", "statistic.go String(), NumRows()"), ("rates", "speed.go")],
 [("statistic", "counters of a channel", "statistic.go statistic")],
 ["Tru.Statistic", "ChannelsStatistic.String", "Channel.Triptime"], NET)

prop("C14", "net.Listener and net.Conn behave as documented",
 "Every established inbound connection is accepted exactly once; on a connection each write arrives as one message, readable through buffers of any size as its exact bytes followed by end-of-file, in order, in both directions, starting with the very first message. Addresses are those of the endpoints; closing either end unblocks pending reads with an error and fails later reads (what had arrived before the peer closed can still be read first) and writes on both, closing twice is an error and not a crash, and closing a listener unblocks Accept with an error and frees the port for a new listener.",
 ["inputs", "histories", "schedules"],
 "for all message sizes, read buffer sizes, numbers of connections, and orders of accept, read, write and close",
 "No test uses Listen, Dial, Accept or Conn.",
 ["tru_net.go"],
 [("Read framing", "tru_net.go Conn.Read()"), ("accept queue", "tru_net.go connected(), Accept()"), ("close", "tru_net.go Conn.Close(), Trunet.Close()")],
 [("connRead", "rest of the current message and pending EOF", "tru_net.go"), ("truCommon", "shared node", "tru_net.go")],
 ["net.Conn and net.Listener methods"], NET)

prop("C15", "Concurrent senders do not corrupt each other",
 "Any number of goroutines may send at the same time, on one channel or on many, in both directions, messages of any size. Every message arrives intact and exactly once, and the messages of each goroutine arrive in the order it sent them.",
 ["schedules", "inputs", "fault_sequences"],
 "for all numbers of concurrent senders, message sizes, packet limits, and thread interleavings, with datagram loss",
 "Every test sends from a single goroutine.",
 ["channel.go", "split.go", "send_queue.go", "tru_net.go"],
 [("id allocation", "channel.go newID()"), ("fragment order", "split.go splitPacket()"), ("send queue lock", "send_queue.go")],
 [("id", "next packet number", "channel.go Channel")],
 ["ReaderFunc callbacks", "Channel.WriteTo", "Conn.Write"], NET)

prop("C16", "Concurrent use of the API is free of data races",
 "Using nodes, channels and connections from several goroutines at once (sending, receiving, delivery callbacks, closing, reconnecting, statistics, enumerating channels) involves no unsynchronised memory access, no concurrent map access and no deadlock.",
 ["schedules", "histories"],
 "for all combinations of concurrently executed API operations and the node's own goroutines and timers",
 "The tests are not run with the race detector and use one goroutine per node.",
 ["tru.go", "channel.go", "statistic.go", "send_queue.go", "receive_queue.go", "packet.go", "crypt.go", "connect.go", "tru_net.go"],
 [("mutexes", "all types embedding sync.RWMutex")],
 [("channels", "channels by peer address", "tru.go Tru"), ("statistic", "counters of a channel", "statistic.go")],
 ["Go race detector", "process survival"], None)

prop("C17", "Callbacks may use the API",
 "Inside the reader, connect, delivery and punch callbacks an application may call any operation: send, close, connect elsewhere, read statistics, enumerate channels. No such call deadlocks or crashes the node, and each has its normal effect; in particular a server may send to a client from the moment it is told of the connection.",
 ["programs", "histories", "schedules"],
 "for all assignments of API operations to callbacks and all traffic that triggers them",
 "The only callback that does anything in the tests echoes a message from a reader.",
 ["tru.go", "channel.go", "connect.go", "packet.go"],
 [("connect callback", "channel.go newChannel()"), ("reader dispatch", "tru.go readerProccess()"), ("error dispatch", "channel.go destroy()")],
 [], ["ReaderFunc, ConnectFunc, PacketDeliveryFunc, PunchFunc"], NET)

prop("C18", "Punch datagrams reach only the punch callback, intact",
 "A punch datagram sent to an address invokes that node's punch callback once per datagram received, with the exact bytes sent and the sender's address. It never reaches message readers, never creates, keeps alive or disturbs a channel or a handshake under way, and is harmless where no punch callback is set; the returned address is the one addressed.",
 ["inputs", "histories"],
 "for all payloads, addresses (string or address value), presence or absence of channel and callback",
 "No test uses punch packets.",
 ["channel.go", "tru.go"],
 [("send", "channel.go WriteToPunch()"), ("dispatch", "tru.go serve() statusPunch")],
 [("punchcb", "callback", "tru.go Tru")], ["PunchFunc"], NET)

prop("C19", "Logger shows exactly the selected levels and filters",
 "A log line is written if and only if its level is at or above the current level in the order Error, User, Info, Connect, Debug, Debugv, Debugvv, Debugvvv and, when a filter is set, it contains at least one of the filter's alternatives. Level names parse case-insensitively, whatever space surrounds them, and round-trip, the name all means the last level, switching steps through all levels cyclically, unknown names mean none, and clearing the filter shows everything again.",
 ["inputs", "histories"],
 "for all sequences of level, filter and flag changes interleaved with log calls of all levels",
 "TestTeolog prints six lines and asserts nothing.",
 ["teolog/teolog.go"],
 [("level selection", "teolog.go SetLevel()"), ("filter", "teolog.go Logfilter(), writer.Write()")],
 [("level", "current level", "teolog.go"), ("filter", "alternatives", "teolog.go")], ["standard output"], None)

prop("C20", "Hotkey menu runs exactly the action of the pressed key",
 "For every menu and every sequence of key presses, each press runs exactly the action most recently registered for that key, or the unknown-key action if there is none; a next-key action runs once, before the key's own action, and stopping the menu runs every stop action and ends it. The help text lists every registered entry exactly once, sorted by its first key, with all its keys and its description.",
 ["inputs", "histories"],
 "for all menus (keys given as string, bytes, lists, named codes) and all key sequences",
 "The hotkey package has no tests.",
 ["hotkey/hotkey.go", "term/term.go"],
 [("registration", "hotkey.go Add()"), ("dispatch", "hotkey.go run()"), ("help", "hotkey.go String()")],
 [("hotkeys", "actions by key code", "hotkey.go Hotkey")], ["action callbacks", "Hotkey.String"], None)

prop("C21", "Reading a key returns its bytes and restores the terminal",
 "Reading one key from a terminal returns exactly the bytes the key sent (up to three), without echo and without waiting for a newline, control keys included, and leaves every terminal attribute as it was. Saved terminal state restores exactly, terminals are told from non-terminals, sizes are reported as set, and cursor and scroll-region sequences carry the given coordinates.",
 ["inputs", "configurations"],
 "for all key byte sequences, initial terminal attributes, window sizes and coordinates",
 "The term examples have no expected output, so nothing is compared.",
 ["term/term.go", "term/term_unix.go"],
 [("raw read", "term.go Getch()"), ("attributes", "term_unix.go makeNonBlock(), restoreState()")],
 [], ["Getch result", "termios of a pseudo terminal"], None)

prop("C22", "Closing a node releases everything it held",
 "After a node is closed its reader has been told exactly once that the node is closed, every channel's readers exactly once that it is destroyed, and every peer is told to disconnect. No goroutine, timer or port of the node remains in use: it sends no further datagram, makes no further callback except pending delivery timeouts, and its port can be bound again at once; closing it again is harmless.",
 ["histories", "schedules"],
 "for all node histories and states at the time of the close, including open handshakes, unacknowledged data and blocked readers",
 "Tests only defer Close and then exit.",
 ["tru.go", "channel.go", "statistic.go", "send_queue.go", "speed.go"],
 [("close", "tru.go Close(), stopListen()"), ("process loops", "tru.go readerProccess(), senderProccess(), listen()")],
 [("listenStop", "node is closed", "tru.go Tru")], ["goroutines", "datagrams on the wire", "ErrTruClosed"], NET)

prop("C23", "The receiver acknowledges exactly what it keeps",
 "For every sequence of data packets arriving on a channel, each genuine packet (new, early or repeated) is answered by one acknowledgement carrying its number (unless more than 1000 messages already wait for a blocked reader), and the reader receives the maximal in-order run of complete messages that the packets received so far allow, immediately. An acknowledged packet is never lost: it is delivered as soon as its predecessors have arrived, no matter how far ahead of order or how often it came.",
 ["histories", "inputs"],
 "for all arrival orders, gaps, repetitions and message splits, compared step by step with a reference receiver",
 "TestReceiveQueue checks one order of six packets, without messages or acknowledgements.",
 ["tru.go", "receive_queue.go", "split.go", "packet.go"],
 [("acknowledge", "channel.go writeToAck()"), ("queue", "receive_queue.go process()"), ("distance", "packet.go distance()")],
 [("expectedID", "next id to deliver", "channel.go Channel"), ("recvQueue", "early packets", "receive_queue.go")],
 ["datagrams on the wire", "ReaderFunc callbacks"], NET)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
