#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P=[]
T="src/transport/tcp/protocol/"
Q="src/brokers/queue/"
S="src/brokers/stream/"
U="src/brokers/pub-sub/"
def p(id,title,stmt,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

# ---------------- transport
p("T01","Inbound framing is exact for every byte stream and every fragmentation",
 "Whatever bytes a client sends and however they are split into reads, the server recovers exactly the complete request frames that were sent, in order, with type byte, opcode byte, correlation id and payload unchanged. An incomplete frame yields nothing and consumes nothing, a complete frame consumes exactly its own bytes, and a frame announcing a payload larger than the configured maximum is refused.",
 ["inputs"],"all byte buffers, all payload lengths up to u32::MAX, all split points and buffered suffixes, all configured maxima",
 "The unit tests decode one hand-made frame, one short header and one truncated payload; they cannot range over lengths, split points and trailing bytes.",
 [T+"codec.rs",T+"frame.rs"],
 [("NexoCodec::decode",T+"codec.rs"),("FrameHeader::id / payload_len",T+"frame.rs")],
 ["decoded frames and the bytes left in the receive buffer"])
p("T02","Outbound frames are self-delimiting and carry exactly the response",
 "Every response or push message is written as one frame: type byte, status byte, 32-bit big-endian correlation id, 32-bit big-endian payload length and exactly that many payload bytes, appended after whatever is already queued without altering it. Decoding the written bytes gives back the same messages in the same order: the same kind and status, the same correlation id, the same data, and for an error the length-prefixed error text.",
 ["inputs"],"all response kinds, ids, payloads and error texts, all previously queued bytes",
 "One test round-trips a single data response; status kinds, error texts, pushes and appended sequences are never exercised exhaustively.",
 [T+"codec.rs",T+"frame.rs"],[("NexoCodec::encode",T+"codec.rs")],["bytes appended to the send buffer"])
p("T03","Request payload parsing is total, exact and bounds-safe",
 "For every payload byte string, reading a field (8-, 32- or 64-bit big-endian integer, 16-byte id, length-prefixed UTF-8 text, or the rest) returns exactly the value encoded at the current position and advances by exactly its encoded size, or fails with an error without panicking and without reading past the end. A field that does not fit in the remaining bytes, or text that is not UTF-8, is always an error.",
 ["inputs"],"all payload byte strings and all sequences of field reads",
 "Tests only send payloads produced by well-formed clients; truncated, oversized-length and invalid UTF-8 payloads are an unbounded space.",
 [T+"cursor.rs"],[("PayloadCursor::read_*",T+"cursor.rs")],["values returned by the cursor and the remaining length"])
p("T04","Every request opcode is decoded into exactly the fields the client sent",
 "For each request opcode of the four brokers, a payload laid out as documented is decoded into the operation that opcode names, with every field (names, ids, generation, sequence, limit, wait, options, body) bound to the value sent and none swapped, truncated or defaulted. An unknown opcode, or a payload too short for its opcode, is refused with an error response and has no effect on broker state.",
 ["inputs"],"all opcodes 0x00-0xFF and all payloads",
 "Integration tests use the manager API directly and never go through opcode decoding for most commands.",
 ["src/brokers/store/tcp.rs",Q+"tcp.rs",U+"tcp.rs",S+"tcp.rs","src/transport/tcp/dispatcher.rs"],
 [("StoreCommand/QueueCommand/PubSubCommand/StreamCommand::parse","src/brokers/*/tcp.rs"),("Dispatcher::dispatch","src/transport/tcp/dispatcher.rs")],["effect and response of each opcode"])
p("T05","Response bodies encode exactly the results returned by the brokers",
 "The body of every data response (queue batches, dead-letter listings, counts and flags, stream batches, publish and join results, pushed topic messages) is the documented layout of exactly the result: the element count equals the number of elements that follow, each with its own id or sequence, timestamp, attempts, reason and length-prefixed payload, in result order. A client that parses the layout recovers the result unchanged.",
 ["inputs"],"all result lists, payload sizes, ids and texts (below 4 GiB)",
 "No test parses the wire bodies; they are only read by the TypeScript client.",
 [Q+"tcp.rs",S+"tcp.rs",U+"domain/types.rs"],
 [("ToWire for ConsumeBatchResponse, PeekDlqResponse, BoolResponse, CountResponse, PublishResponse, FetchResponse, JoinGroupResponse",Q+"tcp.rs, "+S+"tcp.rs"),("PubSubMessage::get_network_packet",U+"domain/types.rs")],["response body bytes"])
p("T06","Every request gets exactly one response carrying its correlation id",
 "While a connection stays open, each request frame received on it is answered by exactly one response frame with the same correlation id, whatever the order in which concurrently running requests finish. A frame that is not a request is answered with an error response.",
 ["schedules","inputs"],"all interleavings of concurrent requests on one connection",
 "Tests never open two overlapping requests on one socket.",
 ["src/transport/tcp/connection.rs"],[("handle_connection request_set","src/transport/tcp/connection.rs")],["frames seen by a TCP client"])
# ---------------- store
p("K01","A key-value read returns the latest live write and nothing else",
 "Reading a key returns exactly the bytes of the latest completed write to that key unless it was deleted or its time-to-live has elapsed, and otherwise returns nothing; operations on one key never change another key. A write with a positive time-to-live expires after exactly that time, a write with none or zero uses the configured default, and no time-to-live value sent by a client can make the server fail the write.",
 ["inputs","histories"],"all keys, values, time-to-live values (full 64-bit range) and operation sequences",
 "Tests use a handful of keys and small TTLs; extreme TTLs and interleaved keys are not reachable by sampling.",
 ["src/brokers/store/domain/map.rs","src/brokers/store/tcp.rs"],
 [("MapStore::set/get/del","src/brokers/store/domain/map.rs")],["map get/set/del responses"],
 [("MapStore.inner","key -> value and expiry","src/brokers/store/domain/map.rs")])
# ---------------- queue
p("Q01","A queue never loses, duplicates or alters an accepted message",
 "From the moment a push is accepted until it is acknowledged, moved to the dead-letter queue or its queue is deleted, a message is in exactly one of the states waiting or in flight, is counted once, and keeps its id, payload, priority and creation time. No operation on one message (push, consume, ack, nack, timeout) changes the state, order or content of any other message.",
 ["histories","inputs"],"all operation histories on one queue, all priorities, payloads and ids",
 "Tests follow a few scripted histories; index/registry consistency must hold after every prefix of every history.",
 [Q+"domain/queue.rs"],
 [("QueueState::push/pop_single/take_batch/nack/transition_to/remove_from_index/process_expired/delete_message_and_return",Q+"domain/queue.rs")],["queue counters, listings and consumed messages"],
 [("registry / waiting_for_dispatch / waiting_for_ack","every registered id is indexed exactly once, in the index its state names",Q+"domain/queue.rs")])
p("Q02","Delivery follows priority, then arrival order",
 "A consume always takes the waiting message of highest priority, and among equal priorities the one that has been waiting longest (arrival order, a returned message going to the back). A batch is the result of repeating that choice, holds at most the requested number of messages, holds no message twice, and is shorter than requested only when nothing is left waiting.",
 ["histories","inputs"],"all queue contents, priorities 0-255, batch sizes",
 "Tests check two or three priorities with a few messages.",
 [Q+"domain/queue.rs"],[("pop_single, take_batch",Q+"domain/queue.rs")],["order of consumed messages"])
p("Q03","A delivered message is leased exclusively until ack, nack or timeout",
 "Once delivered, a message is not delivered to anyone again before it is nacked or its visibility timeout, counted from delivery, has elapsed; when the timeout elapses it is returned or dead-lettered, never earlier and never silently dropped. Acknowledging removes it for good; acknowledging or rejecting an unknown message fails and changes nothing.",
 ["histories","schedules","inputs"],"all histories and all clock readings at which expiry is processed",
 "Tests use one or two fixed timeouts; the boundary between expired and live must be right for every timestamp.",
 [Q+"domain/queue.rs",Q+"manager.rs"],
 [("pop_single, process_expired, ack, nack",Q+"domain/queue.rs")],["deliveries, ack/nack results"])
p("Q04","Attempts are counted once per delivery and bound retries exactly",
 "The attempt count of a message equals the number of times it has been delivered since it was pushed or replayed. When a delivery fails (nack or timeout) the message goes back to waiting if its attempts are below the configured maximum retries and otherwise leaves the queue and appears in the dead-letter queue exactly once, with its id, payload, priority, attempt count and creation time preserved and the failure reason recorded.",
 ["histories","inputs","configurations"],"all histories and all retry limits (0 to u32::MAX)",
 "Tests fix the retry limit to one or two values.",
 [Q+"domain/queue.rs",Q+"domain/dlq.rs",Q+"manager.rs"],
 [("nack, process_expired, pop_single",Q+"domain/queue.rs"),("DlqMessage::from_message",Q+"domain/dlq.rs")],["attempts on consumed messages, dead-letter listings"])
p("Q05","Dead-letter operations are exact: list, replay, delete, purge",
 "The dead-letter queue lists its messages newest failure first, the total always being the real number and a page being exactly the requested slice. Replaying moves exactly one message back to waiting with payload, id, priority and creation time preserved and attempts and reason cleared; deleting removes exactly one; purging removes all and reports how many; an unknown id changes nothing and reports failure.",
 ["histories","inputs"],"all dead-letter contents, offsets, limits and ids",
 "Tests exercise a few messages and one page.",
 [Q+"domain/dlq.rs",Q+"manager.rs"],
 [("DlqState::push/remove/peek/clear",Q+"domain/dlq.rs"),("move_to_queue/delete_dlq/purge_dlq",Q+"manager.rs")],["peek/move/delete/purge results"])
p("Q06","A queue restored from disk equals the queue that was flushed",
 "Applying the persisted record of every state change to the stored tables yields, at every point, the same waiting, in-flight and dead-letter messages (ids, payloads, priorities, attempts, creation times, lease deadlines) as in memory, so that a restart after a flush brings back exactly the unacknowledged messages: an acknowledged, deleted or purged message never comes back and no other message is missing. This holds for every interleaving of concurrent clients.",
 ["histories","crash_points","schedules"],"all operation histories, all restart points between flushes, all interleavings of concurrent operations",
 "Tests restart a queue after one or two scripted operations and never race two operations on one message.",
 [Q+"manager.rs",Q+"domain/persistence.rs"],
 [("store.execute(StorageOp) emitted with each state change",Q+"manager.rs"),("exec_op, load_all_messages, load_dlq_messages",Q+"domain/persistence.rs")],["queue contents after a restart"])
# ---------------- stream
p("L01","A stream is a gap-free, immutable, append-only log",
 "Publishing assigns consecutive sequence numbers starting at 1, each exactly once, and never changes or reorders messages already published. A read from a sequence number returns, up to the limit, the retained messages from that number (or from the first retained one) upwards in order, without gaps or duplicates and with the published payloads, no matter how much of the log is in memory.",
 ["inputs","histories"],"all publish/read/evict/trim histories, all start positions and limits",
 "Tests read a few hundred messages; window arithmetic must be right for every window position.",
 [S+"domain/topic.rs",S+"manager.rs"],
 [("TopicState::append/read/restore",S+"domain/topic.rs")],["publish results, read results"],
 [("log/ram_start_seq/next_seq/head_seq","contiguous in-memory window of the log",S+"domain/topic.rs")])
p("L02","Memory eviction drops only what is already on disk",
 "Evicting messages from memory removes only the oldest ones, only messages already persisted, and only while the in-memory window exceeds its limit; trimming to a new retention head removes exactly the messages below it. Neither changes the next sequence number, the remaining messages or their positions.",
 ["inputs","histories"],"all windows, persisted positions, limits and heads",
 "Tests set one limit and wait for the background task.",
 [S+"domain/topic.rs"],[("TopicState::evict/apply_head",S+"domain/topic.rs")],["messages readable after eviction"])
p("L03","A consumer group never skips a message",
 "Every message at or above the retention head is, for each group, either acknowledged, currently leased to a member, queued for redelivery, parked after its last allowed delivery, or still ahead of the group's delivery position; the committed floor only passes messages that are acknowledged, parked or trimmed, and (except by an explicit seek) never moves backwards. Delivery proceeds in sequence order and never delivers the same message to two members at once.",
 ["histories","inputs"],"all histories of fetch, ack, timeout, leave, trim and disk-backed fetch with any number of members",
 "Tests follow scripted single-consumer histories; the accounting must balance after every prefix of every history.",
 [S+"domain/group.rs"],
 [("fetch/register_cold_messages/ack/check_redelivery/release_seq/try_advance_floor/clamp_head",S+"domain/group.rs")],["fetched messages, committed floor, redeliveries"],
 [("ack_floor/next_deliver_seq/pending/redeliver/parked","partition of the delivered range",S+"domain/group.rs")])
p("L04","Only the current owner can acknowledge a stream message",
 "An acknowledgement succeeds only for a message currently leased to that very consumer, in the group's current generation, and then settles exactly that message; an acknowledgement or fetch by a non-member, by another member, or by a consumer from before a seek is refused and changes nothing but trimming. Leaving or disconnecting returns exactly that consumer's leased messages for redelivery and leaves every other member's leases untouched.",
 ["histories","inputs"],"all members, generations, sequence numbers and histories",
 "Tests cover one stale consumer and one wrong owner.",
 [S+"domain/group.rs",S+"manager.rs"],
 [("ensure_active_consumer, ack, remove_member, release_consumer",S+"domain/group.rs"),("leave_group, disconnect",S+"manager.rs")],["ack/fetch/leave results and redeliveries"])
p("L05","Leases, retries and backpressure of a group are exact",
 "A leased message is offered again only after its acknowledgement wait has elapsed or its owner has left, at most the configured number of deliveries in total, after which it is parked and never delivered again. A group never has more unacknowledged messages out than its configured maximum and a fetch never returns more than its limit.",
 ["histories","inputs","configurations"],"all limits, waits, delivery maxima and histories",
 "Tests use one configuration each; off-by-one errors appear only for particular limits.",
 [S+"domain/group.rs"],[("issue_delivery, release_seq, check_redelivery, fetch",S+"domain/group.rs")],["delivery counts, number of outstanding messages"])
p("L06","Seek and join position a group exactly",
 "A group created by a join starts at the first retained message; seeking to the beginning makes the next delivery the first retained message and seeking to the end makes it the next message to be published. A seek drops every outstanding lease and member of the group, so earlier consumers are refused, and affects no other group.",
 ["histories","inputs"],"all group states, retention heads and log lengths",
 "Tests seek on one or two small topics.",
 [S+"domain/group.rs",S+"manager.rs"],[("ConsumerGroup::new/seek_beginning/seek_end/reset_runtime",S+"domain/group.rs")],["first message fetched after join/seek"])
p("L07","The segment format round-trips and rejects damage",
 "Reading back a segment file returns exactly the messages written to it, in order, with sequence, timestamp and payload unchanged, for every payload including empty ones. For every truncation point and for any record whose checksum does not match, the reader returns the intact records before it and never a fabricated or altered message, and never panics.",
 ["inputs","crash_points"],"all message sequences, all truncation points, all corrupted records",
 "Tests only read files written completely by a clean shutdown.",
 [S+"domain/persistence.rs"],[("serialize_message, read_log_segment, load_segment_file",S+"domain/persistence.rs")],["messages recovered from a segment file"])
p("L08","After any crash the log continues without reusing or losing positions",
 "After a restart from any crash point, the recovered log is exactly the persisted prefix: every message that was on disk is readable at its own sequence number, and the next publish gets a number strictly above every recovered message and at the end of the newest segment, never one already used on disk. Messages published after the restart survive the next restart as well, and a group resumes at its saved position but never beyond the end of the recovered log.",
 ["crash_points","histories"],"all crash points (every byte length of the last segment, rotation boundaries, group file ahead of the log), repeated restarts",
 "Tests restart only after a clean flush.",
 [S+"domain/persistence.rs",S+"manager.rs",S+"domain/topic.rs"],
 [("recover_topic, find_segments",S+"domain/persistence.rs"),("TopicState::restore, ConsumerGroup::restore",S+"domain/topic.rs, "+S+"domain/group.rs")],["sequence numbers and messages after restart"])
p("L09","Saved group positions round-trip and survive interrupted saves",
 "Saving the positions of any set of groups and loading them back returns the same names and positions; a save is all-or-nothing, so a crash during a save leaves the previous positions, and a damaged entry never yields a position that was not saved.",
 ["inputs","crash_points"],"all group names (any UTF-8 text) and positions, all truncation points",
 "Tests save one or two short group names.",
 [S+"domain/persistence.rs"],[("save_groups_file, write_group_entry, load_groups_file",S+"domain/persistence.rs")],["group positions after restart"])
p("L10","Retention removes only the oldest whole segments and never the newest",
 "Applying retention deletes only segments that are older than the age limit or that must go, oldest first, to bring the total size under the size limit; it never deletes the newest segment, deletes nothing when no limit is set, and stops as soon as the size limit is met. Afterwards the reported first retained position is the first message of the oldest remaining segment.",
 ["inputs","configurations"],"all sets of segments, sizes, ages and limits",
 "Tests use one size limit with a few segments.",
 [S+"domain/persistence.rs"],[("StorageManager::apply_retention",S+"domain/persistence.rs")],["segment files remaining, reads after retention"])
p("L11","Appends reach disk in order, in exactly one segment each",
 "Every published message is written to disk exactly once, in sequence order, at the end of the newest segment; a new segment is started only when the current one is non-empty and would exceed the size limit, and is named after its first message. The position reported as persisted never exceeds what has been written and flushed, and a disk read returns the same messages as a memory read of the same range, across segment boundaries.",
 ["histories","inputs","schedules"],"all append sequences, segment sizes, open-file limits, read ranges, publisher interleavings",
 "Tests write a few segments with one publisher.",
 [S+"domain/persistence.rs",S+"manager.rs"],[("handle_append, get_or_open_writer, flush_all, cold_read",S+"domain/persistence.rs"),("publish",S+"manager.rs")],["segment files, disk reads"])
# ---------------- pubsub
p("P01","A message reaches exactly the subscribers whose pattern matches",
 "A publish is delivered exactly once to every connected client with at least one subscription matching the topic and to nobody else: a plain segment matches itself, '+' matches exactly one segment of any content, and '#' matches any number of remaining segments including none. This holds for every set of subscriptions, whatever order they were added in.",
 ["inputs","histories"],"all subscription sets, all topics (any depth, empty segments included)",
 "Tests use a dozen patterns; the trie must agree with the matching rule on all of them at once.",
 [U+"domain/radix_tree.rs",U+"manager.rs"],[("Node::insert_subscriber/match_subscribers",U+"domain/radix_tree.rs"),("publish de-duplication",U+"manager.rs")],["messages received by subscribers"],
 [("Node","trie of patterns; subscribers at each node",U+"domain/radix_tree.rs")])
p("P02","Unsubscribing and disconnecting remove exactly the client's own subscriptions",
 "After an unsubscribe the client receives nothing for that pattern and everything for its other patterns; after a disconnect it receives nothing at all. Neither affects any other client's subscriptions, any other pattern or any retained message, and subscribing twice then unsubscribing once leaves no subscription.",
 ["histories","inputs"],"all subscribe/unsubscribe/disconnect histories with shared prefixes",
 "Tests remove one pattern from a small tree; pruning must be right for every tree shape.",
 [U+"domain/radix_tree.rs",U+"manager.rs"],[("Node::remove_subscriber",U+"domain/radix_tree.rs"),("disconnect/unsubscribe",U+"manager.rs")],["messages received after removal"])
p("P03","A retained topic delivers its latest live value to new subscribers",
 "A new subscription immediately receives, for every topic matching its pattern, exactly the last value published there with retain, unless that value was cleared by an empty retained publish or its time-to-live has elapsed, and receives nothing for other topics. A retained publish or clear on one topic never affects another topic, and expiry cleanup removes only expired values; no time-to-live value a client sends can make the publish fail.",
 ["histories","inputs"],"all retained histories, patterns, topics and time-to-live values",
 "Tests retain on a few topics with small TTLs.",
 [U+"domain/radix_tree.rs",U+"domain/retained.rs",U+"manager.rs"],[("set_retained, collect_retained_for_pattern, cleanup_expired_retained",U+"domain/radix_tree.rs"),("RetainedMessage::new/is_expired",U+"domain/retained.rs")],["messages received on subscribe"])
p("P04","Retained values survive a restart exactly",
 "After a flush and restart, every live retained topic has the same value and the same expiry time as before, a value without expiry stays without, and nothing that was cleared or has expired comes back; every topic name is restored under exactly its own name.",
 ["crash_points","inputs"],"all retained sets and topic names (leading, trailing and doubled separators included), all restart times",
 "Tests restart with one plain topic.",
 [U+"domain/persistence.rs",U+"domain/retained.rs",U+"domain/radix_tree.rs",U+"manager.rs"],[("collect_all_retained",U+"domain/radix_tree.rs"),("flush, load_all",U+"domain/persistence.rs"),("RetainedMessage::from_persisted",U+"domain/retained.rs")],["retained messages after restart"])
# ---------------- cross-cutting
p("C01","Creation and publish options resolve exactly: client value, else server default",
 "For queue creation, stream creation and publish options, each option the client gives takes effect unchanged, each one it omits takes the server's configured default, and for stream retention an explicit zero means unlimited. No option affects another.",
 ["inputs","configurations"],"all combinations of present/absent options, all values, all server configurations",
 "Tests use one or two option combinations.",
 [Q+"domain/queue.rs",S+"domain/topic.rs",U+"options.rs"],[("QueueConfig::from_options",Q+"domain/queue.rs"),("TopicConfig::from_options",S+"domain/topic.rs"),("PubSubPublishConfig::from_options",U+"options.rs")],["effective configuration in snapshots"])
p("H01","Dashboard listings page correctly and render any payload",
 "Every queue, dead-letter, topic and key listing returns exactly the requested page of the filtered elements together with the right total, for every offset and limit, and queue counters equal the real numbers of waiting, in-flight and dead-lettered messages. Rendering a stored payload as JSON succeeds for every byte string and follows its type byte: raw as 0x-hex, text as a string, JSON as its value, anything unparsable as text, empty as null.",
 ["inputs"],"all contents, offsets, limits (full range), searches and payload bytes",
 "No test calls the listing or rendering code with extreme offsets or arbitrary bytes.",
 [Q+"domain/queue.rs",U+"manager.rs","src/brokers/store/manager.rs","src/transport/http/payload.rs"],[("get_messages/get_counters",Q+"domain/queue.rs"),("scan_topics",U+"manager.rs"),("payload_to_json_value","src/transport/http/payload.rs")],["HTTP listings"])
p("F01","Names chosen by clients cannot reach files outside their own queue or stream",
 "Whatever name a client gives, creating, deleting, probing or restoring a queue or stream reads, writes and deletes only that queue's or stream's own files inside the configured data directory. In particular no name makes the server delete or overwrite another queue's or stream's data or anything outside the data directory.",
 ["inputs","histories"],"all names: empty, '.', '..', with separators, absolute, very long",
 "Tests use plain alphanumeric names.",
 [Q+"manager.rs",S+"manager.rs",S+"domain/persistence.rs"],[("create_queue/delete_queue path construction",Q+"manager.rs"),("create_topic/delete_topic/DropTopic path construction",S+"manager.rs")],["files on disk"])
p("X01","The TypeScript client decodes what the server encodes and vice versa",
 "For every supported value (raw bytes, text, JSON), encoding a request in the client SDK and decoding it in the server, and encoding a response in the server and decoding it in the SDK, preserve the value and all its fields.",
 ["inputs"],"all values and commands",
 "SDK tests run against a live server with a few values.",
 ["sdk/ts/src/codec.ts"],[("FrameCodec","sdk/ts/src/codec.ts")],["values seen by SDK users"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
