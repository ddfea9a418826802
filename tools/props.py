#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

BB="bd-buffer/src/buffer/"
p("B01","Ring buffer delivers committed records intact and in order",
 "Every record whose write to a log ring buffer was committed is later read exactly once, byte for byte as written and in the order in which space for it was reserved, unless it was overwritten by policy. No other bytes are ever delivered.",
 ["inputs","histories","schedules"],"all interleavings of reserve / commit / read / finish-read operations, over all record sizes that fit the bound and all record contents, including wrap-around at any offset",
 "The tests drive a dozen hand-picked sequences with fixed sizes; the wrap arithmetic depends on the joint history of all previous sizes.",
 [BB+"common_ring_buffer.rs",BB+"volatile_ring_buffer.rs",BB+"non_volatile_ring_buffer.rs"],
 [("reservation cursor arithmetic and wrap handling",BB+"common_ring_buffer.rs"),("in-order commit tracking",BB+"volatile_ring_buffer.rs")],["record bytes returned to the consumer"])
p("B02","A full ring drops only its oldest records, or refuses, as configured",
 "When space runs out, a buffer that allows overwrite discards records strictly oldest first, so that what remains readable is always a contiguous suffix of what was committed; a buffer that does not allow overwrite refuses the new record and keeps every existing one. A record being read at that moment is never overwritten.",
 ["inputs","histories"],"all histories of writes and reads up to the bound, all record sizes, both overwrite policies",
 "Which records survive depends on exact sizes and positions; tests use a handful of sizes.",
 [BB+"common_ring_buffer.rs"],[("conditional advance over the next read record",BB+"common_ring_buffer.rs"),("read reservation blocks overwrite",BB+"common_ring_buffer.rs")])
p("B03","Concurrent reservations never overlap and uncommitted data stays invisible",
 "Space handed to one writer never overlaps space handed to another writer that has not committed, nor a record that is being read. A record is invisible to readers until it and every record reserved before it have been committed, whatever order commits arrive in.",
 ["schedules","inputs"],"all orders in which up to three writers reserve and commit, with all record sizes, interleaved with reads",
 "Tests commit in one or two fixed orders.",
 [BB+"volatile_ring_buffer.rs",BB+"common_ring_buffer.rs"],[("active reservation list",BB+"volatile_ring_buffer.rs"),("temporary reservation ranges",BB+"common_ring_buffer.rs")])
p("B04","Oversized, empty or untimely operations are rejected without damage",
 "A reservation of zero bytes or of more than the buffer can ever hold, a commit without a reservation, and a read-finish without a read are rejected with an error. The rejected operation changes neither the records already stored nor the ability to write and read afterwards.",
 ["inputs","histories"],"all 32-bit sizes (symbolic) at any point of a bounded history",
 "Overflow and boundary sizes are a 2^32 input space; tests try a few.",
 [BB+"common_ring_buffer.rs",BB+"volatile_ring_buffer.rs"],[("size validation and checked arithmetic",BB+"common_ring_buffer.rs")])
p("B05","Records in the persistent ring survive a clean close and reopen",
 "After a persistent ring buffer is closed and reopened at the same size, exactly the committed and unconsumed records are readable, in order and intact. Records that were consumed before the close are not delivered again.",
 ["histories","inputs"],"all bounded histories of writes, reads and one reopen, all record sizes and contents",
 "Persisted offsets depend on the entire history; tests sample a few.",
 [BB+"non_volatile_ring_buffer.rs"],[("file header with checksum",BB+"non_volatile_ring_buffer.rs")])
p("B06","A crash at any instant leaves the persistent ring recoverable",
 "If the process dies between any two memory writes of any persistent ring buffer operation, reopening the file either reports data loss, after which a fresh file can be created and used, or yields a sequence of records each of which was actually written, in order and byte for byte intact, that includes every record committed before the interrupted operation and neither overwritten nor consumed by it. The reopened buffer accepts and delivers new records.",
 ["crash_points","histories"],"every store instruction to the mapped file during a write, overwrite or read operation, for bounded histories and symbolic sizes",
 "Tests never stop in the middle of an operation; the crash point is a quantifier they do not have.",
 [BB+"non_volatile_ring_buffer.rs"],[("header update order and checksums",BB+"non_volatile_ring_buffer.rs")],["record bytes after reopen"])
p("B07","Corruption of the buffer file never causes a bad memory access",
 "Opening and reading a persistent buffer file in which a run of bytes anywhere (header, checksums, sizes or contents) has been altered arbitrarily never panics and never touches memory outside the mapped file. It either reports an error, after which the file can be recreated, or delivers only records whose checksums match, and goes on accepting and delivering new records.",
 ["inputs","fault_sequences"],"every position of the file and all values of up to four consecutive bytes there",
 "The header and record fields form a space of 2^300 values; the tests flip a few specific ones.",
 [BB+"non_volatile_ring_buffer.rs"],[("header validation on open",BB+"non_volatile_ring_buffer.rs"),("per-record size and CRC validation",BB+"non_volatile_ring_buffer.rs")])
p("B08","Records read ahead through a cursor stay until acknowledged",
 "A cursor consumer may read several records ahead; each stays in the persistent buffer until it is explicitly advanced past, in order. After a restart, every record that was read but not advanced past is delivered again, and none that was advanced past is. A record found corrupted on the way is passed over without affecting the others, and its space is given back.",
 ["histories","crash_points"],"all bounded interleavings of writes, cursor reads, advances and a reopen at any point",
 "Acknowledgement position against read-ahead position is a history property.",
 [BB+"non_volatile_ring_buffer.rs"],[("cursor read index and advance",BB+"non_volatile_ring_buffer.rs")])
p("B10","Aggregated buffer moves every committed record to persistent storage",
 "Every record committed to the volatile stage of the two-stage buffer and not overwritten there is written to the persistent stage exactly once, intact and in order. Flushing completes only after everything committed before it has been moved.",
 ["histories","schedules"],"bounded histories of producer commits and forwarding steps",
 "Depends on the interleaving between the producer and the forwarding thread.",
 [BB+"aggregate_ring_buffer.rs",BB+"volatile_ring_buffer.rs",BB+"non_volatile_ring_buffer.rs"],[("forwarding loop",BB+"aggregate_ring_buffer.rs")])
p("B11","Buffer statistics account for every record",
 "The counters of a ring buffer always satisfy: records and bytes written equal those read plus those overwritten plus those still stored. Refused and corrupted records are counted separately and never counted as written.",
 ["histories","inputs"],"all bounded histories, all sizes",
 "Conservation must hold at every point of every history.",
 [BB+"mod.rs",BB+"common_ring_buffer.rs"],[("ring buffer stats updates",BB+"common_ring_buffer.rs")])
p("B12","The reservation queue is a FIFO that reuses nodes safely",
 "The internal queue that tracks outstanding reservations returns entries in insertion order, never loses or duplicates one, and never hands out a node that is still in use.",
 ["histories"],"all operation sequences up to the bound",
 "Unsafe intrusive links; corrupted only by particular sequences.",
 [BB+"intrusive_queue_with_free_list.rs"],[("intrusive list and free list",BB+"intrusive_queue_with_free_list.rs")])

p("L01","The log channel never exceeds its memory or count budget",
 "A memory-bounded channel refuses a message that would take the total size of queued messages over its byte budget or over its slot budget, and otherwise accepts it. Every accepted message is received exactly once in order and its budget is returned when it is received, so that capacity is never lost while the channel is in use.",
 ["inputs","histories"],"all message sizes (symbolic) and all bounded send / receive / drop sequences",
 "Budget leaks show up only after particular sequences and sizes.",
 ["bd-logger/src/memory_bound.rs"],[("size reservation against an atomic counter",'bd-logger/src/memory_bound.rs')])
p("L02","Logs recorded before configuration arrives are kept in order within a bound",
 "Before the first configuration, items pushed to the pre-configuration queue are retained in order until the count or byte budget would be exceeded; further items are refused with the matching reason and do not disturb those retained. Once configuration arrives all retained items are replayed in order.",
 ["inputs","histories"],"all item sizes (symbolic) and bounded push sequences",
 "Boundary sizes and sequences.",
 ["bd-logger/src/pre_config_buffer.rs"],[("count and size budget",'bd-logger/src/pre_config_buffer.rs')])
p("L03","The upload rate limiter admits no more than its quota",
 "Within any one window the total admitted by the trigger-upload rate limiter never exceeds the configured quota by more than the single request that crosses it, and a request is refused only when the quota has been used up in the current window. After a full window passes, requests are admitted again.",
 ["inputs","histories"],"all request sizes, clock advances and quotas (symbolic) over bounded request sequences",
 "Admission depends on the clock history.",
 ["bd-logger/src/consumer.rs","bd-logger/src/ratelimit.rs"],[("windowed quota",'bd-logger/src/ratelimit.rs')])
p("L04","Field collisions resolve by a fixed precedence and reserved names are safe",
 "When the same field name is supplied by several sources, the log carries exactly one value, chosen by the documented precedence between log fields and globally provided fields and between out-of-the-box and custom fields; custom fields with a reserved name are dropped. No field whose name is unique and not reserved is lost or altered, and matching-only fields never reach the captured set.",
 ["inputs","configurations"],"all assignments of names (with every collision pattern), kinds and sources to a bounded number of fields",
 "Collision patterns between four sources are a large space; tests cover five.",
 ["bd-logger/src/metadata.rs"],[("normalisation and collision handling",'bd-logger/src/metadata.rs'),("reserved names",'bd-logger/src/metadata.rs')])
p("L05","App version changes are detected exactly once",
 "An app-update event is produced if and only if the stored version differs from the current one in any of its identifying parts and a previous version is stored; a first start and a start with the same version produce none. After the event, the current version is what is stored, so that the same change is never reported twice, including across restarts.",
 ["inputs","histories","crash_points"],"all version names and codes up to the length bound, over bounded sequences of starts",
 "Tests compare two fixed versions.",
 ["bd-logger/src/app_version.rs"],[("comparison with persisted version",'bd-logger/src/app_version.rs')])
p("L06","Upload batches respect their limits and lose nothing",
 "A batch must be sent exactly when its configured byte or count limit is reached, and taking the batch returns every added log once, in order, leaving the builder empty. Uploading a whole buffer sends every record once and in order, except those older than a configured lookback window, which are counted instead. Continuous uploading sends records in order, a full batch at once and a partial one after the deadline, and releases records from the buffer exactly when their upload has ended.",
 ["inputs","histories"],"all log sizes and limits (symbolic) over bounded add / take / answer sequences",
 "Limits and sizes are integers the tests fix; answers come at any time.",
 ["bd-logger/src/consumer.rs"],[("batch builder limits",'bd-logger/src/consumer.rs'),("cursor released after the upload",'bd-logger/src/consumer.rs')])
p("L07","A failed upload is retried as itself, a bounded number of times",
 "An upload that fails or whose answer is lost is sent again with the same identifier and content until it succeeds, is canceled, or the configured number of retries is used up; only then is it reported as failed, and exactly then counted, with its logs, as given up. The next upload has its own identifier and all of its retries.",
 ["histories","fault_sequences"],"all bounded sequences of answers, lost answers, shutdown and limit changes",
 "Which answer comes when, and limits that change meanwhile.",
 ["bd-logger/src/service.rs"],[("retry policy",'bd-logger/src/service.rs'),("upload attempt",'bd-logger/src/service.rs')])
p("L08","A stored log says what was logged",
 "Decoding the stored form of a log gives back its level, type, message, fields in order, session, time, and the identifiers of the actions and streams it goes to, whatever was encoded before with the same encoder and whether or not that could be stored.",
 ["inputs","histories"],"all contents up to the length bound (symbolic)",
 "Contents are arbitrary; tests sample a few.",
 ["bd-client-common/src/fb.rs"],[("log encoding",'bd-client-common/src/fb.rs')])

p("S01","A fixed session keeps its identifier until a new one is requested",
 "With the fixed session strategy, every query returns the same identifier until a new session is explicitly started, at which point the callback is invoked exactly once and the new identifier is returned from then on. The identifier of the previous run reported after a restart is the last one that was active in that run.",
 ["histories","crash_points"],"all bounded sequences of query / start-new / restart operations",
 "Tests run three fixed sequences.",
 ["bd-session/src/fixed.rs"],[("cached state guarded by a lock",'bd-session/src/fixed.rs'),("persisted state",'bd-session/src/fixed.rs')])
p("S02","An activity session changes exactly after the inactivity threshold",
 "With the activity-based strategy, a query returns a new identifier if and only if more than the inactivity threshold has passed since the last activity, or there was no session, and each such change is announced exactly once. The identifier survives a restart within the threshold (the last activity may be remembered up to 15 s too early unless flushed), and the previous run's identifier is reported unchanged throughout a run.",
 ["inputs","histories"],"all clock readings (symbolic, including backwards jumps) over bounded query / start-new / restart sequences",
 "The decision is over clock values and persisted activity; tests sample a few times.",
 ["bd-session/src/activity_based.rs"],[("threshold comparison",'bd-session/src/activity_based.rs'),("throttled persistence of last activity",'bd-session/src/activity_based.rs')])
p("K01","The key-value store returns exactly what was last stored, or nothing",
 "Reading a typed key returns the value most recently written under it, independent of other keys; a key never written, or whose stored text has been cut short or can no longer be decoded as a value of that type, reads as absent rather than as a wrong value or a crash, and the undecodable text is removed. Distinct keys never alias.",
 ["inputs","fault_sequences"],"all values up to the size bound, and all corruptions of the stored text up to the bound",
 "Tests round-trip two fixed values.",
 ["bd-key-value/src/lib.rs"],[("typed keys and encoding",'bd-key-value/src/lib.rs')])
p("D01","The device identifier is created once and never changes",
 "The device identifier is generated at most once per installation; every later call, in the same run or after any number of restarts, returns the same value, also when the first use is concurrent. The identifier is durable before it is first returned.",
 ["histories","crash_points","schedules"],"all bounded sequences of calls and restarts, with storage contents symbolic",
 "Test checks one call sequence.",
 ["bd-device/src/lib.rs"],[("cached identifier under lock",'bd-device/src/lib.rs')])

p("G01","Message framing is independent of how the stream is chunked",
 "Decoding a stream of well formed frames yields the same messages in the same order regardless of how the stream is split into chunks, each as soon as its last byte has arrived. Bytes of an incomplete message are kept and never delivered early.",
 ["inputs","schedules"],"all message contents and all ways to split the stream, up to the length bound",
 "Splits are exponential in length; tests use a few.",
 ["bd-grpc-codec/src/lib.rs"],[("decoder buffer",'bd-grpc-codec/src/lib.rs')])
p("G02","Encoding then decoding returns the same message",
 "For every message and every supported compression setting, decoding the encoded frame gives back the message, and the frame header carries the exact payload length and whether the payload is compressed.",
 ["inputs","configurations"],"all payloads up to the length bound, all compression thresholds",
 "Payload space.",
 ["bd-grpc-codec/src/lib.rs"],[("frame header",'bd-grpc-codec/src/lib.rs')])
p("G03","Malformed frames are errors, never crashes",
 "Any byte stream fed to the frame decoder, including hostile length prefixes and flags, either yields messages, asks for more data or reports an error; it never panics or reads out of bounds.",
 ["inputs"],"all byte streams up to the length bound",
 "2^(8n) inputs.",
 ["bd-grpc-codec/src/lib.rs"],[("header parsing",'bd-grpc-codec/src/lib.rs')])

p("G04","A stream that fails to decode does not harm another",
 "When a frame cannot be decompressed, only its own stream reports an error: every other stream, on the same thread or not, then or later, decodes its messages as if the failed one had never existed.",
 ["inputs","histories"],"all single-bit, truncation and overlong damages of a compressed frame, followed by other streams",
 "Needs a damaged frame followed by an unrelated stream on the same thread.",
 ["bd-grpc-codec/src/lib.rs"],[("decompressor shared by a thread",'bd-grpc-codec/src/lib.rs')])
p("M01","Log matchers obey boolean logic",
 "A composite matcher accepts a log exactly when the boolean combination of its parts does: all-of when every part accepts, any-of when at least one does, and negation when its part does not, to any nesting. Configurations that cannot be interpreted are rejected when loaded rather than misjudged later.",
 ["inputs","programs"],"all matcher trees up to the bound and all logs over them",
 "Trees and logs form a product space.",
 ["bd-log-matcher/src/matcher.rs"],[("recursive evaluation",'bd-log-matcher/src/matcher.rs')])
p("M02","Value comparisons in matchers follow their operator",
 "Integer, string and version comparisons accept a log value exactly when the relation named by the operator holds between it and the configured value; a field that is missing or not an integer never satisfies an integer comparison. Versions compare component by component numerically, and equal and not-equal are exact complements on values that parse.",
 ["inputs"],"all integers, all strings and versions up to the length bound, every operator",
 "Boundary values and mixed components.",
 ["bd-log-matcher/src/matcher.rs","bd-log-matcher/src/version.rs"],[("operator dispatch",'bd-log-matcher/src/matcher.rs'),("version ordering",'bd-log-matcher/src/version.rs')])
p("M03","Buffer selection returns exactly the matching buffers",
 "A log is sent to exactly those buffers whose rules match its type, level, message and fields, each once; logs matching none go to none. Rules are evaluated the same way regardless of their order.",
 ["inputs","configurations"],"all logs and all rule sets up to the bound",
 "Product space of rules and logs.",
 ["bd-matcher/src/buffer_selector.rs","bd-matcher/src/matcher.rs"],[("buffer selector",'bd-matcher/src/buffer_selector.rs')])
p("F01","Log filters transform only what they match, in order",
 "A filter's transformations apply only to logs its matcher accepts and are applied in the configured order; all other logs and all fields not named by a transformation are unchanged. Moving a field between captured and matching sets never duplicates or loses it.",
 ["inputs","configurations"],"all logs and filter chains up to the bound",
 "Product space.",
 ["bd-log-filter/src/lib.rs"],[("transform application",'bd-log-filter/src/lib.rs')])

p("W01","Workflow traversal accounting is exact and the limit is enforced",
 "The engine's count of active traversals always equals the number of traversals that actually exist, and never exceeds the configured limit; work that would exceed it is not started and is counted as a limit hit. (Configurations have no transition back to the first state.)",
 ["inputs","histories","configurations"],"all bounded log sequences against workflow graphs with forks, cycles and limits",
 "The count drifts only after particular sequences.",
 ["bd-workflows/src/engine.rs","bd-workflows/src/workflow.rs"],[("traversal count update",'bd-workflows/src/engine.rs')])
p("W02","An exclusive workflow runs at most one instance past its start",
 "A workflow with exclusive execution never has more than one run that has left the initial state, and never more than one waiting in the initial state; a log the running one matches is not shown to the waiting one, and one that only gets the waiting one going replaces the running one. (Configurations have no transition back to the first state.)",
 ["histories","configurations"],"all bounded log sequences",
 "History property.",
 ["bd-workflows/src/workflow.rs"],[("exclusive run handling",'bd-workflows/src/workflow.rs')])
p("W03","A transition needs exactly its configured number of matching logs",
 "A state transition with a count fires on exactly the configured number of matching logs, no earlier and no later, its actions are emitted exactly once per firing, and non-matching logs do not advance it.",
 ["inputs","histories"],"all counts (symbolic) and bounded log sequences",
 "Counts and sequences.",
 ["bd-workflows/src/workflow.rs"],[("match counting",'bd-workflows/src/workflow.rs')])
p("W04","Sankey paths keep at most their limit and mark truncation",
 "A recorded Sankey path holds, in the order of its own traversal, every node that does not count toward its limit and the most recent ones that do, never more than the limit, and is marked truncated exactly when an older one was dropped; it is uploaded only once the server has accepted it, and a path the server has settled recently is not asked about again.",
 ["inputs","histories"],"all limits (symbolic) and bounded extraction sequences",
 "Limits and sequences.",
 ["bd-workflows/src/sankey_diagram.rs","bd-workflows/src/workflow.rs"],[("bounded push",'bd-workflows/src/workflow.rs')])
p("W05","Flush and streaming decisions follow the actions and are bounded",
 "A triggered flush results in at most one pending upload per action at a time, which ends with the one verdict its negotiation gives; nothing is flushed without approval and no action is flushed twice at once; a log is routed to the streaming destinations exactly while a streaming action applies to its buffers; streaming ends with the first log after its configured number of logs was streamed or the session changed, as soon as the flush it belongs to is over.",
 ["histories","inputs"],"all bounded sequences of actions, intent answers, logs and session changes",
 "History property.",
 ["bd-workflows/src/actions_flush_buffers.rs"],[("resolver and streaming actions",'bd-workflows/src/actions_flush_buffers.rs')])
p("W06","Workflow state survives persistence unchanged",
 "Saving the workflow state and loading it back yields the same state, asking again about what was waiting for an answer, and a damaged or outdated state file never leads to a crash: it yields a fresh start, or at most a state that fits the current configuration.",
 ["inputs","fault_sequences"],"all states up to the bound, all corruptions of bounded files",
 "State space.",
 ["bd-workflows/src/engine.rs"],[("state store",'bd-workflows/src/engine.rs')])

p("W07","Workflows measure exactly what they are configured to",
 "A log adds to each metric that the workflows it completes a step of are configured to emit, once even when several of them emit the same one: the fixed value or the number its field has (the whole part of it, and nothing for one below zero, for a counter; the exact value for a histogram), under the metric's id and with its tags, a tag without a value being left out; a metric whose field is missing or no number is not measured, and the others are all the same; a completed Sankey path adds one under the id of its diagram and its own.",
 ["inputs","histories"],"all fixed values, texts and tags given and bounded log sequences",
 "Combinations of several workflows, values and tags.",
 ["bd-workflows/src/metrics.rs","bd-workflows/src/config.rs","bd-workflows/src/engine.rs"],[("emit_metrics, emit_sankeys",'bd-workflows/src/metrics.rs'),("prepare_actions",'bd-workflows/src/engine.rs')])

p("C01","Counter increments are conserved across flush and merge",
 "The sum of all values reported for a counter equals the sum of all increments made, whatever the interleaving of increments, snapshots and merges; no increment is lost or reported twice.",
 ["inputs","histories","schedules"],"all increment values (symbolic) and bounded sequences of increments, snapshots and merges",
 "History property over 64-bit values.",
 ["bd-client-stats-store/src/lib.rs","bd-client-stats/src/stats.rs"],[("snapshot-and-reset",'bd-client-stats-store/src/lib.rs')])
p("C02","Metric cardinality limits hold and losses are visible",
 "The number of distinct dynamic metrics never exceeds the configured limit at record time; every record refused because of it is counted in the overflow statistics under its source, and existing metrics keep being updated.",
 ["inputs","histories"],"all limits (symbolic) and bounded sequences of metric names",
 "Limits and sequences.",
 ["bd-client-stats/src/stats.rs","bd-client-stats-store/src/lib.rs"],[("cardinality limit and overflow map",'bd-client-stats/src/stats.rs')])
p("C04","Pending stats uploads are kept until acknowledged, within bounds",
 "The store of aggregated stats never holds more pending files than its limit, drops the oldest first, uploads each file at most until it is acknowledged, and survives any order of flush, upload and completion without a crash, with damaged index files leading to a fresh start.",
 ["histories","fault_sequences"],"all bounded sequences of flush / upload / complete events with symbolic limits and clock",
 "Only particular orders reach the boundary cases.",
 ["bd-client-stats/src/file_manager.rs"],[("index of pending files",'bd-client-stats/src/file_manager.rs')])

p("R01","A runtime flag always reflects the latest configuration",
 "After every configuration update each flag watch yields the value that configuration gives it, and its default when the configuration leaves it out; a watcher is notified exactly when the value has changed since it last looked.",
 ["inputs","histories"],"all update sequences and values up to the bound",
 "Sequences of updates.",
 ["bd-runtime/src/runtime.rs"],[("watch update",'bd-runtime/src/runtime.rs')])
p("R02","A crashing cached configuration is abandoned after bounded retries",
 "Cached runtime configuration that keeps the process from confirming a healthy start is loaded at most the permitted number of consecutive times and then discarded, whatever the content of the retry counter file; a healthy start resets the count.",
 ["histories","crash_points","fault_sequences"],"all retry-file contents (symbolic) and bounded start / crash sequences",
 "Counter file content and crash points.",
 ["bd-runtime/src/runtime.rs"],[("retry counter file",'bd-runtime/src/runtime.rs')])
p("Z01","A damaged protobuf file is never taken for a whole one",
 "A message written with the compressed protobuf file format is read back equal. A file that was cut short at any point, or in which a byte was altered, is reported as an error or still gives the same message; it never gives a different or shorter one.",
 ["inputs","fault_sequences"],"all lengths a file can be cut to and all values of an altered byte, for messages of several sizes",
 "Every length and byte value; tests only read whole files.",
 ["bd-client-common/src/file.rs"],[("end of stream and checksum",'bd-client-common/src/file.rs')])
p("R03","Feature flags follow the documented rule for every value and draw",
 "An integer flag of value 0 is off and one of 10,000 or more is on for every random draw; in between it is on exactly when the draw modulo 10,000 is below the value, so that it is on for that share of draws and raising the value never turns it off for the same draw. A flag that is absent or not an integer gives the caller's default, and the boolean, integer and string getters give the configured value when it has that type and the caller's default otherwise.",
 ["inputs","configurations"],"all 64-bit flag values and draws, all defaults, all type mixes of up to two flags",
 "64-bit values and draws; tests check six points.",
 ["bd-runtime-config/src/feature_flags.rs"],[("draw comparison",'bd-runtime-config/src/feature_flags.rs'),("typed getters",'bd-runtime-config/src/feature_flags.rs')])
p("R04","A watched configuration file is always served as last renamed into place",
 "The loader serves the content the file had when it was last (re)loaded: at the start and after every rename in the watched directory, and at no other event. An unreadable or undeserializable file gives no value (feature flags then give defaults) rather than a stale or partial one, and a later good file is served again. Each load reports exactly one outcome. Every watcher sees the newest value; shutting down stops the watch, is idempotent, and leaves the last value readable.",
 ["histories","inputs","fault_sequences"],"all bounded sequences of file changes (good, other, malformed, missing), directory events of every kind, and shutdowns",
 "Orders of file states and events; tests walk one.",
 ["bd-runtime-config/src/loader.rs"],[("event filter and reload",'bd-runtime-config/src/loader.rs'),("load outcome",'bd-runtime-config/src/loader.rs')])

p("A01","Every upload gets exactly one answer",
 "Each upload handed to the API client is answered exactly once: with the server's verdict when a response with its identifier arrives, or as dropped when the stream ends; a response with an unknown identifier never answers another upload.",
 ["histories","fault_sequences"],"all bounded orders of sends, responses (with symbolic ids) and disconnects",
 "Orders and ids.",
 ["bd-api/src/upload.rs"],[("pending upload map",'bd-api/src/upload.rs')])
p("A02","The connection to the backend follows its protocol, comes back, and ends when asked to",
 "A stream to the backend begins with the handshake, which carries the nonces of the configuration in force, the device's metadata and why the previous stream ended, and nothing else is sent on it until the handshake is answered; a response out of place ends the client instead of being acted on. Configuration that arrives is applied and acknowledged once, in order, on the stream it came on, and what came along with the handshake is applied before the pipelines hear that the backend is available; flush requests are passed on as they are; pings are sent when the agreed interval has passed since the last pong and not otherwise, one per pong. When the stream ends a new one is opened after the backoff (at once when it had lasted over a minute), never two at a time; network quality is reported as online while a stream is up and as offline when it has been down for more than 15 s; a shutdown ends the client at any point without sending more.",
 ["histories","fault_sequences","inputs"],"all bounded sequences of server responses (also cut in two), stream ends, times going by, settings changes and shutdown",
 "The order and timing of what the server sends and when streams fail; tests drive a few scripts.",
 ["bd-api/src/api.rs","bd-api/src/lib.rs","bd-api/src/payload_conversion.rs"],[("connection loop",'bd-api/src/api.rs')])
p("A03","A client that has been turned off stays off for as long as it was told, and no longer",
 "Once the backend refuses a client's key or its configuration turns it off, it opens no connection in that run and in none started with the same key before the given time has passed, to the nanosecond; a client started at or after that time, or with another key, connects, and the record is removed. No other error turns it off. A damaged or half written record, or one that could not be written, neither keeps a later run off nor stops it from starting, and the current run stays off all the same.",
 ["inputs","histories","fault_sequences"],"any gRPC status and any start time (symbolic), bounded sequences of runs, keys and durations, any damage to and write failure of the record",
 "Times at the boundary, restarts in between and damaged files.",
 ["bd-api/src/api.rs"],[("kill file",'bd-api/src/api.rs')])
p("T01","Time rounding is exact",
 "Rounding a duration or time down or up to an interval gives a multiple of the interval, never on the wrong side and never a full interval or more away.",
 ["inputs"],"all times and intervals in range (symbolic)",
 "64-bit space; tests check few points.",
 ["bd-time/src/lib.rs"],[("floor and ceil",'bd-time/src/lib.rs')])
p("T02","Timestamps survive conversion to and from the wire",
 "Converting a time to the wire format and back gives the same instant, for every time the format can express; durations likewise, and a negative duration is reported as such rather than turned positive where the caller asks.",
 ["inputs"],"all times of sample days and all durations of the format (symbolic)",
 "64-bit space.",
 ["bd-time/src/lib.rs"],[("timestamp conversion",'bd-time/src/lib.rs')])
p("X01","Unexpected errors are reported at a bounded rate",
 "However many unexpected errors occur, no more than the configured number are reported; every reported error carries its context and the cause is never swallowed silently before the limit.",
 ["histories","inputs"],"all bounded sequences of error calls and limits (symbolic)",
 "Sequences.",
 ["bd-client-common/src/error.rs"],[("limited reporter",'bd-client-common/src/error.rs')])
p("X02","A completion signal delivers exactly one value or a clear failure",
 "A completion receiver resolves with the value that was sent, exactly once, whether the send happens before or after the wait begins; if the sender disappears without sending, the wait fails rather than hanging, and sending to a receiver that has gone away never panics.",
 ["schedules","inputs"],"all orders of send, drop and (repeated) waits, all values",
 "Orders of polling and sending.",
 ["bd-completion/src/lib.rs"],[("one-shot channel",'bd-completion/src/lib.rs')])
p("X03","Shutdown reaches every component and waits for all of them",
 "After shutdown is triggered every component handle, whenever it was created or cloned, observes the cancellation, including one that starts waiting later; cancellation is never observed before the trigger. The trigger's wait finishes only when every component handle has been dropped, and then does finish.",
 ["schedules","histories"],"all bounded interleavings of trigger, subscribe, clone, wait and drop",
 "Interleavings.",
 ["bd-shutdown/src/lib.rs"],[("watch channel",'bd-shutdown/src/lib.rs')])
p("X04","Rate-limited warnings are spaced by at least their interval",
 "A rate-limited warning fires on its first use and afterwards if and only if more than the configured interval has passed since it last fired; suppressed occurrences do not postpone the next one.",
 ["inputs","histories"],"all intervals and clock readings (symbolic) over bounded call sequences",
 "Clock values.",
 ["bd-log/src/rate_limit_log.rs"],[("last-used tracking",'bd-log/src/rate_limit_log.rs')])
p("X05","The worker count derived from the environment is always sane",
 "For every value of the CPU-count environment setting, the number of worker threads is at least one and at most the documented maximum; a valid setting of one or more is honoured by rounding down, and unusable settings are ignored.",
 ["inputs","configurations"],"all setting strings up to the length bound",
 "The test suite never sets the variable.",
 ["bd-rt/src/lib.rs"],[("environment parsing and clamping",'bd-rt/src/lib.rs')])
p("V01","Server metric labels are bounded and scopes compose",
 "While first uses of labelled metrics do not race, the number of distinct label values admitted by the server metrics never exceeds the configured maximum, and beyond it measurements go to the overflow label and are counted; labels admitted earlier keep working. Scoped metric names are the concatenation of the scopes, scope labels are all present with inner ones winning, and asking twice for the same metric gives the same counter.",
 ["inputs","histories","configurations"],"all bounded sequences of label values with symbolic limits",
 "Sequences and limits.",
 ["bd-server-stats/src/stats.rs"],[("label tracker",'bd-server-stats/src/stats.rs'),("metric cache",'bd-server-stats/src/stats.rs')])
p("V02","In-flight gauges return to zero",
 "A scope-bound gauge counts exactly the live guards: it rises by one for each guard created and falls by one when that guard is dropped, in any order.",
 ["histories"],"all bounded sequences of guard creation and drop",
 "Sequences.",
 ["bd-server-stats/src/stats.rs"],[("guard drop",'bd-server-stats/src/stats.rs')])
p("V03","A scrape is complete and current",
 "Every scrape first runs every registered gather callback exactly once, then returns every registered metric once, including those the callbacks updated or created, followed by the metrics of every chained collector, each gathered exactly once; the text form shows the same values.",
 ["histories"],"all bounded sequences of registering callbacks, chaining collectors and scraping",
 "Sequences of registrations and scrapes.",
 ["bd-server-stats/src/stats.rs"],[("gather with callbacks and chained collectors",'bd-server-stats/src/stats.rs')])
p("I01","The identity an SDK reports cannot be overridden",
 "The metadata sent to the server always carries this SDK's configuration version, operating system, platform kind and SDK version, whatever values or clashing names the platform adds; every other value the platform adds is sent unchanged, and nothing else is.",
 ["inputs","configurations"],"all platforms, all bounded sets of platform-supplied fields including clashing names",
 "Clashing names.",
 ["bd-metadata/src/lib.rs"],[("order of insertion",'bd-metadata/src/lib.rs')])
p("L09","Network accounting on logs is exact",
 "Each HTTP response log adds each of its valid byte counts once to the reporting period it falls in, without ever wrapping or stopping the logger, whatever values the application supplies. A resource log reports, once a period begun over a minute earlier has been dropped, exactly the sums over the periods begun within the last minute, with totals that agree, and nothing before that; other logs are neither counted nor changed. A response with a status code marks the network as online. A log is marked as offline exactly when the network is believed to be offline and the log is not an internal one (resource, replay, SDK).",
 ["inputs","histories"],"all bounded sequences of responses, reports, other logs and time passing, with sizes up to the largest; all log types and network states",
 "Sequences, sizes near the limit and times at the window's edge.",
 ["bd-logger/src/network.rs"],[("per-minute accounting",'bd-logger/src/network.rs'),("offline marking",'bd-logger/src/network.rs')])
p("L10","A configuration is applied whole, answered truthfully, and kept for the next start",
 "A configuration update that can be applied is applied once with all its parts, acknowledged with its version, and told to the server in later handshakes; one that is refused or empty is answered with its version and the reason, and leaves the version, which the answer repeats, and what is kept on disk as they were; other messages are not answered. The next start applies exactly what was applied last, with its version, and not at the same time leaves it on disk to be tried again should it crash the process. A full disk or the death of the process at any point, or a damaged file, leaves the next start with the old configuration, the new one, or none, each whole with its version, and never stops it.",
 ["histories","crash points","faults"],"all bounded sequences of updates of every kind and restarts; every point at which the disk can fill up or the process be killed; all short file contents",
 "Each cut of the file is its own case, and the answer to a refusal matters only after an earlier success.",
 ["bd-logger/src/client_config.rs"],[("updates and persistence",'bd-logger/src/client_config.rs')])
p("L11","Every log reaches exactly the buffers and viewers it should, and blocking logs are on disk first",
 "A processed log is written once, as it was logged, to each buffer whose filter takes it and to no other; once a workflow's streaming of a buffer is on, to the streaming destinations instead; a buffer that is locked or full does not keep it from the others. Live viewers whose filter takes it get it once, with the list of them. A log that triggers an upload says which actions it triggered and is part of what is uploaded: if it is neither in a continuous buffer nor in one to be uploaded, exactly one internal stand-in with the same content is put in one of those to be uploaded. An approved upload is of exactly the buffers its action names; a refused one is of none. A blocking log is not over before the workflow state, every buffer it was written to and the statistics have been flushed; what it did to workflows is remembered by the next process. All of it follows the latest configuration and flags, and other logs ask for no flush.",
 ["inputs","histories","faults","configurations"],"all outcomes of every filter and trigger for a log, all bounded combinations of flush actions, streaming, viewers, locked and full buffers, blocking or not, before and after configuration changes and uploads",
 "The filters, triggers, streaming, failures and blocking combine; tests sample a handful of combinations.",
 ["bd-logger/src/log_replay.rs","bd-logger/src/logging_state.rs","bd-logger/src/client_config.rs","bd-workflows/src/engine.rs"],[("log processing",'bd-logger/src/log_replay.rs'),("live viewers",'bd-logger/src/client_config.rs'),("routing",'bd-workflows/src/engine.rs')])
p("L12","Calls to the logger take effect once, in order, as of when they were made",
 "Every log the logger accepts is passed on exactly once, in the order of the calls and, once there is a configuration, those from before it first; it carries the global fields as added and removed by the calls before it, the platform's clock, and the session current when it is handled, or, when it claims to be from the process before and the claim holds, that session and its own time, with the time it was handled noted (a claim that does not hold is replaced by a warning); one whose clock fails is left out without harm to the others; calls made from within the platform's callbacks have no effect; calls that do not fit are counted; who waits for a log or a state flush waits until it is done and never for ever; the periodic report counts every log.",
 ["inputs","histories","schedules"],"all bounded sequences of calls and turns, all interleavings of two threads within the bound on preemptions",
 "Histories and schedules; these tests cannot be built here at all.",
 ["bd-logger/src/async_log_buffer.rs","bd-logger/src/logger.rs","bd-logger/src/internal_report.rs"],[("run_with_shutdown, process_log",'bd-logger/src/async_log_buffer.rs'),("LoggerHandle",'bd-logger/src/logger.rs')])

p("B09","The buffers there are follow the configuration, and every flush request is answered",
 "After a configuration update succeeds there are exactly the buffers it names, each of its kind and with its file; those there already are the same ones, the files of those removed are gone; the uploader was told of exactly these changes, and they have been processed. There is a buffer for live viewers exactly if asked for. An update that cannot be applied changes nothing and tells nobody. Every request to flush is answered, after all it names that is there has reached the file; a request naming a buffer that is not there any more does not stop it, or later ones, from being handled.",
 ["histories","schedules","faults"],"all bounded sequences of configuration updates, good and bad, with loggers that hold on to old buffers or not; flush requests of every shape, all bounded interleavings with the buffer's own thread",
 "Updates overlap what loggers still hold, and a flush request can overtake a removal.",
 ["bd-buffer/src/ring_buffer.rs"],[("buffer manager",'bd-buffer/src/ring_buffer.rs')])
p("Y01","The session replay recorder respects the flags, the pace and the platform",
 "A screenshot is taken only when one was asked for since the last look and screenshots are enabled, and never before the log of the previous one was seen: there is never more than one screenshot more than screenshot logs; asked for when enabled and ready, one is taken. Every request is counted under exactly one outcome. Periodic screens are captured only while enabled, at least an interval apart, and whenever the interval is over; a new interval counts from its arrival, and no interval, zero included, stops the recorder. Shutdown ends it.",
 ["schedules","histories","configurations"],"all bounded sequences of requests, logs, flag and interval changes, time passing and scheduling, with the order in which the recorder looks at its sources a variable",
 "The order in which simultaneous events are handled is random, and tests see one of them.",
 ["bd-session-replay/src/lib.rs","bd-time/src/lib.rs"],[("recorder loop",'bd-session-replay/src/lib.rs'),("interceptor",'bd-session-replay/src/lib.rs')])
p("Y02","Resource reports follow the flag and the interval",
 "The resource utilization target is asked only while reporting is enabled, at least an interval apart, and whenever the interval is over, the first time at once; a new interval counts from its arrival, and no interval, zero included, stops the reporter. Shutdown ends it.",
 ["schedules","histories","configurations"],"all bounded sequences of flag and interval changes and time passing, with the order in which the reporter looks at its sources a variable",
 "Sequences and simultaneous events.",
 ["bd-resource-utilization/src/lib.rs"],[("reporter loop",'bd-resource-utilization/src/lib.rs')])
p("Y03","Platform events are on exactly when enabled",
 "Whenever the events listener has caught up, the target was last told to start if the flag is on, and was last told to stop or never told anything if it is off; it is told at most once per look. Shutdown ends it.",
 ["schedules","histories"],"all bounded sequences of flag changes and scheduling",
 "Flag changes that fall together.",
 ["bd-events/src/lib.rs"],[("listener loop",'bd-events/src/lib.rs')])
if __name__=="__main__":
    for x in P: print(json.dumps(x))
