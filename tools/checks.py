"""What is checked, per property: harness entries, bounds, required outcomes."""

COMMON_ASSUMPTIONS = [
    "the LLVM IR rustc 1.83 emits (opt-level 1, fat LTO, overflow checks and debug assertions on) is the code; LLVM's back end and the release profile's further optimisations are trusted",
    "symx (this framework's interpreter of that IR) and Z3 are trusted, checked by replaying sample paths and every counterexample natively",
    "one thread unless an entry's bounds name threads; those are explored under sequential consistency at atomic instructions and futex calls (data races between plain accesses, weaker orderings and thread-exit destructors are not modelled)",
]


def E(name, reach=(), **k):
    return dict(name=name, reach=list(reach), **k)


CHECKS = {
    "X02": dict(
        group="core",
        entries=[
            E("x02_completion", ["got", "failed", "pending", "tx_dropped"], params={"ops": 5}, thorough_params={"ops": 7},
              bounds="every sequence of 5 operations (7 thorough) out of send / drop sender / start waiting / poll / drop receiver / drop waiter, then a final send or drop; every u64 value"),
            E("x02_blocking", ["ok", "err"], bounds="blocking receive after send or after drop, every u64 value"),
            E("x02_threads", ["threads_value", "threads_failure"], mt=True, args=["--preempt", "3"], thorough_args=["--preempt", "5"],
              bounds="sender (send or drop) and receiver (async wait, blocking wait, or drop) on two threads, every interleaving at atomic instructions of both channel ends with at most 3 (thorough 5) preemptions, every u64 value"),
        ],
        bounds="operation sequences of length 5 (thorough 7) on one sender/receiver pair",
        outside="more preemptions; weak memory orderings",
    ),
    "X03": dict(
        group="core",
        entries=[
            E("x03_shutdown", ["blocked", "cancelled", "done", "finished"], params={"ops": 5}, thorough_params={"ops": 6},
              bounds="every sequence of 5 operations (6 thorough) out of 8 (create from trigger, create from handle, clone, start wait, poll wait, drop, shutdown, poll shutdown)"),
            E("x03_blocking", ["blocking_done"], bounds="blocking shutdown with no live handles, late handle"),
            E("x03_threads", ["threads_async", "threads_blocking"], mt=True, args=["--preempt", "2"], thorough_args=["--preempt", "3"], thorough_params={"components": 2},
              bounds="the trigger (async or blocking shutdown) and 1 (thorough 2) component threads that clone, wait for cancellation and drop, every interleaving at atomic instructions with at most 2 (thorough 3) preemptions"),
        ],
        bounds="operation sequences of length 5 (thorough 6)",
        outside="more threads or preemptions; weak memory orderings",
    ),
    "X04": dict(
        group="core",
        entries=[
            E("x04_warn", ["fired_again", "suppressed"], params={"calls": 3}, thorough_params={"calls": 4},
              bounds="3 calls (4 thorough) at arbitrary non-decreasing instants (seconds 1000..2^22, any nanoseconds), any interval 0..2^20 s with any nanoseconds"),
            E("x04_threads", ["threads_again", "threads_none"], mt=True, args=["--preempt", "3"],
              bounds="two threads at one instant, first use or any time up to 2^21 s after an earlier use, every interval up to 2^20 s, at most 3 preemptions"),
        ],
        bounds="3 consecutive uses (thorough 4), arbitrary times and interval",
        outside="instants beyond 2^22 s, callers on two threads at different instants",
    ),
    "X05": dict(
        group="core",
        entries=[
            E("x05_digits", ["valid", "frac"], bounds="every decimal text of 1..4 digits, and 1..2 digits with one fractional digit"),
            E("x05_special", ["ignored", "clamped"], bounds="unset, empty, non-numeric, NaN, infinities, zeros, negatives, subnormal, overflowing and exponent forms"),
        ],
        bounds="numeric texts up to 4 digits, one fractional digit, and the listed special forms",
        outside="longer numeric texts",
    ),
    "K01": dict(
        group="kv",
        entries=[
            E("k01_text", ["text"], params={"len": 6}, thorough_params={"len": 12}, bounds="String values of 0..5 (thorough 0..11) arbitrary ASCII characters, read back at once and after a restart"),
            E("k01_record", ["record"], bounds="a record with u8, i64, Option<u32>, bool, byte vector (0..2), enum with unit/tuple/struct variants, String; every value"),
            E("k01_garbage", ["absent"], params={"len": 9}, thorough_params={"len": 13}, bounds="every stored text of 0..8 (thorough 0..12) ASCII characters"),
            E("k01_bytes", ["readable", "absent"], bounds="every stored text that is the base64 form of 8..11 arbitrary bytes (every 64-bit length prefix)"),
            E("k01_truncated", ["truncated"], bounds="the text of every string of 0..3 ASCII characters cut at every position"),
            E("k01_history", ["set", "damaged"], params={"ops": 4}, thorough_params={"ops": 6},
              bounds="every sequence of 4 (thorough 6) operations over two keys: set either, restart, damage, failing set, failing get and delete, get"),
            E("k01_unserializable", ["stored", "refused"], bounds="3 values of two bytes, those above 100 in the second cannot be serialized"),
        ],
        bounds="texts and values of a few characters with every content, sequences of 4 operations (thorough 6)",
        outside="longer values, non-ASCII text, concurrent users of one store, storage back ends of the platforms",
    ),
    "D01": dict(
        group="kv",
        entries=[
            E("d01_history", ["created", "again", "restart", "stored_before"], params={"ops": 5}, thorough_params={"ops": 7},
              bounds="every sequence of 5 (thorough 7) steps out of restart / another user of the same store / id(), from an empty store and from one holding any 2-character identifier"),
            E("d01_fresh", ["fresh"], bounds="two installations"),
            E("d01_damaged", ["replaced"], bounds="every damaged stored text of 0..4 ASCII characters"),
            E("d01_unwritable", ["unwritable"], bounds="storage that refuses writes, for good or once"),
            E("d01_threads", ["threads"], mt=True, args=["--preempt", "3"],
              bounds="two threads calling id() at once with and without a stored identifier, every interleaving at atomic instructions with at most 3 preemptions"),
        ],
        bounds="5 steps (thorough 7) of restart / new user / id()",
        outside="more than two threads or three preemptions, strength of the random source (an arbitrary fixed stream)",
    ),
    "S01": dict(
        group="kv",
        entries=[
            E("s01_history", ["callback_failed", "first_query", "new_session", "previous", "restart", "stable"], params={"ops": 4}, thorough_params={"ops": 6},
              bounds="every sequence of 4 (thorough 6) steps out of query / start new / ask for previous / restart, the callback answering, failing, or re-entering session_id or start_new_session"),
            E("s01_damaged", ["damaged"], bounds="every damaged stored state of 0..4 ASCII characters"),
            E("s01_threads", ["threads"], mt=True, thorough_args=["--preempt", "3"],
              bounds="two threads each querying or starting a session, before or after the first use, with or without an earlier run, every interleaving at atomic instructions with at most 2 (thorough 3) preemptions"),
        ],
        bounds="4 steps (thorough 6), four callback behaviours per generation",
        outside="more than two threads or the stated preemptions",
    ),
    "L05": dict(
        group="kv",
        entries=[
            E("l05_starts", ["event", "no_event"], params={"starts": 2, "len": 3}, thorough_params={"starts": 3, "len": 3},
              bounds="2 (thorough 3) starts with arbitrary versions: names of 0..2 ASCII characters, any i64 code or build number of 0..2 characters"),
            E("l05_ask_only", ["asked"], bounds="a first start that only asks, then any other version"),
            E("l05_back", ["back", "event", "no_event"], bounds="five starts alternating between two arbitrary i64 codes"),
            E("l05_labels", ["labels"], bounds="codes -999..999, build numbers of 2 characters"),
        ],
        bounds="2 to 5 starts, version names up to 2 characters, every i64 code",
        outside="longer version names; the emission of the event from the returned previous version",
    ),
    "L04": dict(
        group="kv",
        entries=[
            E("l04_names", ["accepted", "refused"], params={"len": 14}, bounds="every custom field name of 0..13 ASCII characters"),
            E("l04_captured", ["captured", "matching_only", "removed"], bounds="2 provider and 2 log fields of any kind and 1 global field, every collision pattern over 4 names (two differing in case, one reserved, one with an underscore), every 2-byte value"),
            E("l04_globals", ["captured", "matching_only", "removed"], bounds="1 provider, 1 log and 2 global fields, every collision pattern, with and without a removal"),
            E("l04_matching", ["captured", "matching_only"], bounds="2 provider, 1 log, 2 matching-only fields, every collision pattern over 4 names"),
            E("l04_types", ["captured", "matching_only", "removed"], bounds="every log type, one field per source"),
        ],
        bounds="up to 5 fields with every collision pattern over 2..4 names and every 2-byte value",
        outside="more fields, longer values (values are copied, never inspected)",
    ),
    "R03": dict(
        group="srv",
        entries=[
            E("r03_integer", ["enabled", "disabled"], bounds="every 64-bit flag value, every larger value, every 64-bit draw, both defaults"),
            E("r03_default", ["asked"], bounds="an absent flag beside a flag of any type and value"),
            E("r03_getters", ["absent", "integer"], bounds="0..2 flags of any name out of 4, any type, any boolean, any u64, any text of 0..2 ASCII characters; any defaults; any generator"),
        ],
        bounds="every 64-bit value and draw; up to two flags",
        outside="more flags (a hash map), the quality of the random generator (any draw is allowed)",
        assumptions=["the crate `rand` is replaced by one whose every draw is an arbitrary value"],
    ),
    "R04": dict(
        group="srv",
        entries=[
            E("r04_history", ["end", "file_changed", "not_a_rename", "reloaded", "shutdown"], params={"ops": 3}, thorough_params={"ops": 4},
              bounds="every sequence of 3 (thorough 4) steps out of: replace the file (good, other value, malformed, missing), an event of any of 10 kinds, two renames at once, shutdown; any initial file"),
            E("r04_flags", ["defaults", "loaded"], bounds="feature flags from a good, ill-typed, malformed, empty and missing file; any defaults"),
            E("r04_unwatchable", ["error"], bounds="a directory that cannot be watched"),
        ],
        bounds="3 steps (thorough 4)",
        outside="the notify crate and the kernel's event delivery (replaced by events the harness orders), a file replaced while it is being read",
        assumptions=["the crate `notify` is replaced by one whose events the harness emits"],
    ),
    "V01": dict(
        group="srv",
        entries=[
            E("v01_labels", ["admitted", "overflow"], params={"limit": 4, "metrics": 3}, thorough_params={"limit": 6, "metrics": 4},
              bounds="every limit 0..4 (thorough 6), 3 (thorough 4) late-initialised counters with two labels or gauges with one, every choice of 3 values per label"),
            E("v01_identity", ["new", "same"], bounds="two counters in scopes of every combination of root, extension, leaf name (one containing the separator), scope labels and metric labels"),
            E("v01_scopes", ["scopes"], bounds="two nested scopes with and without labels and empty extensions; gauge of any i64 value, histogram with and without buckets"),
            E("v01_wrapper", ["wrapped"], bounds="every increment of 32 bits"),
            E("v01_threads", ["threads"], mt=True, thorough_args=["--preempt", "3"],
              bounds="two threads asking at once for the same or different counters, gauges or label values, every interleaving at atomic instructions with at most 2 (thorough 3) preemptions"),
        ],
        bounds="3 labelled metrics (thorough 4), two nested scopes",
        outside="concurrent registration; prometheus itself (its code is executed)",
    ),
    "V02": dict(
        group="srv",
        entries=[E("v02_guards", ["dropped", "released"], params={"ops": 6}, thorough_params={"ops": 7},
                   bounds="every sequence of 6 (thorough 7) steps creating and dropping guards of both kinds in any order, any initial value 0..2^62"),
                 E("v02_threads", ["threads"], mt=True, args=["--preempt", "3"], thorough_params={"threads": 3},
                   bounds="2 (thorough 3) threads each creating and dropping a guard, either kind, every interleaving at atomic instructions with at most 3 preemptions")],
        bounds="6 steps (thorough 7)",
        outside="more threads or preemptions",
    ),
    "V03": dict(
        group="srv",
        entries=[
            E("v03_scrape", ["few", "scraped", "scraped_again"], params={"ops": 5}, thorough_params={"ops": 7},
              bounds="every sequence of 5 (thorough 7) steps out of add a callback / chain a collector / scrape"),
            E("v03_text", ["text"], bounds="12 gauge values"),
        ],
        bounds="5 steps (thorough 7)",
        outside="concurrent scrapes",
    ),
    "I01": dict(
        group="srv",
        entries=[E("i01_collect", ["clash", "collected"], bounds="every platform, 0..3 platform fields out of 6 names (4 of them clashing), any 2-character values")],
        bounds="up to 3 platform fields",
        outside="more platform fields",
    ),
    "B01": dict(
        group="buf",
        entries=[
            E("b01_one_producer", ["overwrote", "read", "refused"], params={"ops": 5}, thorough_params={"ops": 6},
              bounds="in-memory ring of 40 bytes, every sequence of 5 (thorough 6) writes, read starts and read finishes, every record size, every first byte, then drained; overwriting and refusing"),
            E("b01_persistent", ["overwrote", "read", "refused"], params={"ops": 4}, thorough_params={"ops": 5},
              bounds="the same for the file-backed ring (40 bytes of records), 4 (thorough 5) operations, every record size"),
        ],
        bounds="a ring of 40 bytes, 5 operations (thorough 6), every record size and position",
        outside="larger rings (sizes and positions enter only through additions and comparisons with the size), longer histories",
    ),
    "B02": dict(
        group="buf",
        entries=[
            E("b02_any_position", ["overwrote", "read", "refused"], params={"ops": 4}, thorough_params={"ops": 5},
              bounds="in-memory ring of 40 bytes, empty at any position, then every sequence of 4 (thorough 5) writes and reads, every record size"),
            E("b01_persistent", ["overwrote", "read", "refused"], params={"ops": 4}, thorough_params={"ops": 5},
              bounds="file-backed ring, overwriting and refusing, 4 (thorough 5) operations, every record size"),
        ],
        bounds="a ring of 40 bytes, any start position, 4 operations (thorough 5), every record size",
        outside="blocking writers, longer histories",
    ),
    "B03": dict(
        group="buf",
        entries=[
            E("b03_producers", ["overwrote", "read", "refused"], params={"ops": 6}, thorough_params={"ops": 7},
              bounds="2 producers and a consumer, every order of 6 (thorough 7) reserve / commit / start read / finish read steps, every record size"),
            E("b03_threads", ["end"], mt=True, thorough_args=["--preempt", "3"],
              bounds="two producers, with or without the consumer, on their own threads, sizes 1 or 13 in a ring of 24, every interleaving at atomic instructions with at most 2 (thorough 3) preemptions"),
        ],
        bounds="2 producers, 6 steps (thorough 7), every record size",
        outside="three or more producers, more preemptions",
    ),
    "B04": dict(
        group="buf",
        entries=[
            E("b04_rejected", ["commit", "finish", "locked", "overwrote", "read", "reserve", "size", "start"], params={"ops": 4}, thorough_params={"ops": 5},
              bounds="one bad operation (every 32-bit size that is zero or too large, commit without reservation, second reservation, finish without read, second read, locked buffer) anywhere in a history of 4 (thorough 5) operations"),
            E("b04_fits", ["drained"], params={"ops": 4}, bounds="4 records of every size that fits, overwriting"),
        ],
        bounds="histories of 4 operations (thorough 5), every 32-bit size",
        outside="longer histories",
    ),
    "B05": dict(
        group="buf",
        entries=[
            E("b05_reopen", ["overwrote", "read", "refused", "reopened"], params={"ops": 4}, thorough_params={"ops": 5},
              bounds="record checksums off: every sequence of 4 (thorough 5) writes, read starts, read finishes and reopens, every record size, then reopened and drained"),
            E("b05_checksums", ["overwrote", "read", "refused", "reopened"], params={"ops": 5}, thorough_params={"ops": 6},
              bounds="record checksums on: the same with 5 (thorough 6) operations, sizes 1, 9, 20, every first byte"),
        ],
        bounds="40 bytes of records, 4 to 5 operations (thorough 5 to 6)",
        outside="longer histories, reservations left uncommitted at the close (see B06)",
    ),
    "B06": dict(
        group="buf",
        entries=[E("b06_crash", ["crashed", "data_loss", "overwrote", "read", "recovered", "refused"], params={"ops": 3}, thorough_params={"ops": 4},
                   bounds="every history of 3 (thorough 4) operations with record sizes 1, 9, 20, then a write, read start or read finish stopped before any of its stores to the mapped file; plain and cursor readers, overwriting and refusing")],
        bounds="3 operations (thorough 4) and a crash at every store of the next one",
        outside="stores reordered by the kernel on power loss (the mapping is memory: the process, not the machine, dies), record checksums off",
    ),
    "B07": dict(
        group="buf",
        entries=[E("b07_corrupt", ["data_loss", "delivered", "overwrote", "read", "refused", "usable"], params={"ops": 2, "width": 4}, thorough_params={"ops": 3, "width": 4},
                   bounds="the file left by every history of 2 (thorough 3) operations, any 4 consecutive bytes of it replaced by any values, then opened, read to the end and written to; plain and cursor readers")],
        bounds="4 consecutive altered bytes anywhere in the file, histories of 2 operations (thorough 3)",
        outside="headers altered so that their checksum still matches (needs two separate alterations), several runs of altered bytes",
    ),
    "B08": dict(
        group="buf",
        entries=[
            E("b08_cursor", ["read", "refused", "reopened"], params={"ops": 4}, thorough_params={"ops": 5},
              bounds="every sequence of 4 (thorough 5) writes, cursor reads, acknowledgements and reopens, every record size (checksums off) or sizes 1, 9, 20 (on), then reopened and drained"),
            E("b08_damaged", ["read", "refused"], bounds="2 or 3 records of sizes 1, 5, 9 at two start positions, one of them with any change to a byte of its contents or checksum; every number of reads and acknowledgements, with and without a restart"),
        ],
        bounds="4 operations (thorough 5)",
        outside="a consumer replaced while the buffer stays open (documented as unsupported)",
    ),
    "B11": dict(
        group="buf",
        entries=[
            E("b02_any_position", ["overwrote", "read", "refused"], params={"ops": 3}, thorough_params={"ops": 4},
              bounds="in-memory ring: the counters after every step of 3 (thorough 4) operations from any position, every record size"),
            E("b03_producers", ["overwrote", "read", "refused"], params={"ops": 5}, thorough_params={"ops": 6}, bounds="two producers, 5 (thorough 6) steps"),
            E("b01_persistent", ["overwrote", "read", "refused"], params={"ops": 4}, thorough_params={"ops": 5}, bounds="file-backed ring, 4 (thorough 5) operations"),
            E("b04_rejected", ["size"], params={"ops": 3}, thorough_params={"ops": 4}, bounds="rejected operations anywhere in 3 (thorough 4) operations"),
        ],
        bounds="3 to 5 operations (thorough 4 to 6)",
        outside="longer histories",
    ),
    "B12": dict(
        group="buf",
        entries=[E("b12_queue", ["changed", "popped", "pushed"], params={"ops": 7}, thorough_params={"ops": 9},
                   bounds="every sequence of 7 (thorough 9) pushes, pops and changes of the front, every u32 value")],
        bounds="7 operations (thorough 9)",
        outside="longer sequences",
        assumptions=["the crate `intrusive-collections` is replaced by a stand-in of the parts used"],
    ),
    "M01": dict(
        group="match",
        entries=[
            E("m01_logic", ["accepted", "rejected"], bounds="every matcher tree of depth 2 and up to 3 parts per node (all-of, any-of, negation, leaf), every outcome of every leaf"),
            E("m01_nested", ["accepted", "rejected"], thorough_params={"depth": 4}, bounds="every chain of 3 (thorough 4) nested combinations, every outcome of the leaves"),
            E("m01_refused", ["loaded", "refused"], bounds="every leaf kind with each part missing or unspecified, alone and nested: refused when loaded, or evaluated without a crash"),
        ],
        bounds="trees of depth 2 (chains 3, thorough 4), at most 3 parts per node",
        outside="wider or deeper trees",
    ),
    "M02": dict(
        group="match",
        entries=[
            E("m02_level", ["level"], bounds="every operator, every configured and logged 32-bit level"),
            E("m02_int", ["integer", "junk"], params={"digits": 2}, thorough_params={"digits": 3}, bounds="every operator and configured i32, field texts of up to 2 (thorough 3) characters: signs, digits, anything else"),
            E("m02_string", ["string"], params={"len": 3}, thorough_params={"len": 5}, bounds="every operator, configured and logged strings of up to 3 (thorough 5) bytes, field and message"),
            E("m02_regex", ["regex"], params={"len": 3}, thorough_params={"len": 4}, bounds="a literal, an anchored class and an alternation against every text of up to 3 (thorough 4) bytes"),
            E("m02_version", ["version"], params={"components": 3}, thorough_params={"components": 4}, bounds="every operator, versions of up to 3 (thorough 4) numeric components, every component value below 100"),
            E("m02_complement", ["any_text"], params={"len": 2}, thorough_params={"len": 3}, bounds="two arbitrary version texts of up to 2 (thorough 3) characters: equal and not-equal are complements, greater-or-equal is greater or equal"),
        ],
        bounds="texts of up to 2-3 characters (thorough 3-5), 3 version components (thorough 4)",
        outside="longer texts; integer fields written as \"nan\", \"inf\" or with a fraction (unspecified); regular expressions in general (the regex crate runs for real, without its perf and unicode features)",
    ),
    "M03": dict(
        group="match",
        entries=[
            E("m03_rule", ["rule"], bounds="every kind of rule (type, level, message, field, tag, negated, any) against every log of the bound"),
            E("m03_logic", ["logic"], params={"depth": 2}, bounds="every combination of rules of depth 2, every leaf outcome"),
            E("m03_buffers", ["selected"], params={"buffers": 2}, bounds="2 buffers with up to 2 rules each, every log and rule outcome"),
            E("m03_refused", ["refused"], bounds="each missing part of a rule"),
        ],
        bounds="2 buffers, rule trees of depth 2",
        outside="more buffers and rules, longer texts",
    ),
    "F01": dict(
        group="match",
        entries=[
            E("f01_transforms", ["matched", "unmatched"], thorough_params={"matching": 2}, bounds="each transformation (capture, set with and without override, remove, regex substitution) on every log with up to two captured and one (thorough two) matching fields, every field naming pattern"),
            E("f01_chain", ["chain"], bounds="every pair of filters out of the transformations on one log: applied in order, later matchers see earlier results"),
        ],
        bounds="one filter with one transformation or two filters, logs of up to 3 fields (thorough 4)",
        outside="longer chains, more fields",
    ),
    "T01": dict(
        group="base",
        entries=[E("t01_rounding", ["rounded"], params={"days": 2, "hours": 2, "intervals": 3}, thorough_params={"days": 8, "hours": 4, "intervals": 7},
                   bounds="every minute, second and nanosecond of the first and last (thorough: 4) hours of 2 (thorough 8) days before and after 1970, down and up, intervals 1 min, 5 min, 1 s (thorough also 1 h, 5 s, 7 s, 1 day), whole or with a fraction that is dropped")],
        bounds="hours of 2 days (thorough 8), 3 intervals (thorough 7)",
        outside="other days and intervals",
    ),
    "T02": dict(
        group="base",
        entries=[
            E("t02_timestamp", ["time"], params={"days": 8, "hours": 6}, bounds="every minute, second and nanosecond of 6 hours of 8 days from year 1 to 9999"),
            E("t02_from_wire", ["wire"], bounds="every second and nanosecond of the 8 days"),
            E("t02_duration", ["negative", "positive"], bounds="every duration the format allows"),
        ],
        bounds="all durations, times of 8 days",
        outside="other days; wire values outside the format's range (only read from the SDK's own files)",
    ),
    "S02": dict(
        group="base",
        entries=[E("s02_history", ["first", "kept", "expired", "survived", "restarted"], params={"ops": 3}, thorough_params={"ops": 4},
                   bounds="3 (thorough 4) operations out of query, start new, flush, restart with any clock change (forwards up to minutes, backwards) in between")],
        bounds="3 operations (thorough 4)",
        outside="longer histories; identifier strings (generated by uuid from a counter stream standing in for randomness)",
    ),
    "X01": dict(
        group="base",
        entries=[
            E("x01_limit", ["reported", "limited"], bounds="8 failing or succeeding operations through each of the reporting helpers"),
            E("x01_threads", ["threads"], mt=True, bounds="two threads reporting at once, 2 preemptions"),
        ],
        bounds="8 operations around the limit of 5",
        outside="the panic hook and the process-wide default reporter's network output",
    ),
    "R01": dict(
        group="flags",
        entries=[
            E("r01_integer", ["looked"], params={"updates": 3}, thorough_params={"updates": 4}, bounds="3 (thorough 4) updates that give or leave out an integer flag, every u32 value, a watch looking at any of them"),
            E("r01_bool", ["looked"], params={"updates": 4}, bounds="4 updates of a boolean flag"),
            E("r01_duration", ["looked"], params={"updates": 2}, thorough_params={"updates": 3}, bounds="2 (thorough 3) updates of a duration flag, every u32 of milliseconds"),
            E("r01_several", ["several"], params={"updates": 2}, thorough_params={"updates": 3}, bounds="3 flags given or left out in each of 2 (thorough 3) updates, snapshot getters"),
        ],
        bounds="2 to 4 updates",
        outside="a value of another type than the flag's (unspecified), watchers awaiting changes on other threads",
        assumptions=["flate2 is replaced by a stand-in that stores (R01 never reads the cached file back)"],
    ),
    "R02": dict(
        group="base",
        entries=[
            E("r02_history", ["loaded", "abandoned"], params={"runs": 8}, thorough_params={"runs": 9}, bounds="every history of 8 (thorough 9) runs that crash, start healthily or receive configuration"),
            E("r02_counter", ["loaded", "refused"], params={"len": 3}, thorough_params={"len": 4}, bounds="retry files of every content up to 3 (thorough 4) bytes and of boundary counts"),
            E("r02_damaged", ["damaged", "unharmed"], bounds="a cached configuration cut short at any length or with any one bit flipped, and a missing counter"),
            E("r02_disk", ["old", "new", "given_up"], params={"points": 110}, bounds="a disk that is full after any number of further bytes, or a process killed after any number of changes to it (110), during a start or the receipt of another configuration, followed by 14 starts that crash"),
        ],
        bounds="8 runs (thorough 9), 110 fault points",
        outside="longer histories, power loss (writes that are lost or reordered after they have been made)",
    ),
    "Z01": dict(
        group="base",
        entries=[
            E("z01_cut", ["whole", "cut"], bounds="4 messages (empty to several kilobytes), every length the file can be cut to"),
            E("z01_damaged", ["refused"], params={"message": 1}, thorough_params={"message": 2}, bounds="one message's file with any one byte replaced by any other value"),
        ],
        bounds="files of 4 messages; one altered byte",
        outside="other messages, several altered bytes",
        assumptions=["flate2 with its Rust back end stands for flate2 with zlib"],
    ),
    "G01": dict(
        group="codec",
        entries=[
            E("g01_chunks", ["chunks"], params={"messages": 2, "cuts": 2}, thorough_params={"messages": 3, "cuts": 3, "len": 2},
              bounds="2 (thorough 3) uncompressed messages of 0 to 3 (2) bytes of any content, cut at any 2 (3) places, every decompression setting, for CPU or memory"),
            E("g01_compressed", ["compressed"], thorough_params={"levels": 3}, bounds="three messages, really compressed or not, levels 3 and 0 (thorough also 9), cut at any place"),
            E("g01_any_content", ["pieces"], group="frames", thorough_params={"cuts": 2}, bounds="three messages of any content (2, 98, 100 bytes) as the encoder frames them, stand-in compression, cut at any place (thorough: two)"),
        ],
        bounds="2 or 3 messages, 1 or 2 cuts (thorough 3)",
        outside="longer streams, streams that contain a malformed frame",
        assumptions=["flate2 with its Rust back end stands for flate2 with zlib; where contents are symbolic a stand-in stores them instead"],
    ),
    "G02": dict(
        group="codec",
        entries=[
            E("g02_plain", ["plain"], thorough_params={"messages": 3}, bounds="2 (thorough 3) messages of 0, 1, 2, 5, 97, 98, 127, 128 bytes of any content that stay uncompressed, every compression setting"),
            E("g02_compressed", ["compressed", "any_compression"], bounds="two messages of 97, 98, 130, 3000 bytes, every level 0 to 9, stateless and stateful"),
            E("g02_any_content", ["compressed", "any_content"], group="frames", thorough_params={"messages": 3}, bounds="2 (thorough 3) messages of up to 128 bytes of any content around the threshold, stand-in compression"),
        ],
        bounds="messages of up to 128 bytes of any content, sample contents beyond",
        outside="what zlib makes of arbitrary content (trusted)",
        assumptions=["flate2 with its Rust back end stands for flate2 with zlib; where contents are symbolic a stand-in stores them instead"],
    ),
    "G03": dict(
        group="codec",
        entries=[E("g03_hostile", ["error", "incomplete", "message"], params={"bytes": 8}, thorough_params={"bytes": 9}, bounds="every stream of 8 (thorough 9) bytes in one or two pieces, every decompression setting")],
        bounds="8 bytes (thorough 9)",
        outside="longer streams; memory used by compressed data that expands",
    ),
    "G04": dict(
        group="codec",
        entries=[E("g04_other_streams", ["error", "unharmed"], bounds="a compressed frame with any one bit of its payload flipped, cut short anywhere, or one byte too long, then two other streams on the same thread; stateless and stateful")],
        bounds="one damaged frame, two later streams",
        outside="other damage",
    ),
    "L01": dict(
        group="log",
        entries=[
            E("l01_history", ["accepted", "bytes", "closed", "ends", "received", "slots"], params={"ops": 4}, thorough_params={"ops": 6},
              bounds="every sequence of 4 (thorough 6) sends (from two senders), receives and a receiver drop, every size and budget up to 2^16, one or two slots"),
            E("l01_threads", ["accepted", "concurrent", "slots"], mt=True, args=["--preempt", "2"], thorough_args=["--preempt", "3"],
              bounds="two senders and the receiver on threads of their own, every interleaving at atomic instructions with at most 2 (thorough 3) preemptions"),
        ],
        bounds="4 operations (thorough 6)",
        outside="longer histories, more senders, weak memory orderings, budget of messages still queued when the receiver goes away",
    ),
    "L02": dict(
        group="log",
        entries=[E("l02_history", ["count", "kept", "size"], params={"pushes": 5}, thorough_params={"pushes": 6}, bounds="every sequence of 5 (thorough 6) pushes of every size, every byte budget up to 2^40, 0 to 8 slots")],
        bounds="5 pushes (thorough 6)",
        outside="longer sequences; what the logger does with what it replays",
    ),
    "L03": dict(
        group="log",
        entries=[E("l03_windows", ["admitted", "refused"], params={"calls": 3}, thorough_params={"calls": 4}, bounds="3 (thorough 4) requests through two clones of the service, every 32-bit size and quota, periods of 1, 250, 1000 and 60000 ms, instants around the end of every window")],
        bounds="3 requests (thorough 4)",
        outside="instants far from the end of a window, quota changes between requests, longer sequences",
    ),
    "C01": dict(
        group="stats",
        entries=[
            E("c01_history", ["again", "answered", "restart"], params={"ops": 4}, thorough_params={"ops": 5}, bounds="every sequence of 4 (thorough 5) increments, flushes, upload answers (accepted, refused, lost) and restarts, values up to 15"),
            E("c01_history", [], params={"ops": 2, "wide": 1000000000000}, bounds="the same with 2 operations and values up to 10^12"),
            E("c01_threads", ["uploaded"], mt=True, args=["--preempt", "1"], thorough_args=["--preempt", "2"], bounds="one thread increments and drops the last handle while another flushes, at most 1 (thorough 2) preemptions"),
        ],
        bounds="4 operations (thorough 5)",
        outside="longer histories, histograms, weak memory orderings, process death between two file writes",
    ),
    "C02": dict(
        group="stats",
        entries=[E("c02_limit", ["admitted", "existing", "refused"], params={"ops": 4}, thorough_params={"ops": 5}, bounds="4 (thorough 5) records under any of the names and sources, limits 0 to 4, changing at any time")],
        bounds="4 records (thorough 5)",
        outside="longer sequences",
    ),
    "C04": dict(
        group="stats",
        entries=[
            E("c04_history", ["acknowledged", "evicted", "late_answer", "restart", "uploaded"], params={"ops": 5}, thorough_params={"ops": 6}, bounds="every sequence of 5 (thorough 6) flushes, uploads, answers, restarts and clock steps, file limits 0 to 2"),
            E("c04_damaged", ["fresh"], params={"len": 6}, bounds="index and data files emptied, cut in half, or holding any 6 bytes that do not parse"),
        ],
        bounds="5 operations (thorough 6)",
        outside="longer histories, failing file operations",
    ),
    "A01": dict(
        group="api",
        entries=[
            E("a01_tracker", ["answered", "ended", "replaced", "unknown"], params={"ops": 4}, thorough_params={"ops": 5}, bounds="every sequence of 4 (thorough 5) uploads of all kinds, responses with any identifier of those or none, and the end of the stream"),
            E("a01_stream", ["answered", "ended"], params={"ops": 4}, thorough_params={"ops": 5}, bounds="the same through the API task over an in-memory stream"),
        ],
        bounds="4 operations (thorough 5)",
        outside="longer histories; reconnecting and backing off between streams",
    ),
    "A02": dict(
        group="api",
        entries=[
            E("a02_any", ["again", "flush", "offline", "pings", "reason", "refused", "spurious_handshake", "stopped", "too_early", "up"], params={"ops": 2}, thorough_params={"ops": 3}, bounds="every sequence of 2 (thorough 3) of: a handshake (with and without pings and configuration behind it), a pong, configuration of both kinds, a flush request, an error, each in one piece or cut; the end of the stream; 0.2, 7, 16 or 61 s going by; shutdown"),
            E("a02_up", ["flush", "pings", "stopped", "up"], params={"ops": 4}, thorough_params={"ops": 5}, bounds="every sequence of 4 (thorough 5) of those once the handshake has been answered"),
            E("a02_again", ["again", "offline", "reason", "refused"], params={"ops": 5}, thorough_params={"ops": 6}, bounds="every sequence of 5 (thorough 6) of refusals, closures and times going by before any handshake is answered; shortest, middle and longest backoff"),
            E("a02_lost", ["again", "at_once", "new_backoff", "offline", "pings", "reason", "up"], params={"ops": 4}, thorough_params={"ops": 5}, bounds="every sequence of 4 (thorough 5) of closures, times going by and new backoff settings once it has been up"),
            E("a02_reset", ["again", "at_once", "lost_twice", "new_backoff"], bounds="up to 3 refusals, up for 7 or 61 s, lost and lost again, then any two times going by"),
        ],
        bounds="4 to 5 events (thorough 5 to 6)",
        outside="longer histories; the TLS and HTTP layers below (the platform's); how long the backoff of the backoff crate draws, beyond its ends and its middle",
    ),
    "A03": dict(
        group="api",
        entries=[
            E("a03_refused", ["accepted", "off", "off_for_everyone", "refused", "tries_again"], params={"runs": 3}, thorough_params={"runs": 4}, thorough_time=400, bounds="3 (thorough 4) runs of the client one after the other with the same or another key, started just before, at and after the end; any gRPC status; durations of 0, 1 ms, 1.5 s, 49 days and none configured"),
            E("a03_when", ["off", "on"], params={"seconds": 100000}, thorough_params={"seconds": 4000000000}, bounds="started again at any nanosecond of the 100000 (thorough 4e9) seconds after being refused for 10 s"),
            E("a03_damaged", ["cut", "flipped"], bounds="the kill file cut anywhere, with any bit flipped, or replaced by up to 3 bytes of anything"),
            E("a03_disk", ["not_written", "written"], bounds="the disk full or failing after any number of bytes up to 47 of writing the kill file"),
        ],
        bounds="3 runs (thorough 4)",
        outside="tokio's thread pool for file operations (they are done at once); a kill file written by another SDK version, whose hash of the key may differ",
    ),
    "L06": dict(
        group="logger",
        entries=[
            E("l06_batch", ["full", "not_full", "taken"], params={"ops": 3}, thorough_params={"ops": 4}, bounds="every sequence of 3 (thorough 4) additions of logs of 0, 1, 3, 7 bytes, takes and changes of the limits, limits up to 64"),
            E("l06_everything", ["done", "full", "rest"], params={"records": 3}, thorough_params={"records": 4}, bounds="one-off uploads of up to 3 (thorough 4) records, limits of 0 to 3 logs and 0, 1, 3, 4, 100 bytes, every upload accepted or refused"),
            E("l06_lookback", ["old", "recent"], params={"records": 3}, thorough_params={"records": 4}, bounds="3 (thorough 4) records at, just before and just after the start of windows of 0, 1 ms, 1 s, 1 min, and one that is no log"),
            E("l06_continuous", ["answered", "due", "full"], params={"ops": 3}, thorough_params={"ops": 4}, bounds="every sequence of 3 (thorough 4) new records, upload answers (accepted, refused, lost), waits past the deadline and changed limits"),
        ],
        bounds="3 operations or records (thorough 4)",
        outside="longer histories, shutdown in the middle of an upload (the batch is then uploaded again by the next process)",
    ),
    "L07": dict(
        group="logger",
        entries=[E("l07_retry", ["canceled", "gave_up", "nobody", "retried", "success"], params={"retries": 2}, thorough_params={"retries": 4}, bounds="every sequence of answers (accepted, refused, lost, shutdown, API gone, the limit changed meanwhile) to an upload with at most 2 (thorough 4) retries, and a second upload after it")],
        bounds="2 retries (thorough 4)",
        outside="the length of the pauses between attempts (pauses of 0 are used)",
    ),
    "L08": dict(
        group="logger",
        entries=[
            E("l08_content", ["decoded"], params={"len": 3}, thorough_params={"len": 4}, bounds="every level and type, a message and up to one field of text or binary of up to 2 (thorough 3) bytes of any ASCII or binary content and a two-byte character, sample times"),
            E("l08_again", ["decoded"], bounds="a second log through the same encoder after one that was stored or could not be, up to 2 fields, action and stream identifiers each"),
        ],
        bounds="texts of up to 2 bytes (thorough 3), one or two fields",
        outside="longer texts, more fields (the encoding is the flatbuffers library's)",
    ),
    "B10": dict(
        group="buf",
        entries=[
            E("b10_flush", ["flushed", "reopened"], mt=True, params={"lens": 2}, args=["--preempt", "1"], thorough_args=["--preempt", "2"], thorough_params={"lens": 1},
              bounds="two records of 1 or 5 bytes (thorough: 5) of any content, flush or close and reopen, overwriting or not, every interleaving of the caller and the buffer's own thread with at most 1 (thorough 2) preemptions"),
            E("b10_reader", ["read_all"], mt=True, params={"lens": 2}, args=["--preempt", "1"], thorough_args=["--preempt", "2"], thorough_params={"lens": 1},
              bounds="a blocking producer, the buffer's own thread and a blocking reader (plain or cursor), a file with room for one record, at most 1 (thorough 2) preemptions"),
            E("b10_lock", ["locked_out", "taken"], mt=True, params={"lens": 2}, args=["--preempt", "1"], thorough_args=["--preempt", "2"], thorough_params={"lens": 1},
              bounds="locking, draining and flushing while a producer reserves and commits two records, at most 1 (thorough 2) preemptions"),
        ],
        bounds="two records, 2 or 3 threads, 1 preemption (thorough 2)",
        outside="more records and preemptions, weak memory orderings, several producers",
        assumptions=["std::thread is replaced by a stand-in that lets one of the harness's threads run what the buffer starts"],
    ),
    "W01": dict(
        group="flow",
        entries=[
            E("w01_flow", ["completed", "forked", "limit_hit", "match_limit", "no_room", "reset"], params={"steps": 3}, thorough_params={"steps": 4},
              bounds="one workflow, exclusive or parallel, of three states with two transitions each (counts 0-2, transitions to any later or earlier state but the first) and a final one; a traversal limit of 0-4, a matched-logs limit of 1-6; 3 logs (thorough 4) answering each of the 3 predicates either way"),
            E("w01_engine", ["less_room", "log", "restored", "session", "several", "update"], params={"steps": 3}, thorough_params={"steps": 4},
              bounds="an engine with two workflows and a limit of 0-5: every sequence of 3 (thorough 4) logs, new sessions, configuration updates (4 of them) and restarts (the same limit or one of 0-3)"),
        ],
        bounds="3 logs, 4 states, limits up to 5",
        outside="longer histories, more transitions, transitions back to the first state (the code asserts there are none)",
    ),
    "W02": dict(
        group="flow",
        entries=[
            E("w02_exclusive", ["both", "completed", "reset"], params={"steps": 3}, thorough_params={"steps": 4},
              bounds="an exclusive workflow of the shape of W01, a traversal limit of 1-4, with or without a matched-logs limit, 3 logs (thorough 4)"),
            E("w02_steps", ["at_once", "completed", "replaced", "stopped", "the_waiting_one_does_not_see_it"], params={"steps": 3}, thorough_params={"steps": 3},
              bounds="the same without a traversal limit, every step of both runs against a model, 3 logs"),
        ],
        bounds="3 logs, 4 states",
        outside="longer histories, transitions back to the first state",
    ),
    "W03": dict(
        group="flow",
        entries=[
            E("w03_counts", ["completed", "fired", "several"], params={"steps": 3}, thorough_params={"steps": 4},
              bounds="a parallel workflow of the shape of W01, every 32-bit count, 3 logs (thorough 4)"),
            E("w03_limited", ["completed", "fired", "several", "stopped"], params={"steps": 3}, thorough_params={"steps": 3},
              bounds="the same with a matched-logs limit of 1-6"),
            E("w03_expired", ["fired", "stopped"], params={"steps": 2}, thorough_params={"steps": 3},
              bounds="the same with a duration limit of 2 s, logs 0, 2, 3 or -5 s after one another, 2 logs (thorough 3)"),
        ],
        bounds="3 logs, 4 states, every count",
        outside="counts above the number of logs given are seen not to fire, not to fire; matchers (M01)",
    ),
    "W04": dict(
        group="flow",
        entries=[
            E("w04_push", ["cut", "whole"], params={"pushes": 6}, thorough_params={"pushes": 10},
              bounds="6 (thorough 10) nodes, counting toward the limit or not, every limit"),
            E("w04_flow", ["cut", "long", "several", "whole"], params={"steps": 4}, thorough_params={"steps": 5},
              bounds="two diagrams recorded by forking traversals, limits 0-4, 4 logs (thorough 5)"),
            E("w04_upload", ["known", "lost", "refused", "uploaded"], params={"steps": 3}, thorough_params={"steps": 4},
              bounds="3 (thorough 4) paths out of 4, intents and uploads answered either way or lost, the upload channel closed at any point"),
            E("w04_settled", ["forgotten"], params={"steps": 4}, thorough_params={"steps": 5},
              bounds="99 settled paths, then 4 (thorough 5) lookups or additions"),
        ],
        bounds="up to 6 nodes, 4 logs",
        outside="longer paths; collisions of SHA-256; node values whose concatenations coincide",
    ),
    "W05": dict(
        group="flow",
        entries=[
            E("w05_flush", ["already_pending", "flush", "flushed", "refused", "streamed"], params={"steps": 3}, thorough_params={"steps": 4},
              bounds="two flush actions with and without streaming, a log limit of 1-3 or none; after a log that triggers one, every sequence of 2 (thorough 3) logs, intent answers, completed or failed flushes, new sessions and buffer changes"),
            E("w05_stream", ["already_streaming", "flushed", "stream_over", "streamed", "update"], params={"steps": 3}, thorough_params={"steps": 3},
              bounds="the same with 3 operations once an upload is approved and its streaming is on"),
            E("w05_talk", ["approved", "dropped", "dropped_before", "lost", "nobody_to_ask"], params={"steps": 3}, thorough_params={"steps": 4},
              bounds="3 (thorough 4) actions out of two to negotiate, each intent lost up to twice, approved or dropped, the upload channel closed at any point"),
        ],
        bounds="5 operations, two actions, four buffers",
        outside="longer histories, more actions; a negotiation queue that is full (the action stays pending until a restart)",
    ),
    "W06": dict(
        group="flow",
        entries=[
            E("w06_restore", ["pending", "several", "streaming"], params={"steps": 3}, thorough_params={"steps": 4},
              bounds="every state reached by 3 (thorough 4) logs and intent answers from three workflows, stored and loaded, and one more log for both"),
            E("w06_damaged", ["decoded", "discarded"], bounds="a stored state cut at any length or with any one byte replaced by any other, then a log"),
            E("w06_outdated", ["all", "fewer"], bounds="every state reached by 2 logs, loaded with another configuration of the same name: 1-2 states with 0-3 transitions each, exclusive, and a traversal limit of 0-5; then a log"),
        ],
        bounds="3 logs, one damaged byte",
        outside="several damaged bytes, larger states; a flush under way is not part of the state",
    ),
    "W07": dict(
        group="flow",
        entries=[
            E("w07_metrics", ["counter", "histogram", "no_value"],
              bounds="three workflows with five metrics (counters and histograms, fixed values of 0, 1, 40 and 2^32-1, values and tags out of fields, of the level and of the type); one log that matches any of them, with 11 texts or nothing for the value, 3 for a tag, 2 levels and types, the value's field captured or for matching only"),
            E("w07_metrics", ["counter", "histogram", "no_value"], params={"few": 1, "logs": 2}, thorough_params={"few": 1, "logs": 3},
              bounds="the same over 2 logs (thorough 3) with 4 texts for the value"),
            E("w07_sankey", ["several", "two_paths"], params={"logs": 3}, thorough_params={"logs": 4},
              bounds="a diagram of one parallel workflow, or of two, over 3 logs (thorough 4) of 2 values and 2 tags"),
        ],
        bounds="5 metrics, 3 logs",
        outside="values that are infinite or no number; counters that pass 2^64; more dynamic metrics than the limit (C02); uploads of what was measured (C01, C05)",
    ),
    "L12": dict(
        group="logger",
        entries=[
            E("l12_order", ["no_clock", "not_of_the_process_before", "of_the_process_before", "replayed", "used_by_the_platform"], params={"ops": 2}, thorough_params={"ops": 3},
              bounds="every sequence of 2 (thorough 3) calls out of 9 (logs of two types, with and without an own value for a field, for the process before; field changes; new sessions; configurations), the logger getting its turn after any of them; no or any of the first two readings of the clock failing; a platform that uses the logger from within; with or without a process before"),
            E("l12_order", ["not_of_the_process_before", "of_the_process_before", "replayed"], params={"ops": 3, "plain": 1}, thorough_params={"ops": 4, "plain": 1},
              bounds="3 (thorough 4) of the calls with a process before and nothing failing"),
            E("l12_order", ["no_room", "replayed", "too_many_early"], params={"ops": 3, "plain": 1, "count": 2, "late": 1}, thorough_params={"ops": 4, "plain": 1, "count": 2, "late": 1},
              bounds="the same with room for 2, the configuration arriving at the end"),
            E("l12_order", ["refused", "replayed"], params={"ops": 2, "plain": 1, "refuses": 1, "turns": 1}, thorough_params={"ops": 3, "plain": 1, "refuses": 1, "turns": 1},
              bounds="2 (thorough 3) of the calls, each log passed on successfully or not, either queue looked at first"),
            E("l12_flush", ["configured", "waited"], bounds="a state flush before or after the configuration, with a log before and one after it; each of the two parts answered, given up or gone"),
            E("l12_waits", ["kept", "passed_on", "refused"], args=["--preempt", "1"], thorough_args=["--preempt", "2"], mt=True, thorough_time=1500,
              bounds="a thread that logs, flushes and shuts down, waiting each time, against the logger's; at most 1 (thorough 2) preemptions"),
            E("l12_counted", ["again", "says"], params={"logs": 3}, thorough_params={"logs": 4},
              bounds="3 (thorough 4) logs of 8 types with and without a message, the report on or off"),
        ],
        bounds="4 calls, room for 4, two threads",
        outside="the memory budget (L01, L02), what a log's fields look like in full (L04) and where it is written (L11); the session and workflow state a flush writes (S02, L11); a state flush from within the platform's callbacks",
    ),
    "L09": dict(
        group="logger",
        entries=[
            E("l09_usage", ["none", "some", "too_early"], params={"ops": 5}, thorough_params={"ops": 6},
              bounds="every sequence of 5 (thorough 6) operations out of a response (4 kinds of bytes, an ordinary or the largest size), a resource log, another log, or time passing (1 s, 30 s, 60 s, 60.001 s)"),
            E("l09_response", ["counted", "no_count", "online"], params={"fields": 3}, thorough_params={"fields": 3},
              bounds="a response with any 3 fields: status, size or unrelated, text (7 of them, valid or not, up to 2^64) or binary"),
            E("l09_offline", ["marked", "not_marked"], bounds="every log type from 0 to 16, every network state"),
        ],
        bounds="5 operations",
        outside="longer histories; sizes as text other than those listed",
    ),
    "L10": dict(
        group="logger",
        entries=[
            E("l10_updates", ["applied", "refused", "empty", "restarted"], params={"n": 2}, thorough_params={"n": 3},
              bounds="every sequence of 2 (thorough 3) messages or restarts: a configuration with any of its four parts, one that is refused, one with nothing in it, a message of another kind, a restart"),
            E("l10_crash", ["lost", "old", "new"], params={"points": 80}, thorough_params={"points": 200},
              bounds="a disk that is full after any number of further bytes, or a process killed after any number of changes to it, while the second configuration is kept or while starting"),
            E("l10_damaged", ["ignored"], params={"n": 3}, thorough_params={"n": 4}, bounds="every content of the kept file up to 2 (thorough 3) bytes"),
        ],
        bounds="2 messages (thorough 3), 80 fault points (thorough 200)",
        outside="what the logger does with a configuration (L11 and the properties of its parts); a file damaged in another way than by being cut short; power loss",
    ),
    "L11": dict(
        group="logger",
        entries=[
            E("l11_log", ["flushed", "stand_in", "stand_in_beside"],
              bounds="one log, every outcome of three buffer filters and two flush triggers (the first naming one, another, all or no existing buffer), with and without workflows, blocking or not"),
            E("l11_failing", ["flushed", "live", "locked", "no_room", "stand_in", "stand_in_beside"],
              bounds="the same with every write taken, locked out or without room, one flush trigger, and no, one or two live viewers"),
            E("l11_upload", ["flushed", "redirected", "refused", "stand_in", "stand_in_beside", "uploaded"],
              bounds="a log that triggers an upload of one, another or all buffers, with or without streaming; approved or refused; then any log"),
            E("l11_remembered", ["flushed", "just_kept", "remembered", "stand_in"], bounds="a blocking log, maybe right after another that changed another workflow, a new process, a log that completes the workflow"),
            E("l11_changed", ["flushed", "live", "screenshot", "stand_in", "with_workflows", "without_workflows"],
              bounds="a log, a change of the workflows flag, noticed or not, a change of buffers, filters, workflows and live viewers, then any log"),
        ],
        bounds="two logs, four buffers, three filters, two actions",
        outside="more logs, buffers and actions; what filters accept (M02), the workflows themselves (W01 to W06), the buffers (B01 to B12); a log write that fails in another way than locked or full",
        assumptions=["the blocking pool's write of the workflow state is done in place, while its caller waits a turn"],
    ),
    "B09": dict(
        group="logger",
        entries=[
            E("b09_config", ["applied", "kept", "refused", "removed"], params={"n": 3}, thorough_params={"n": 4},
              bounds="every sequence of 3 (thorough 4) updates naming any of two buffers, with or without live viewers, and maybe a bad one (of no known kind, first or last; with more memory than disk), loggers holding on to what they had or not"),
            E("b09_flush", ["flushed", "gone"], mt=True, args=["--preempt", "2"], thorough_args=["--preempt", "3"],
              bounds="a record in memory, a request for all, for any of two buffers or for one that is gone, in any order, then another; every interleaving with the buffer's own thread with at most 2 (thorough 3) preemptions"),
        ],
        bounds="3 updates (thorough 4); two requests, 2 preemptions (thorough 3)",
        outside="longer histories; a buffer that changes its kind (it keeps the old one); the file left behind by a buffer created before another one could not be",
        assumptions=["advisory file locks always succeed", "std::thread is replaced by a stand-in: the thread of a buffer without records runs when it is joined"],
    ),
    "Y01": dict(
        group="side",
        entries=[
            E("y01_screenshots", ["disabled", "full", "next", "not_ready", "taken"], params={"ops": 5}, thorough_params={"ops": 6},
              bounds="every sequence of 5 (thorough 6) operations out of a request, a log (the screenshot's, or another), a flag change, and the recorder running, which handles what came together in any order"),
            E("y01_unasked", ["several"], params={"ops": 4}, thorough_params={"ops": 5},
              bounds="every sequence of 4 (thorough 5) requests, screenshot logs asked for or not, and runs of the recorder"),
            E("y01_screens", ["called", "called_before_disabled", "waits", "zero"], params={"ops": 3}, thorough_params={"ops": 4},
              bounds="3 (thorough 4) flag changes, interval changes (1 s, 3 s, 0), time passing, or a flag change at the time a screen is due"),
        ],
        bounds="5 operations",
        outside="longer histories; the first source looked at is any, what follows in the same run is in the order written",
        assumptions=["`tokio::select!` is given its starting branch by the checker (harness/vh_select) instead of by a random number"],
    ),
    "Y02": dict(
        group="side",
        entries=[
            E("y02_ticks", ["called", "called_before_disabled", "stopped", "waits", "zero"], params={"ops": 4}, thorough_params={"ops": 5},
              bounds="4 (thorough 5) flag changes, interval changes (1 s, 3 s, 0), time passing, or a flag change at the time a report is due, in any order"),
        ],
        bounds="4 operations",
        outside="longer histories, other intervals",
        assumptions=["`tokio::select!` is given its starting branch by the checker (harness/vh_select) instead of by a random number"],
    ),
    "Y03": dict(
        group="side",
        entries=[
            E("y03_events", ["never_told", "started", "stopped"], params={"ops": 5}, thorough_params={"ops": 7},
              bounds="5 (thorough 7) flag settings and runs of the listener"),
        ],
        bounds="5 operations",
        outside="longer histories; a flag that is on before the listener exists (the cached configuration is loaded later)",
        assumptions=["`tokio::select!` is given its starting branch by the checker (harness/vh_select) instead of by a random number"],
    ),
}
NOT_APPLICABLE = {}
