"""What each check runs, how its evidence is described, and what it must at least have observed to give a verdict."""

V = [{"name": "virtual", "build": "virtual"}]

BUILD = ("The library is compiled from the working tree with a yield point before every statement and its sync locks "
         "replaced by equivalents that block durably on a virtual clock (build overlay; the tree is not changed).")
CLOCK = "Time is the virtual clock of testing/synctest; wall-clock jitter of time.Now and monotonic/wall divergence are not explored."
REDIS = ("The redis server is an in-memory stand-in speaking RESP over net.Pipe or loopback TCP (strings, hashes, keys, "
         "scan, expiry in ms, MULTI/EXEC/WATCH, Lua-free), not a real redis-server; one node, no replication or eviction.")
BOLT = "boltdb v1.3.1 is compiled from a copy that differs only by callbacks around its file writes, syncs and truncations."
MODEL = "The oracle is a sequential reference model written from the property and the documentation; it is trusted."


def hist(what):
    return ("Seeded random histories of provider calls (a part of them through a manager and Sessions), alternating over the "
            "memory, bolt and redis provider, with random options, token and id pools small enough to collide, and sleeps "
            "placed on deadlines +-1ns; every result is compared with the reference model and all sessions are re-observed "
            "at intervals and at the end. " + what + " A case is non-trivial when it performed calls whose results were "
            "judged; two cases are distinct when options, call kinds or results differ in sequence.")


CHECKS = {
    "C01": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: exhaustive token mutations against managers over a recording provider",
        rule="Each case makes managers with random keys and methods, issues tokens, and gives every manager every issued token "
             "and, for a token, all one-byte changes at each position, truncations, extensions, recombinations of parts and "
             "re-signings with other keys and methods; the oracle recomputes which strings are valid with crypto/hmac, and a "
             "recording provider shows that a rejected call never reached storage. Parallel cases do the same from several "
             "goroutines under perturbed schedules. Distinct: keys, method, ids or verdict sequence differ.",
        assumptions=[BUILD, "HMAC keys that are equal after zero padding to the block size are equivalent by definition of HMAC and are not told apart.",
                     "Strings with more than two dots are only required to be handled consistently with Split."],
        require={"accepted": 10000, "strings_rejected": 200000, "refreshes_rejected": 50000}),
    "C02": dict(
        level="exploration", parts=V + [{"name": "minimal", "extra": "minimal"}],
        technique="runtime monitoring: differential oracle against crypto/hmac, mutation oracle for Verify, concurrent registry histories",
        rule="Cases sign random and adversarial strings (empty, long, with dots, nul and non-UTF-8 bytes) under random keys (empty, "
             "shorter and longer than the block) with each algorithm, compare with crypto/hmac, and Verify every one-character "
             "change, padding, case change, trailing bits and cross-algorithm text; codec cases round-trip ids; registry cases "
             "compare a history of registrations and lookups with a map, also concurrently and with methods registered under "
             "aliases; a separate program that imports only the package checks each algorithm. Distinct: algorithm, key "
             "lengths, strings or verdict sequence differ.",
        assumptions=[BUILD],
        require={"verdicts": 200000, "lookups": 5000, "minimal_program_checks": 10}),
    "C03": dict(
        level="exploration", parts=V + [{"name": "race", "build": "race", "prop": "C03race", "shards": 2}],
        technique="runtime monitoring: uniqueness monitor over concurrent issuers; malformed-token histories against a reference model; race-detector build",
        rule="Issuing cases create and refresh tokens from several goroutines and managers on virtual and real clocks and collect every "
             "token and session id in one set, decode every id part and follow it over refreshes. Split cases compare Split and "
             "IsToken with a definition on random strings over a tiny alphabet with dots. Malformed cases give every token-taking "
             "operation of every provider and manager strings with a wrong number of parts and compare all sessions before and "
             "after. Distinct: histories differ in options, calls or results.",
        assumptions=[BUILD, REDIS, BOLT, MODEL, "At most 16384 session ids are taken at one frozen instant of the virtual clock (the width of the UUID clock sequence)."],
        require={"tokens_issued": 50000, "strings_split": 20000, "manager_calls_with_malformed_tokens": 20000}),
    "C04": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: online comparison with a reference model on a virtual clock, probes at every deadline +-1ns",
        rule=hist("Each deadline the model knows is visited one nanosecond (redis: one millisecond) before, at and after; option lists are all orders of random lifetime options."),
        assumptions=[BUILD, CLOCK, REDIS, BOLT, MODEL],
        require={"deadline_instants_observed": 4000, "operations": 100000, "option_lists": 1000}),
    "C05": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: online comparison of data operations with a reference model",
        rule=hist("Weights favour Put, Get, Keys and Delete with repeated keys, empty values, binary keys and large values."),
        assumptions=[BUILD, CLOCK, REDIS, BOLT, MODEL, "The empty key is a refused key on bolt."],
        require={"op_Get": 30000, "op_Put": 30000, "op_Keys": 30000}),
    "C06": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: online comparison of refreshes with a reference model",
        rule=hist("Weights favour Refresh with right, stale, swapped, foreign and mismatching tokens and with new tokens that already exist."),
        assumptions=[BUILD, CLOCK, REDIS, BOLT, MODEL],
        require={"op_Refresh": 40000}),
    "C07": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: online comparison of destroys with a reference model",
        rule=hist("Ids come from families of prefixes of one another, empty, with pattern characters and binary; every session of every id is re-observed after each destroy."),
        assumptions=[BUILD, CLOCK, REDIS, BOLT, MODEL, "The empty id is refused by bolt and therefore never stored there."],
        require={"op_Destroy": 20000, "op_DestroyByToken": 10000}),
    "C08": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: online comparison of evictions with a reference model, all tokens probed after each create",
        rule=hist("Limits 1 to 12, memory and bolt; bolt stores are closed and reopened with other limits."),
        assumptions=[BUILD, CLOCK, BOLT, MODEL, "Sessions that are dead but not yet removed count toward the limit."],
        require={"evictions": 20000, "reopenings": 1000}),
    "C09": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: recorded concurrent histories under perturbed schedules, offline linearizability checking (porcupine)",
        rule="Each case runs 2-6 goroutines of random calls on few tokens of one provider, with virtual sleeps injected at random yield "
             "points inside the library, background cleaning included, and checks the recorded history per session (memory, bolt: "
             "also as a whole) for a linearization of the reference model, then observes what is left. Distinct: the recorded "
             "order of call and return events and results differs.",
        assumptions=[BUILD, CLOCK, REDIS, BOLT, MODEL],
        require={"histories_judged": 2000, "overlapping_pairs": 20000}),
    "C10": dict(
        level="exploration", parts=[{"name": "race", "build": "race", "prop": "C10", "shards": 4}],
        technique="sanitizers: Go race detector and runtime concurrent-access checks over stress workloads with random delays at yield points",
        rule="Real-clock stress of providers, managers with Sessions, the registry and stores coming and going, 3-8 goroutines that "
             "share nothing in the harness and overwrite every buffer they passed or received once the call returned; random "
             "preemption at yield points. Any race report with a frame of the library or of a callerOwned function is a "
             "violation. Distinct: the observed global order of calls differs.",
        assumptions=["The race detector reports only races of executions that occurred.", REDIS,
                     "boltdb is compiled without checkptr instrumentation (v1.3.1 predates it)."],
        require={"overlapping_pairs": 100000, "operations": 50000}),
    "C11": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: close races under perturbed schedules, linearizability with Close in the model, goroutine census, database fingerprints",
        rule="Each case runs random calls from several goroutines with one or more racing Closes, judges the history, then makes every "
             "operation on the closed provider, requires every goroutine to be gone (bubble ends), compares a caller-owned "
             "database before and after, and reopens own files at once. Distinct: recorded order and results differ.",
        assumptions=[BUILD, CLOCK, REDIS, BOLT, MODEL],
        require={"calls_on_closed_providers": 10000, "own_files_reopened": 100, "application_databases_watched": 100}),
    "C12": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: walk of all memory reachable from the provider, of the raw bolt database and of the redis keyspace for marks of ended sessions",
        rule="Each session carries unique marks in token, refresh token, id, keys and values; after each way a session can end (counted "
             "as ended_*) the storage is walked and no mark of an ended session may be reachable. Growth cases end hundreds of "
             "sessions and compare the amount of storage with that of a fresh provider holding the same live sessions. Distinct: "
             "options, calls or results differ.",
        assumptions=[BUILD, CLOCK, REDIS, BOLT, MODEL, "Free pages of the bolt file and free capacity of Go maps and slices do not count as retained."],
        require={"walks": 5000, "items_walked": 50000, "died": 1000}),
    "C13": dict(
        level="fault_enumeration", parts=V,
        technique="runtime monitoring with fault injection: crash image at every file write and sync, reopened and compared with the model",
        rule="Histories of calls on bolt providers; for every operation, images of the file are taken at its writes and syncs as a process "
             "kill leaves them and as a power loss leaves them (random subsets and tears of writes not yet synced), reopened with "
             "the real provider and compared with the states before and after the operation. Restart cases close and reopen "
             "repeatedly. Distinct: the history differs.",
        assumptions=[BUILD, CLOCK, BOLT, MODEL, "Tears happen at 512-byte sectors; a sync makes earlier writes durable.",
                     "boltdb's own recovery is exercised, not trusted."],
        require={"crash_points": 10000, "power_loss_images": 2000, "kill_images": 2000}),
    "C14": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: overwriting of every passed and returned buffer, comparison of kept results with copies, faults on released memory",
        rule=hist("Each passed buffer is overwritten when the call has returned, each returned one is overwritten or kept; kept ones are "
                  "compared with copies after later calls, database growth, Clear, Close and unmapping (an access fault is a violation)."),
        assumptions=[BUILD, CLOCK, REDIS, BOLT, MODEL],
        require={"buffers_overwritten_after_the_call": 50000, "kept_results_compared": 50000}),
    "C15": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: online comparison of Session reads with a typed model over coders, destination types and prior contents",
        rule="Each case drives one or more Sessions of one stored session with each built-in coder: Put, Delete, Prepare, Keys and Get of "
             "values of many types into destinations of the same, convertible and unsuitable types with fresh, used and shared "
             "prior contents; what is read must be what decoding the stored encoding into a copy of a zero destination gives. "
             "Distinct: operation and type sequence differs.",
        assumptions=[BUILD, "encoding/gob, encoding/json and the xml coder define what decoding gives."],
        require={"reads_compared": 50000, "reads_into_unsuitable_types": 20000, "puts": 10000}),
    "C16": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: interleaved histories of neighbouring stores each against a model of its own, comparison of foreign data",
        rule="Two or three stores share one bolt database, redis server or process; each runs the history of the other properties against "
             "its own model, also with the tokens of its neighbours, in random alternation or in parallel; data the application "
             "put beside them is compared byte for byte. Distinct: options, calls or results of any store differ.",
        assumptions=[BUILD, CLOCK, REDIS, BOLT, MODEL, "Key prefixes and tokens are such that no two stores form the same redis key."],
        require={"foreign_data_compared": 2000, "operations_with_tokens_of_neighbours": 3000}),
    "C17": dict(
        level="fault_enumeration", parts=V,
        technique="runtime monitoring with fault injection at file writes, syncs, truncations and at redis commands; state re-observed after each",
        rule="Histories of calls with a fault armed at a random position among the file operations or server commands of a call: write "
             "error, short write, sync error, truncate error, connection dropped before or after execution, error reply, LOADING, "
             "server down, coder failure. A failed call must have left the state without or, only when its outcome was lost, "
             "with its full effect; later calls are judged as usual. Distinct: history, fault kind or results differ.",
        assumptions=[BUILD, CLOCK, REDIS, BOLT, MODEL],
        require={"operations_failed_by_fault": 10000, "faults_bolt_write": 3000, "faults_redis_drop_after": 1000, "slow_calls": 2000}),
    "C18": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: progress monitor on the virtual clock (a call blocked while everything sleeps, or exceeding a step bound, is a violation)",
        rule="Histories, alone and concurrent, with any batch size, clear interval, dead sessions in any number, repeated Close and Clear, "
             "injected storage errors and perturbed schedules; each call must return before the virtual clock has run 1000 h "
             "ahead and within a bound of executed statements, without panic. Distinct: recorded order and results differ.",
        assumptions=[BUILD, CLOCK, REDIS, BOLT, "Liveness is decided as a bound: 1000 virtual hours with nothing runnable, 20 million statements."],
        require={"calls_on_dead_sessions": 10000, "operations": 50000}),
    "C19": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: histories with hostile names against a reference model",
        rule=hist("Key names, tokens and ids are drawn from the providers' own names (metadata keys, bucket names, prefixes), other sessions' tokens and ids, and binary lookalikes."),
        assumptions=[BUILD, CLOCK, REDIS, BOLT, MODEL],
        require={"hostile_names_used": 50000}),
    "C20": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: Clear in random states against a reference model, raw scan of the bucket",
        rule=hist("Bolt only; Clear is called in fresh, filled, partly expired, reopened and closed states, then the raw bucket is scanned for marks and the limit is refilled."),
        assumptions=[BUILD, CLOCK, BOLT, MODEL],
        require={"clears": 3000, "clears_of_an_empty_store": 500}),
    "C21": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: observation before and after every reading or refused call, against a reference model and a twin without those calls",
        rule=hist("Reads, refused calls and unencodable values are frequent; in part of the cases a twin provider gets only the other calls and must stay indistinguishable."),
        assumptions=[BUILD, CLOCK, REDIS, BOLT, MODEL],
        require={"refused_calls": 3000, "failed_session_puts": 1000}),
    "C22": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: recording and scripted providers behind the manager, comparison of calls, results and errors",
        rule="Scripted cases let a provider stand-in answer with random results and errors and compare what the manager passed down and "
             "handed back; history cases compare a manager over a real provider with direct calls; option cases make several "
             "managers side by side. Distinct: options, calls or answers differ.",
        assumptions=[BUILD, CLOCK, REDIS, BOLT, MODEL, "Session.Put and Prepare with nothing to do may or may not reach the provider."],
        require={"scripted_calls": 20000, "managers_side_by_side": 1000}),
    "C23": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: histories spread over several providers on one storage against one reference model; linearizability across them",
        rule=hist("Two to four bolt providers with one database and bucket, or redis providers with one server and prefix and clients of "
                  "their own, share each history (part of them through managers with one key); every call goes to a random one of "
                  "them, which are also closed and opened again; parallel cases give each goroutine a provider of its own and judge "
                  "the common history with porcupine."),
        assumptions=[BUILD, CLOCK, REDIS, BOLT, MODEL, "With a limit on any of them, all have the same lifetimes."],
        require={"operations": 100000, "node_restarts": 2000, "histories_judged": 1000}),
    "C24": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: constructors timed on the virtual clock against locked files; comparison of files, databases, goroutines and options afterwards",
        rule="Locked-file cases let one provider hold a bolt file for a random virtual time while others with timeouts around it open it, "
             "and judge when and how each New returned; file cases compare names, modes, the caller's database and what a failed New "
             "left behind; option cases use option values for several providers and probe limits and lifetimes of each; URL cases "
             "serve 16 databases with users on loopback and look where the keys went. Distinct: timeouts, outcomes, modes, URLs differ.",
        assumptions=[BUILD, CLOCK, REDIS, BOLT, "Waiting may differ from its bound by half a second.", "The umask is 022."],
        require={"files_waited_for": 500, "timeouts": 300, "openings_refused": 1000, "modes_compared": 300, "urls_opened": 100}),
    "C25": dict(
        level="exploration", parts=V,
        technique="runtime monitoring: differential oracle: one history on memory, bolt and redis providers side by side, on one virtual clock",
        rule="Every call of a random history (Create, Refresh, Destroy, data and waits that end at, before and after deadlines) is made on a memory, "
             "a bolt and a redis provider (or the first two with one limit) with the same lifetimes and different batch sizes, clear intervals "
             "and storage options; in part of the cases through managers and Sessions with a built-in coder. Values, key sets and the exported "
             "error that errors.Is finds must be the same, and every error is one of them at most. Distinct: options, calls or answers differ.",
        assumptions=[BUILD, CLOCK, REDIS, BOLT, "Lifetimes and waits are whole milliseconds; ids and keys are neither empty, reserved nor longer than bolt allows; a Refresh has one fault at a time."],
        require={"answers_compared": 300000, "errors_told_apart": 100000}),
}

LEVEL_NOTE = {
    "exploration": "Holds on every execution observed (counts in the evidence file); sampled executions under a seed, not a proof.",
    "fault_enumeration": "Holds on every execution and injected fault observed (counts in the evidence file); histories are sampled, "
                         "fault positions within them are covered densely; not a proof.",
}
