#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, state, mech, obs, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=obs, hook_needed=hook)))

S, Q, W, H = "src/system.rs", "src/queue.rs", "src/pow.rs", "src/cache/hashcache.rs"
C, M, MC, D = "src/master/embedded/counter.rs", "src/master/embedded/master.rs", "src/mcaptcha.rs", "src/defense.rs"
RC, RM, RR, RX = "src/cache/redis.rs", "src/master/redis/master.rs", "src/redis/mcaptcha_redis.rs", "src/redis/mod.rs"

p("C01", "A pass token is minted only for a sufficient, genuine proof",
  "verify_pow returns a token only if the submitted string is a challenge that get_pow issued for the very site key submitted, and the submitted nonce and result are a correct proof of work over that string and the system's salt that reaches the difficulty at which the challenge was issued. The difficulty reported with the token is the difficulty at which that challenge was issued, whatever the site's difficulty is by then. This holds for every mix of concurrent honest and hostile submissions, whatever the schedule of client tasks, cache, queue manager and workers.",
  ["inputs", "schedules", "histories"],
  "All interleavings of concurrent get_pow/verify_pow calls from several threads or tasks over several sites, with forged, insufficient, foreign-salt, foreign-string, wrong-key and garbage work, cancelled calls and stalled workers.",
  "The existing test submits four payloads sequentially on one site; it cannot see verdicts swapped between concurrent jobs, stale verdicts, or hostile result/nonce/key combinations.",
  [S, Q, W, H],
  [("difficulty_map", "challenge string -> key, difficulty, duration", H), ("QueuedWork", "one submission with its own verdict channel", W)],
  [("cache lookup and key comparison before queueing", S), ("QueuedWork::validate: difficulty then proof check, verdict over the job's own channel", W)],
  ["result of System::verify_pow", "results of System::get_pow", "independent SHA-256 recomputation of the proof in the harness"])
p("C02", "A challenge can be cashed in at most once",
  "For every issued challenge at most one verify_pow call ever succeeds, no matter how many calls race on it, from which clients, addresses or threads, and whether some of them are cancelled. Once a submission for the challenge under its own site key has been judged (accepted, or rejected for its proof), no submission that starts later is accepted.",
  ["schedules", "histories"],
  "All interleavings of two or more submissions of the same challenge (valid or not, same or other key, cancelled at any await point), to the same or to several systems around the same cache, with each other, with expiry and with unrelated traffic.",
  "The only test submits each challenge once, sequentially.",
  [S, H, Q],
  [("difficulty_map", "a challenge is removed when it is read", H)],
  [("RetrivePoW reads and removes in one message", H), ("verify_pow consumes before it judges", S)],
  ["results of concurrent System::verify_pow calls on the same string"])
p("C03", "A token validates at most once, and only for its own site",
  "validate_verification_tokens returns true for a token at most once, only if the token came out of a successful verify_pow, and only for the site key for which that proof was verified. Unknown, already used and foreign-site tokens give false or an error, under every interleaving of validators.",
  ["schedules", "inputs", "histories"],
  "All interleavings of validators racing on the same token, on one or several systems around the same cache, with right and wrong keys, never-issued strings, challenge strings presented as tokens, and concurrent minting.",
  "The existing test validates one token once and one junk token once, sequentially.",
  [S, H, "src/cache/mod.rs"],
  [("result_map", "token -> site key", H)],
  [("VerifyCaptchaResult removes the entry and compares the key", H), ("CacheResult is built from the retrieved challenge's key", "src/cache/mod.rs")],
  ["results of System::validate_verification_tokens"])
p("C04", "Challenges and tokens live for the site's duration, no more, no less",
  "An unspent challenge, and likewise an unused token, remains usable for the site's configured duration (in seconds, as configured when the challenge was issued) after it was stored, and is refused once that time has passed. Real-time clock jumps, removal or renaming of the site, and other challenges' or tokens' expiry have no influence on it.",
  ["schedules", "histories", "fault_sequences"],
  "All placements of submissions and validations relative to the expiry instant (with simulated time), several sites with different durations, wall-clock jumps forwards and backwards, stalls and bursts of unrelated traffic.",
  "The cache tests sleep a few real seconds once with one entry; they cannot place operations close to both sides of the expiry, nor jump the wall clock.",
  [H, S, "src/cache/mod.rs"],
  [("expiry timers", "one sleep per stored entry", H)],
  [("CachePoW / CacheResult handlers schedule DeletePoW / DeleteCaptchaResult after `duration`", H)],
  ["System::verify_pow and System::validate_verification_tokens at chosen simulated times"])
p("C05", "An honest client always gets its pass",
  "A first submission of an unexpired challenge, with its site's key and a correct proof, that is neither cancelled nor refused with QueueFull, succeeds; its fresh token then validates as true when it is presented for the first time, for that site, within its lifetime. get_pow for a registered site always yields a challenge carrying the system's salt and one of the site's difficulties; this holds in any concurrent mix with hostile traffic, other sites, expiry and cancellations.",
  ["schedules", "inputs", "histories", "configurations"],
  "All interleavings of honest round trips with hostile, cancelled and duplicate traffic over worker counts 1..4, queue lengths, thread layouts and per-site durations.",
  "The existing test runs one round trip on an idle system with two workers.",
  [S, Q, W, H, M],
  [("queues", "per-IP job queues", Q)],
  [("issue -> cache -> queue -> worker -> token pipeline", S)],
  ["System::get_pow, System::verify_pow, System::validate_verification_tokens"])
p("C06", "Every submitted proof gets a verdict in bounded time",
  "Every verify_pow call that is not cancelled returns within a bounded time once its turn comes: no admitted job is lost or left waiting while workers are idle, whatever the number of workers, the number and order of distinct client addresses, the content of the submissions and the cancellations of other calls. After any burst the pool goes on serving.",
  ["schedules", "inputs", "histories", "configurations"],
  "All interleavings of submissions from any number of addresses with workers and the queue manager, 1..4 workers, invalid work, cancelled calls, stalled workers; calls made from one executor thread and from several.",
  "manager_works submits two jobs of one address; abuse_manager drains an empty range and so never waits for any job. No test submits from three addresses to one worker.",
  [Q, S, W],
  [("currnet_index / ips", "round-robin cursor over addresses", Q), ("runners", "worker threads and their channels", Q)],
  [("dispatch on schedule and on completion", Q), ("one verdict per job over its own channel", W)],
  ["completion time of System::verify_pow in simulated time"])
p("C07", "QueueFull is returned exactly when the backlog is real",
  "verify_pow fails with QueueFull only while submissions from at least queue_length distinct addresses are outstanding; once they have been served, submissions are accepted again. Conversely the backlog is bounded: the submissions accepted and not yet answered never come from more than queue_length plus the number of workers distinct addresses.",
  ["schedules", "histories", "configurations"],
  "All histories of bursts and pauses over more distinct addresses than queue_length, for queue_length 1..6 and 1..3 workers, with slow workers.",
  "No test ever reaches queue_length; abuse_manager uses a limit it cannot reach.",
  [Q, S],
  [("queues / queue_length", "addresses with queued work", Q)],
  [("admission test in InnerManager::schedule", Q)],
  ["results of System::verify_pow against the set of calls in flight"])
p("C08", "A flood from one address cannot starve another",
  "Worker time is shared between client addresses in rotation: a submission waits at most for a number of jobs proportional to the number of addresses with outstanding work (times one plus its own address's earlier outstanding jobs), not for the whole backlog of another address. This holds for any flood size and any number of workers.",
  ["schedules", "histories", "configurations"],
  "All arrival orders of a flood of tens of jobs from one or two addresses and single jobs from others, with proof checking taking simulated time, 1..3 workers.",
  "No test measures order or waiting time; jobs in tests are instantaneous.",
  [Q],
  [("queues / ips / currnet_index", "per-address queues and rotation", Q)],
  [("round-robin pick in dispatch_to", Q)],
  ["completion times of System::verify_pow with simulated verification cost"])
p("C09", "The visitor count is exactly the visits of the last duration",
  "At any moment a site's visitor count equals the number of visits (direct or through get_pow) recorded for that site within the last `duration` seconds: every acknowledged visit is counted at once, for exactly the site's duration, and never for another site. It neither drifts, sticks nor goes below zero, under any interleaving, burst and wall-clock jump.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of visits, get_pow calls and count reads over several sites and durations at chosen simulated times, including bursts larger than the mailbox, cancelled visits, renames and clock jumps.",
  "Counter tests add visitors in one burst, sleep in real time and look once.",
  [C, M, MC],
  [("visitor_threshold", "current count", MC)],
  [("AddVisitor schedules DeleteVisitor after `duration`", C), ("get_pow sends AddVisitor once", S)],
  ["GetSite + GetCurrentVisitorCount", "GetInternalData"])
p("C10", "Difficulty follows load, one level per visitor",
  "The difficulty given to a visitor is always one of the site's configured levels, starts at the lowest, and moves by at most one level per visitor. While more visitors than a level's threshold are counted, each new visitor raises the level until the load's level is reached, and it then stays there as long as the load stays in that band; when the load falls to or below the previous level's threshold each new visitor lowers it by one.",
  ["histories", "schedules", "configurations"],
  "All visit histories (bursts, steady load in each band, decay, idle) over 1..4 levels and several durations in simulated time, with concurrent visitors on several sites.",
  "Tests check two levels after exactly full bursts, where an oscillating level happens to look right.",
  [MC, D, C],
  [("current_visitor_threshold", "index of the current level", D)],
  [("MCaptcha::add_visitor", MC), ("tighten_up / loosen_up", D)],
  ["difficulty_factor in AddVisitor results and get_pow results"])
p("C11", "The site registry is a linearizable map of isolated sites",
  "Acknowledged AddSite, Rename and RemoveCaptcha take effect atomically, in an order consistent with real time: a visit to a name is served with the configuration most recently registered under it, and a name never registered, removed or renamed away has no site. Renaming keeps the site's configuration and load; adding a site afresh starts it with no load; operations on one site never change another.",
  ["schedules", "histories"],
  "All interleavings of several clients' AddSite, Rename, RemoveCaptcha, visits and lookups on a handful of colliding names, including renames onto taken names and operations on absent ones.",
  "The master tests perform each operation once, sequentially.",
  [M, S],
  [("sites", "name -> counter actor", M)],
  [("single-threaded actor handlers for AddSite / Rename / RemoveCaptcha / AddVisitor", M)],
  ["AddVisitor results (each registration has a unique duration), GetSite, GetInternalData, get_pow"])
p("C12", "Garbage collection removes idle sites only, and does remove them",
  "Periodic clean-up never removes a site that has a visitor within its duration, nor one not looked up since it was registered or renamed, nor a site registered again or renamed under a collected name; an acknowledged visit is never lost to it, and a visit to a registered name is either counted or told that there is no such site. This includes sites whose state was restored from a snapshot while clean-up runs. A site that was visited and then left idle is unregistered and its counter stopped within about two clean-up periods after its last visitor expired, and it can be registered again.",
  ["schedules", "histories"],
  "All interleavings of clean-up rounds with visits, renames, removals and re-registrations, at simulated times around visitor expiry and the clean-up period, with stalled tasks.",
  "One test lets one idle site be collected; nothing runs concurrently with the clean-up.",
  [M, C],
  [("sites' read flag", "looked up since registration", M)],
  [("CleanUp task: count query, Stop, RemoveCaptcha, re-arm", M)],
  ["AddVisitor results, GetInternalData, Addr<Counter>::connected"])
p("C13", "Snapshot and restore preserve every site across a crash",
  "GetInternalData returns every registered site with its configuration, current level and visitor count. After SetInternalData of such a snapshot is acknowledged - on a fresh master after a crash or on a live one - every site in it is registered with that configuration, level and visitor count, and the restored visitors leave the count within one duration, no earlier than new visitors' own duration allows and never dragging the count below the visits made since.",
  ["crash_points", "schedules", "histories"],
  "Crash at any simulated time with only the serialized snapshot surviving, restore into a fresh or live master, concurrent visits before, during and after, repeated restores.",
  "The tests restore into a master that already holds the site and compare once.",
  [M, C, MC],
  [("MCaptcha snapshot", "config + level + visitors", MC)],
  [("GetInternalData / SetInternalData handlers", M), ("BulkDecrement after restore", C)],
  ["GetInternalData, AddVisitor results, GetCurrentVisitorCount after restore"])
p("C14", "No client or admin action takes a component down",
  "No sequence of client requests (however malformed, duplicated or cancelled midway), admin operations and clean-up rounds makes any task or thread of the system panic or stop serving. After any such history a new site can be registered and an honest client completes a full round trip.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "All interleavings of hostile and cancelled client calls, site administration, snapshots, restores and clean-up, over both thread layouts.",
  "Tests never cancel a call, never race administration with clean-up and only send well-formed work.",
  [S, Q, W, H, M, C],
  [("actor mailboxes and worker threads", "a panicking handler or task kills its actor or worker", M)],
  [("error results instead of panics", "src/errors.rs")],
  ["panic hook, liveness probe (AddSite, get_pow, verify_pow, validate) at the end of each run"])
p("C15", "Redis faults surface as errors in bounded time and heal",
  "With the Redis-backed cache and master, every call returns within a bounded time whatever the connection does (refused, reset before or after the command ran, delayed, torn or malformed replies, error replies), failing with an error (get_pow may also report that there is no challenge) and never with a panic or a wrong acceptance. Once Redis is reachable again the same system instance serves honest round trips again, and constructing the backends succeeds if Redis is reachable and offers the mCaptcha module with all its commands, and returns an error otherwise.",
  ["fault_sequences", "schedules", "histories"],
  "All sequences of connection faults at every command and reply boundary, with concurrent clients and cancellations, followed by a healthy period.",
  "The Redis tests need a live module-enabled server and inject nothing.",
  [RC, RM, RR, RX],
  [("shared ConnectionManager", "one connection per backend", RX)],
  [("CaptchaResult propagation from redis-rs", RR), ("ConnectionManager reconnect", RX)],
  ["System calls against a simulated Redis server with fault injection"])
p("C16", "With Redis, passes stay single-use and site-bound across faults and restarts",
  "With Redis as the shared store, each challenge is accepted at most once and each token validates as true at most once, only for its own site and within its lifetime, even across lost replies, reconnects, several library instances sharing the store, and crash and restart of the library; whatever Redis acknowledged survives a library restart for the rest of its lifetime.",
  ["fault_sequences", "crash_points", "schedules", "histories"],
  "All interleavings of two library instances and of restarts with connection faults around each command.",
  "The Redis tests exercise each command once against a healthy server.",
  [RC, RR, RX],
  [("mcaptcha:token:<site>:<token>", "token key in Redis, with expiry", RR), ("module challenge objects", "challenge per site with expiry", RR)],
  [("atomic DEL decides token validity", RR), ("GET_CHALLENGE consumes", RR)],
  ["System calls against a simulated Redis server; server-side command log"])
p("C17", "Shutting the system down terminates all its threads",
  "Dropping the System returns in bounded time and leaves none of its worker or manager threads running, whatever work is queued, running, cancelled or already answered at that moment and however many workers there are. Creating and dropping systems repeatedly leaks no thread.",
  ["schedules", "histories", "configurations"],
  "All interleavings of drop with queued, running and cancelled jobs, 1..4 workers, stalled workers.",
  "manager_works drops an idle manager once.",
  [Q],
  [("Manager / InnerManager / RunnerThread handles", "join handles", Q)],
  [("Stop messages and joins in Drop", Q)],
  ["drop(System) in the simulator: thread census before and after, simulated time taken"])
p("C18", "Nothing is handed out that storage did not confirm",
  "get_pow returns a challenge only after the cache has acknowledged storing exactly that challenge under the requested site, with the difficulty and duration the master reported; verify_pow returns a token only after the cache has acknowledged storing exactly that token for the challenge's site and duration. If master or cache fails, stalls, dies or drops its reply, the caller gets an error or no challenge in the case of the master, nobody else is affected, and later calls work once the component does.",
  ["fault_sequences", "schedules"],
  "All placements of failed, delayed, dropped and lost-after-effect replies and component crashes among concurrent calls, through user-supplied implementations of the Save and Master traits.",
  "No test replaces a component or fails one.",
  [S, "src/cache/mod.rs", "src/master/mod.rs"],
  [("Addr<Save>, Addr<Master>", "the two pluggable components", S)],
  [("awaiting and propagating both the mailbox and the reply result", S)],
  ["fault-injecting Save/Master implementations in the harness and their message logs"])
p("C19", "Challenge and token strings never repeat",
  "Every challenge and every token string is unique across sites, threads, simultaneous requests and restarts of the process, and is determined by operating-system entropy rather than by time, addresses or counters: two executions that differ only in that entropy share no string.",
  ["schedules", "histories", "crash_points"],
  "All interleavings of concurrent minting on several threads, and pairs of executions of the same plan, clock and schedule seeds with different entropy.",
  "No test compares two strings.",
  ["src/utils.rs", W, "src/cache/mod.rs"],
  [("thread-local generator", "source of strings", "src/utils.rs")],
  [("get_random(32)", "src/utils.rs")],
  ["strings returned by get_pow and verify_pow"])
p("C20", "The Redis-backed registry does what it acknowledges",
  "With the Redis-backed master an acknowledged AddSite, Rename or RemoveCaptcha has taken effect in Redis for exactly the named site with exactly its levels and duration, a visit returns the difficulty and duration Redis reports, and queries (exists, visitors, delete challenge, delete token) reflect the store; a failure reported by Redis is reported to the caller and not acknowledged.",
  ["fault_sequences", "schedules", "histories"],
  "All interleavings of administration and visits by several clients over the simulated Redis with error replies and connection faults.",
  "The Redis master test needs a live module-enabled server and runs each command once.",
  [RM, RR],
  [("MCAPTCHA_CACHE.* commands", "wire protocol of the module", RR)],
  [("command construction and reply decoding", RR)],
  ["results of master messages and MCaptchaRedis calls against the simulated server's state and command log"])
p("C21", "Builders accept exactly the valid configurations",
  "LevelBuilder, DefenseBuilder and MCaptchaBuilder accept a configuration if and only if it has at least one level, non-zero difficulties, distinct thresholds, difficulties that do not decrease with the threshold, and a non-zero duration.",
  ["inputs", "configurations"],
  "All builder call sequences.",
  "Tests check one example per error.",
  [D, MC],
  [],
  [("validation in the build methods", D)],
  ["builder results"])
p("C22", "Snapshots keep their serialized form across versions",
  "A snapshot serialized by one version of the library deserializes in the next with the same meaning.",
  ["inputs"],
  "All serialized snapshots of earlier releases.",
  "No test holds a recorded snapshot.",
  [MC, D, C],
  [],
  [("serde derives", MC)],
  ["serde_json round trip"])
p("C23", "What is spent or expired is forgotten",
  "The memory the system holds, and the number of keys it keeps in Redis, are bounded by what is alive: once its challenges and tokens have been used or have expired, its visitors' durations are over, its submissions are answered, refused or abandoned, and its sites are removed or collected, a round of use leaves nothing behind, whatever mix of clients, addresses, sites, cancellations, faults and system restarts it consisted of. Repeating it any number of times does not make the system grow.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of rounds of mixed use (honest, hostile, abandoned and refused submissions from ever new addresses, sites registered, replaced, renamed, removed or left to clean-up, snapshots and restores, Redis faults, systems dropped and rebuilt), each followed by enough simulated time for everything to expire.",
  "No test looks at memory, and growth shows only over repeated rounds that outlast every timer.",
  [H, Q, M, C, S, RR],
  [("difficulty_map, result_map", "unspent challenges and tokens", H), ("queues, ips, idle", "backlog per address", Q), ("sites", "registered counters", M), ("token keys", "expiring keys in Redis", RR)],
  [("DeletePoW / DeleteCaptchaResult timers", H), ("per-address queues are dropped when empty", Q), ("clean-up and Stop", M), ("SET .. EX", RR)],
  ["live allocations of the process outside the simulator after each round", "keys of the simulated Redis server"])
p("C24", "Deleting a challenge or token is immediate, final and exact",
  "Once the embedded cache has acknowledged the deletion of a challenge (DeletePoW) or of a token (DeleteCaptchaResult), no verify_pow or validate call that starts later accepts it, unless it was stored again. Deleting something unknown, already used or similar succeeds and changes nothing, and no deletion affects another challenge or token: an honest first use of what was not deleted since it was stored succeeds within its lifetime.",
  ["schedules", "histories", "inputs"],
  "All interleavings of deletions with submissions, validations and expiry of the same and of other challenges and tokens, with strings that are nearly right, repeated deletions, and several systems sharing the cache.",
  "The messages are only sent by the cache's own timers; no test sends one, let alone while the entry is in use.",
  [H, "src/cache/mod.rs"],
  [("difficulty_map, result_map", "unspent challenges and tokens", H)],
  [("DeletePoW / DeleteCaptchaResult handlers", H)],
  ["System::verify_pow and System::validate_verification_tokens after the acknowledged deletion"])
p("C25", "Waiting for a verdict holds up nobody else",
  "However many verify_pow calls wait for proofs to be checked, and however long that takes, every call that needs no proof to be checked (get_pow, token validation, visits, visitor counts, adding, removing, looking up and snapshotting sites, deletions, and verify_pow calls that are refused because the challenge is unknown, the key is wrong or the queue is full) returns in ordinary time, also on the very thread (executor) the waiting calls were made from, and visitors go on expiring on time. The waiting calls themselves are served by all workers at once: n submissions of equal cost waiting in one system with w workers have their verdicts after about (n/w + 1) times that cost, whether they were made from one executor or many, by one address or many, for one site or many; systems that share their master and cache do not wait for each other's workers.",
  ["schedules", "histories", "timing"],
  "All schedules and any number of slow submissions, from one or several executors, with and without abandoned calls, with few or many workers, short and long queues, embedded and Redis storage, together with any other traffic.",
  "Proofs take microseconds in the tests, which make one call at a time: nobody is ever there to be held up, and no two proofs are ever due at once.",
  [S, Q, W],
  [("verdict channel", "what verify_pow waits for", S), ("idle, ips, queues", "free workers, addresses and jobs that wait", Q)],
  [("System::verify_pow", S), ("InnerManager::dispatch_to", Q), ("QueuedWork::validate", W)],
  ["duration of every call in simulated time, proofs taking 0.5 s to 20 s each", "visitor counts while proofs are checked"])
p("C26", "A system that has nothing to do is at rest",
  "While no call is in progress, or all calls in progress wait for proofs that are being checked, no thread of the system (executors, master, cache, counters, queue manager, workers, Redis clients) runs in circles: apart from the proofs themselves it only reacts to timers that are due, whatever happened before - traffic, abandoned calls, sites added, renamed and removed, clean-ups, systems dropped and built again.",
  ["schedules", "histories"],
  "All histories of use followed by any idle time, under all schedules.",
  "A thread that polls gives all the right answers; no test looks at what an idle system does.",
  [Q, S, M, H],
  [("rx", "what workers and manager wait for", Q), ("gc", "period of the clean-up", M)],
  [("RunnerThread::run, InnerManager::run", Q), ("CleanUp", M)],
  ["basic blocks executed and scheduling steps taken per simulated second of an idle stretch"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
