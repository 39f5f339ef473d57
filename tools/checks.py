"""What each check runs, and how its evidence is to be read."""

SEQ = ("A case is a generated history of about 60 API requests, virtual-time sleeps, maintenance runs and (where relevant) restarts, executed against the real "
       "router, controllers and in-memory engine inside a synctest bubble, biased towards this property. After every operation the response and the complete stored state are compared with the "
       "reference model. An observation counts as distinct and non-trivial when the pair of request and response, virtual timestamp included, differs from all others.")
TRUST = ["the reference model in harness/h/model.go states the property", "testing/synctest virtual time behaves like real time for the code under test"]


def seq(n=100, thorough=4000, **kw):
    d = {"pkg": "core", "quick": n, "thorough": thorough}
    d.update(kw)
    return d


def conc(n=100, thorough=3000, **kw):
    d = {"pkg": "conc", "overlay": "yield", "quick": n, "thorough": thorough}
    d.update(kw)
    return d


def entry(parts, technique, note, rule=SEQ, level="exploration", floor=1000, min_events=None, assumptions=TRUST):
    return {"parts": parts, "technique": technique, "level_note": note, "rule": rule, "level": level, "floor": floor, "min_events": min_events or {}, "assumptions": assumptions}


ONLINE = "online model-based trace checking of generated histories on the real server in virtual time"
NOTE = "Exploration: holds on every generated history of the run (16000 quick, 640000 thorough); trusts the reference model and virtual time."

CHECKS = {}
for _id, _min in {
    "C01": {"claims": 1000}, "C03": {"op:commit": 5000, "claims_in_a_row": 50000}, "C04": {"op:chore": 3000}, "C05": {"claims": 3000}, "C06": {"op:delTopic": 500},
    "C07": {"op:chore": 3000}, "C08": {"restored_tasks": 1000}, "C10": {"op:insTasks": 3000}, "C11": {"op:commit": 5000}, "C12": {"op:listProms": 3000},
    "C13": {"op:listTasks": 3000}, "C14": {"status:400": 5000}, "C26": {"op:restart": 300},
}.items():
    CHECKS[_id] = entry([seq()], ONLINE, NOTE, min_events=_min)

CONC = ("A case is a generated schedule: several rounds of concurrent API requests and maintenance runs from several goroutines against the real router and in-memory engine, built with random yield points "
        "before every statement of the handlers and engines; the virtual clock is frozen within a round. Every round is recorded as a history with invocation and response order and decided by an exact linearizability "
        "checker (porcupine) against the reference model. An observation counts as distinct when the history as a whole differs from all others.")
CHECKS["C02"] = entry([conc(500)], "linearizability checking of recorded concurrent histories with injected yield points",
                      "Exploration: holds on every recorded history of the run; schedules are randomized, not enumerated.", rule=CONC, min_events={})
for _id in ["C01", "C03", "C04", "C10", "C12"]:
    CHECKS[_id]["parts"].append(conc(25))
CHECKS["C16"] = entry([seq()], "differential trace checking of client calls against the reference model", NOTE)
CHECKS["C25"] = entry([seq()], "differential trace checking of route, encoding and origin variants against the reference model", NOTE)

FAULT = ("A case is a generated storage error (kind, wrapping and message) injected into every operation of the API, observed as the raw response of each endpoint and as the error of each client method. "
         "An observation counts as distinct when operation, kind, status and message differ.")
CHECKS["C17"] = entry([seq()], "fault injection at the storage interface with monitors on responses and client errors",
                      "Exploration: every operation and client method with 6000 generated errors of all kinds; the message and wrapping space is sampled.", rule=FAULT, min_events={"failures:conflict": 1000}, assumptions=[])

CHECKS["C16"]["rule"] = SEQ + " For this property every request is made through the client library over an in-memory network. A second family of cases calls every method against a scripted server that records what arrives and stalls, fails or answers garbage; there an observation counts as distinct when method, request and kind of misbehaviour differ."
CHECKS["C18"] = entry([seq()], "online monitor of subscription traces against a timed specification, with injected faults, in virtual time",
    "Exploration: 4000 generated subscription runs with exact timing; options, faults, latencies and schedules are sampled.",
    rule="A case is a run of one to three concurrent subscriptions with generated options against the real server, with injected poll and commit failures, latencies, handler durations, own commits and cancellation. Every poll, claim, handler call, commit and interval is checked against a timed specification. An observation counts as distinct when the complete timed event log of a subscription differs from all others.",
    min_events={"expired_deliveries": 500, "commits_given_up": 100, "tasks_delivered": 3000, "errors_delivered": 500, "failed_commits": 300}, assumptions=TRUST[1:])
CHECKS["C19"] = entry([seq()], "monitors on task contexts and on recorded commits against the handler's intent, with injected faults, in virtual time",
    "Exploration: 6000 generated poll, setter, commit and failure sequences; trusts virtual time.",
    rule="A case is a task claimed with generated times (clock skew included) and parent context, followed either by watching exactly when its context ends or by rounds of random setter chains and commits with injected failures, each request on the wire being compared with what was last set. An observation counts as distinct when the commit sent or the timing constellation differs.",
    min_events={"commits": 5000, "repeated_commits": 500, "failed_commits": 1000, "contexts_watched": 500, "late_commits": 500, "stalled_commits": 40}, assumptions=TRUST[1:])
CHECKS["C20"] = entry([seq(60)], "conservation checking of metrics against recorded request outcomes",
    "Exploration: 216 generated histories of 50 requests accounted for exactly, one by one, and 72 concurrent bursts accounted for as a whole.",
    rule="A case is a generated history; the exposition is scraped and strictly parsed after every request and the change of every series is compared with what the request's outcome implies (counters under the labels of the tasks concerned, gauges from the task's times, one histogram observation). Every fourth case is a burst of concurrent requests compared as a whole. An observation counts as distinct when series and change differ.",
    min_events={"requests_accounted": 8000, "bursts_accounted": 50}, floor=200, assumptions=TRUST[1:])
CHECKS["C15"] = entry([seq()], "byte-level request fuzzing over real connections with monitors on framing, status and shape",
    "Exploration: 1600 generated sessions of 50 requests; request bytes are sampled from a grammar of plausible, malformed and hostile forms.",
    rule="A case is a session of 50 generated requests sent as bytes over in-memory connections to the real HTTP server and in-memory engine (odd paths, queries, headers, encodings, methods and bodies), each followed by a probe on the same connection. Every answer is checked for framing, documented status, shape and error body; the served specification is compared with an independent list of endpoints. An observation counts as distinct when the request bytes and status differ.",
    min_events={"requests": 50000, "documented_answers_witnessed": 8 * 30, "status:400": 3000}, floor=1000, assumptions=TRUST[1:])
CHECKS["C25"]["rule"] = SEQ + " For this property every request is sent in varying forms (prefix, encoding, origin) and every read in all of them. A second family of cases sends 200 requests whose paths or methods name no endpoint or almost one, comparing the stored tasks before and after, preflights for every endpoint, health checks against failing engines, and compares every bundled document with the file shipped."
CHECKS["C25"]["min_events"] = {"unknown_routes": 1000, "preflights": 2000, "documents_compared": 15, "health_checks": 1000}
CHECKS["C15"]["parts"].append({"pkg": "proc", "server": True, "quick": 100, "thorough": 1500, "procs": 4})
CHECKS["C15"]["rule"] += " Further cases run the real server with clients that send or read slowly or pause (12 to 62 seconds), with long names and headers, and with bodies of up to 70 MB or 50000 tasks, requiring complete answers, also after a restart."
CHECKS["C15"]["min_events"].update({"complete_responses": 15, "large_bodies": 8})
PROC = "A case is a scenario run against the real server binary: "
CHECKS["C21"] = entry([{"pkg": "proc", "server": True, "quick": 100, "thorough": 3000, "procs": 4}], "monitoring real processes under load, signals and generated configurations",
    "Exploration: 160 scenarios with about 500 processes; timing of signals is sampled in real time.",
    rule=PROC + "graceful stop under load or with requests in flight and comparison after restart, listening address, maintenance schedule, page limits, retention, snapshot settings, invalid configurations and unreadable snapshots, failing final snapshots. An observation counts as distinct when the acknowledged history of a task, or scenario and settings differ.",
    floor=100, min_events={"graceful_stops": 50, "finished_in_flight": 30, "refused": 100, "compared_after_restart": 3000}, assumptions=["a minute is enough for a process to start or stop on this machine"])
CHECKS["C09"] = entry([{"pkg": "proc", "server": True, "quick": 100, "thorough": 3000, "procs": 4}], "fault injection into the real writer and process with a monitor on the snapshot path",
    "Exploration: 800 cases: write errors at random byte offsets, errors and kills at random system calls, kills under load with concurrent readers; power failure (lost page cache) is out of reach.",
    rule=PROC + "saves of the real engine with the file size limited at a random offset, the directory missing or the path taken; real processes with one system call failing or killing them (strace); real processes killed while saving under load with a concurrent reader of the snapshot. After every fault the snapshot is loaded and compared. An observation counts as distinct when fault, offset or position, and stored amount differ.",
    floor=300, min_events={"saves": 2000, "failed_saves": 1000, "kills": 20}, assumptions=["errors of system calls behave as injected by strace and RLIMIT_FSIZE"])
CHECKS["C20"]["parts"].append({"pkg": "proc", "server": True, "quick": 100, "thorough": 3000, "procs": 4})
CHECKS["C20"]["rule"] += " A further family runs the real server and compares the number of maintenance runs observed with the snapshots they write, or fail to write."
CHECKS["C20"]["min_events"]["run_counts_compared"] = 200
CHECKS["C22"] = entry([{"pkg": "race", "race": True, "quick": 60, "thorough": 4000, "shards": 4, "procs": 4}, {"pkg": "proc", "server": True, "server_race": True, "quick": 100, "thorough": 3000, "procs": 2}], "race detector over concurrent workloads",
    "Exploration: no report of the Go race detector on the accesses executed; accesses not executed, or ordered by chance in every run, are not covered.",
    rule="A case runs generated requests from 3 to 8 goroutines together with maintenance, snapshots and metrics scrapes against the handlers and each engine (in-memory, MongoDB on an emulated deployment), or calls and subscriptions sharing clients, options and values from several goroutines, or a real process under load and signals, all built with the race detector. An observation counts as distinct when the pair of activities that overlapped in time differs.",
    floor=100, min_events={"overlaps": 10000}, assumptions=["the race detector reports no races that are none"])
CHECKS["C23"] = entry([seq(75)], "online model-based trace checking of generated histories on the MongoDB engine over an emulated deployment",
    "Exploration: 6000 generated histories in all engine modes, 1200 with injected failures and 1200 deployments with varying retention periods; trusts the emulated deployment for what a real one would answer.", rule=SEQ.replace("in-memory engine", "MongoDB engine over an emulated deployment speaking the wire protocol") +
    " A second family injects rejected, dropped and partly failing commands or takes the deployment down during generated operations; a third starts engines with generated retention periods and advances the deployment's clock.",
    min_events={"claims": 2000, "command:update": 5000, "faults_hit": 500, "instances_started": 1000}, assumptions=TRUST + ["the emulated deployment in harness/mgo answers as MongoDB would"])

CHECKS["C24"] = entry([conc(30)], "linearizability checking of recorded concurrent histories of several MongoDB engine instances with injected yield points",
    "Exploration: holds on every recorded history of the run; schedules are randomized, not enumerated; trusts the emulated deployment for atomic single commands.",
    rule=CONC.replace("in-memory engine", "one to three MongoDB engine instances sharing one emulated deployment"), min_events={"overlapping_pairs": 10000, "command:findAndModify": 5000}, assumptions=TRUST + ["the emulated deployment in harness/mgo executes single commands atomically, as MongoDB does for single documents"])
