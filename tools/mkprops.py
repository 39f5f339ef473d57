#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept readable here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["HTTP responses of the real router, in process"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
M = "internal/engine/memdb/"
p("C01", "A task is claimed by at most one consumer at a time",
  "A pending task that several consumers poll for, or try to claim by ID, concurrently is handed to exactly one of them: between two successful claims of the same task (other than explicit forced claims) there is always an event that made it pending again, such as a commit, a released promise, a timeout recovery or a re-submission. A claim is granted only for a task that is pending at that moment, and the others see either another task, a not-found or a conflict. While a task is active it is never handed out again by polling.",
  ["schedules", "histories"], "every interleaving of polls, claims, forced claims, commits, releases, recoveries, re-submissions and deletions by any number of clients",
  "The suite polls from a handful of goroutines under whatever schedule the runtime picks; it cannot place another client's operation between the read and the write of a claim.",
  [M + "queue.go", M + "promise.go", "internal/controller/promise.go"],
  [("single-writer transaction around look-up and state change", M + "queue.go:Poll"), ("state test before claim", M + "promise.go:InsertPromise")],
  [("task state/nonce", "who owns the task now", M + "memdb.go:updateOpsConsume")])
p("C02", "Concurrent operations behave as if executed one at a time",
  "Every set of concurrent API operations, background maintenance included, has results and a final state that some sequential execution respecting real-time order would produce. In particular batches, topic-wide deletions and maintenance passes take effect entirely or not at all for every observer, and a failed operation has no effect.",
  ["schedules", "histories"], "every interleaving of any mix of single, batch, topic-wide, listing and maintenance operations",
  "Tests assert single-threaded results; atomicity of a read-modify-write or of a batch is only visible when another operation lands in the middle.",
  [M + "task.go", M + "topic.go", M + "promise.go", M + "queue.go"],
  [("one write transaction per operation, one snapshot per read", M + "*.go"), ("abort on error paths", M + "*.go (deferred Abort)")])
p("C03", "A stale consumer can never commit over somebody else's claim",
  "Every claim of a task carries a fresh, unpredictable, non-empty token, and a commit carrying a token succeeds only while that very claim is still in force; after a commit, a timeout recovery, a release, a new claim or a re-submission the old token is rejected with a conflict and changes nothing. Of several commits made with the same token at most one succeeds.",
  ["histories", "schedules", "inputs"], "every history of claims, recoveries, releases, re-claims and late or duplicated commits, for every task",
  "The suite checks one wrong nonce; the guarantee is about every order in which tokens become stale and about tokens never repeating.",
  [M + "memdb.go", M + "queue.go", "internal/nonce/nonce.go"],
  [("nonce comparison on commit", M + "queue.go:Commit"), ("nonce cleared on commit/recover", M + "memdb.go:updateOpsCommit, updateOpsRecover"), ("fresh nonce per claim", M + "memdb.go:updateOpsConsume, internal/nonce/nonce.go")])
p("C04", "No accepted task is lost; timed-out claims return to the queue",
  "A task accepted by the system stays retrievable until it is explicitly deleted or expires, and while it is pending and due it is eventually handed out. A claimed task whose execution deadline has passed becomes pending and claimable again at the next maintenance run with its old token invalidated and everything else about it intact, and a claim whose deadline lies in the future is never revoked by maintenance.",
  ["histories", "schedules", "inputs"], "every history of inserts, claims that crash or time out, maintenance at any moment, and every deadline value a client may set",
  "Tests recover one task after a sleep; losing a task needs a particular combination of deadlines, iteration order and interleaved maintenance.",
  [M + "queue.go", M + "memdb.go"],
  [("deadline-ordered scan of active tasks", M + "queue.go:Chore"), ("recover update", M + "memdb.go:updateOpsRecover")])
p("C05", "Tasks are executed in schedule order and never early",
  "Polling a topic never returns a task before its scheduled time. Whenever a task of the topic is pending and due, polling returns one (never 'not found'), and the one returned has the earliest scheduled time among the pending tasks of that topic, at millisecond resolution, whatever absolute time, relative delay, past time or time zone it was scheduled with.",
  ["inputs", "histories"], "every population of a topic, every scheduled time (past, far future, before 1970, any UTC offset, equal instants), every poll instant, after any history of reschedules and moves",
  "Tests use a few tasks scheduled around 'now'; ordering and boundary mistakes show only on unusual timestamps or after state changes re-key the queue.",
  [M + "queue.go", M + "indexer.go", "internal/middleware/task.go", "internal/middleware/commit.go"],
  [("order-preserving time encoding", M + "indexer.go:encodeInt64"), ("peek, then compare with now", M + "queue.go:Poll")])
p("C06", "Topics and task IDs are isolated from each other",
  "An operation addressed to one topic or task never returns, counts, modifies or deletes tasks of another one, however similar the names are (prefixes, separators, control or multi-byte characters, case). Task IDs share one namespace across topics and each ID denotes at most one task.",
  ["inputs", "histories"], "every pair of topic names and IDs, every operation, every population",
  "Tests use 'test' and a few well separated names; leaks show only for adjacent or prefix-related names and for topics that have just become empty.",
  [M + "indexer.go", M + "topic.go", M + "task.go", M + "queue.go", "internal/router/router.go"],
  [("terminated index keys", M + "indexer.go:StringFieldIndex"), ("topic check after lower-bound scan", M + "queue.go:Poll"), ("path parameter unescaping", "internal/router/router.go")])
p("C07", "Only completed tasks expire, and only after the retention period",
  "Maintenance deletes a completed task once the retention period has elapsed since it was last claimed, at the next run, and never earlier. Pending, active and archived tasks are never deleted by maintenance, however old they are and whatever the retention period is.",
  ["inputs", "histories", "configurations"], "every population of states and consumed times, every retention period, every maintenance instant",
  "One test waits for one task to expire; whether the others survive depends on mixed populations and scan boundaries.",
  [M + "queue.go", M + "memdb.go"],
  [("consumed-ordered scan of completed tasks", M + "queue.go:Chore"), ("partial index on state", M + "indexer.go:StateFieldIndex")])
p("C08", "A graceful restart loses nothing",
  "After a graceful stop and restart with a snapshot path, and after any periodic snapshot, the restored store holds exactly the tasks that were there, with the same state, token, times, identifiers and payload, so that claims made before the restart can be committed after it. Periodic snapshots are written once the configured interval has elapsed, and a missing snapshot file means an empty store.",
  ["inputs", "histories", "configurations"], "every population, payload, timestamp and snapshot interval, any number of restarts",
  "Tests round-trip one simple task; serialization loses information only for particular payload shapes and field values.",
  [M + "memdb.go", "ratus.go"],
  [("gob encoding of all records", M + "memdb.go:save, load"), ("interface type registration", "ratus.go:init"), ("interval test in maintenance", M + "queue.go:Chore")])
p("C09", "A crash or write fault never corrupts the snapshot",
  "At every instant the snapshot path holds either nothing or one complete snapshot of a single moment: a crash, kill, full disk or write error at any point of saving leaves the previous snapshot intact and loadable, and a restart recovers exactly that state. A failed save reports an error, leaves no debris that affects a later start, and the next save can succeed.",
  ["crash_points", "fault_sequences"], "a crash or a write fault at every byte offset of every save, with traffic running",
  "No test injects a fault into a save or reads the file while one is in progress.",
  [M + "memdb.go"],
  [("temporary file and rename", M + "memdb.go:save"), ("all-or-nothing load transaction", M + "memdb.go:load")])
p("C10", "Inserting, upserting and deleting do exactly what they report",
  "Inserting a task with a new ID stores it as submitted, inserting an existing ID changes nothing and is reported as a conflict (single) or skipped (batch), and upserting replaces the whole task. Deleting removes exactly the addressed task, topic or everything, and the reported created, updated and deleted counts always equal what changed in the store, repeated IDs in a batch included.",
  ["inputs", "histories"], "every batch (duplicates, existing and new IDs, several topics) against every prior state",
  "Tests insert a few distinct tasks; count and overwrite errors depend on overlaps between batch and store and on which field differs.",
  [M + "task.go", M + "topic.go", "internal/controller/task.go", "internal/middleware/task.go"],
  [("existence check before insert", M + "task.go"), ("counting in the same transaction", M + "task.go, topic.go"), ("status code from result", "internal/controller/controller.go:send")])
p("C11", "A commit changes exactly the fields it specifies",
  "A commit sets the state (completed unless stated otherwise), moves the task if a topic is given, reschedules it if a time or delay is given, replaces the payload if one is given, clears the claim token and leaves everything else untouched, in one step. The updated task is returned and is what later reads show; commits on unknown tasks are reported as not found and commits without a token are always accepted.",
  ["inputs", "histories"], "every combination of commit fields against every task state",
  "Tests try each field alone on one fresh task; fields dropped or wrongly defaulted in combination stay unseen.",
  [M + "memdb.go", M + "queue.go", "internal/middleware/commit.go"],
  [("field-wise update of a copy", M + "memdb.go:updateOpsCommit"), ("normalization", "internal/middleware/commit.go")])
p("C12", "Promises exist exactly for active tasks",
  "A promise can be read or listed if and only if its task is active, and it shows that task's consumer and deadline. Claiming by ID works only on a pending task, whatever its schedule, forced claiming works on any existing one and invalidates the previous claim, and releasing one promise or all promises of a topic returns exactly those active tasks to pending, invalidates their tokens and reports how many there were.",
  ["inputs", "histories"], "every sequence of promise operations against every mix of task states, topics and promise options",
  "Tests walk one task through the promise endpoints; the if-and-only-if and the topic-wide release need mixed populations and histories.",
  [M + "promise.go", "internal/middleware/promise.go", "internal/controller/promise.go"],
  [("promise is a view of an active task", M + "promise.go"), ("consume update", M + "memdb.go:updateOpsConsume"), ("deadline normalization", "internal/middleware/promise.go")])
p("C13", "Listings are complete, duplicate-free and paginated consistently",
  "With the store unchanged, walking any listing of topics, tasks or promises page by page yields every matching element exactly once and nothing else, in the same order for every page size; a page holds exactly the number of elements the limit and offset imply, and never more than the limit. Topic counts equal the number of tasks listed.",
  ["inputs", "histories", "configurations"], "every population, limit, offset and configured maximum",
  "Tests list small populations with one or two page sizes; off-by-one mistakes at page and topic boundaries need many (limit, offset, population) triples.",
  [M + "topic.go", M + "task.go", M + "promise.go", "internal/middleware/pagination.go"],
  [("ordered index iteration with skip and limit", M + "topic.go, task.go, promise.go"), ("limit normalization", "internal/middleware/pagination.go")])
p("C14", "Invalid requests are rejected whole, valid ones normalized",
  "A request whose body, query or path is malformed or inconsistent (bad JSON, wrong types, unknown state, bad duration, missing or mismatching ID, missing topic, out-of-range page) is answered with a bad-request error and has no effect at all, even when only one element of a batch is invalid. Accepted requests get the documented defaults: IDs and topics from the path, current time as produced and scheduled time, relative delays and timeouts resolved against the current time, and explicit absolute times taking precedence.",
  ["inputs"], "every request to every endpoint, valid or not, against every state",
  "Tests try one bad value per field on a bare handler; they do not check that nothing happened, nor combinations of fields.",
  ["internal/middleware/task.go", "internal/middleware/promise.go", "internal/middleware/commit.go", "internal/middleware/pagination.go"],
  [("binding and validation before the handler", "internal/middleware/*.go"), ("abort on failure", "internal/middleware/middleware.go:fail")])
p("C15", "Every request gets one well-formed, documented response",
  "Whatever bytes a client sends as path, query, headers or body, the server answers with exactly one complete response whose status code is among those documented for that endpoint and whose body is valid JSON of the documented shape (or a JSON error whose code equals the status); it never crashes, hangs, drops the connection or reports an internal error while its storage is healthy. The published API specification and the implementation agree on endpoints and status codes.",
  ["inputs", "histories"], "every byte string as path, query, header or body of a request, after any history",
  "Tests send well-formed requests; crashes hide behind nulls, invalid UTF-8, odd escapes, extreme numbers and unusual nesting.",
  ["internal/router/router.go", "internal/controller/*.go", "internal/middleware/*.go", "docs/openapi.json"],
  [("uniform reply function", "internal/controller/controller.go:send"), ("no-route handler", "internal/router/router.go"), ("label sanitization", "internal/metrics/metrics.go")])
p("C16", "The client library is a transparent window on the server",
  "For every client method and every argument, names and IDs with arbitrary characters included, the method acts on exactly the resource named, has the same effect as the operation performed directly, and returns the same data or an equivalent error. Custom headers, origin, timeouts and cancellation passed to the client take effect on every request, and a failing or cancelled call returns an error rather than a fabricated result.",
  ["inputs", "histories", "fault_sequences"], "every method, every argument (reserved, escaped, multi-byte characters; empty strings), every server reply including truncated and garbage ones",
  "Tests call each method once with plain names against a healthy server.",
  ["client.go", "transport.go", "internal/router/router.go"],
  [("path escaping", "client.go"), ("origin rewriting and headers", "transport.go"), ("raw-path routing", "internal/router/router.go")])
p("C17", "Error identity survives from storage through HTTP to the caller",
  "Every error a storage engine reports reaches the caller of any operation as the status documented for its kind, with a JSON body repeating code and message, and the client library turns it back into an error that matches the same kind and keeps the message. No failing operation is ever reported as a success, and errors of unknown kind appear as internal errors.",
  ["inputs", "fault_sequences"], "every operation combined with every error kind, wrapped to any depth and with any message",
  "Tests inject one error per endpoint and look at the status; identity through wrapping, messages and the client needs the full product.",
  ["ratus.go", "client.go", "internal/controller/controller.go", "internal/middleware/middleware.go"],
  [("kind to status mapping", "ratus.go:NewError"), ("status to kind mapping", "ratus.go:Err"), ("uniform reply", "internal/controller/controller.go:send")])
p("C18", "Subscriptions deliver every available task once and commit it",
  "A subscriber hands each task it claims to the handler exactly once and commits it exactly once afterwards unless the handler already did; it never runs more handlers at once than the configured concurrency, and honours the start, poll, drain and error intervals and their defaults. Unexpected errors are passed to the handler and polling goes on, an empty topic is not an error, and cancellation ends the subscription with the context's error and no further handler calls.",
  ["schedules", "histories", "fault_sequences", "configurations"], "every arrival pattern, handler duration and behaviour, server or network fault sequence, option combination and cancellation instant",
  "One timing test counts events in a 150 ms window; nothing checks intervals, concurrency bounds, faults or exactly-once delivery.",
  ["client.go", "context.go"],
  [("per-worker timer loop", "client.go:Subscribe"), ("automatic commit", "client.go:Subscribe, context.go:Commit")],
  observe=["handler calls and HTTP requests of the real client in virtual time"])
p("C19", "The task context commits exactly what the handler asked for, once",
  "A task obtained by polling carries a context that ends when the promised execution time has elapsed, its parent ends or its commit has succeeded, and a commit built from any chain of setters sends exactly the fields last set, guarded by the claim's token unless the token was overridden. Committing succeeds at most once: further calls after a success do nothing and report success, while a failed commit can be retried until the context ends, after which nothing is sent and the error of the context is returned.",
  ["inputs", "histories", "fault_sequences"], "every sequence of setter, reset and commit calls, every timeout, every outcome of each commit attempt",
  "Tests call each setter once; last-writer-wins, reset and retry semantics need sequences.",
  ["context.go", "client.go"],
  [("commit under construction", "context.go setters"), ("committed flag", "context.go:Commit"), ("timeout from deadline minus consumed time", "client.go:Poll")],
  observe=["PATCH requests received by the server", "context state in virtual time"])
p("C20", "Metrics account for exactly what happened",
  "The produced, consumed and committed counters grow by exactly the number of tasks that operations created or updated, claimed and committed, under the labels of the tasks concerned; the request histogram counts every API request once under its topic, method, endpoint and status, and each maintenance run is observed once. Failed operations count nothing, the delay and execution gauges show the last claim's and commit's real values, and the exposition is always well-formed.",
  ["histories", "inputs"], "every history of successful and failing operations, every label value",
  "Tests check that metric names appear in the output; conservation is a property of whole histories.",
  ["internal/metrics/metrics.go", "internal/middleware/prometheus.go", "internal/controller/task.go", "internal/controller/promise.go", "cmd/ratus/main.go"],
  [("counters after the reply", "internal/controller/*.go"), ("request histogram middleware", "internal/middleware/prometheus.go")])
p("C21", "Starting, stopping and configuring the process is safe",
  "On an interrupt or termination signal the process stops accepting work, finishes the requests in flight, writes its final snapshot and exits successfully, so that every acknowledged operation is there after the next start. Listening address, maintenance schedule, page limits, engine choice, retention and snapshot settings take effect as given by flag or environment, with port zero meaning no server and interval zero no maintenance, and invalid configurations, unreadable snapshots and taken ports make it exit with an error.",
  ["crash_points", "configurations", "schedules"], "every moment of a signal relative to requests and maintenance, every combination of documented settings",
  "The command has no tests at all.",
  ["cmd/ratus/main.go", "internal/config/config.go", M + "memdb.go"],
  [("signal handling and shutdown", "cmd/ratus/main.go:serve"), ("maintenance loop", "cmd/ratus/main.go:chore"), ("deferred engine close", "cmd/ratus/main.go:run")],
  observe=["the real binary: sockets, exit status, snapshot file"])
p("C22", "No data races",
  "No two threads of the server or of the client library access the same memory without synchronization, one of them writing, under any concurrent use of their public interfaces.",
  ["schedules", "programs"], "every concurrent combination of API requests, maintenance, snapshots, metrics scrapes, client calls and subscriptions",
  "The suite is not run under a race detector and mostly runs one request at a time.",
  [M + "*.go", "internal/controller/*.go", "internal/nonce/nonce.go", "client.go", "context.go", "transport.go"],
  [("immutable records, copies on read", M + "memdb.go:clone"), ("snapshot mutex", M + "queue.go:Chore"), ("locked random source", "internal/nonce/nonce.go")],
  observe=["ThreadSanitizer reports of the Go race detector"])
p("C23", "The MongoDB engine behaves like the in-memory engine",
  "For every history of operations the MongoDB-backed engine returns the same results, errors and stored tasks as the in-memory engine, in all its modes (atomic or optimistic polling, automatic fallback, with or without index creation) and also when the deployment rejects the atomic commands. Failures of the deployment are reported as errors, never as success or absence, and leave other tasks alone. Completed tasks expire as configured by the retention period, and times have the millisecond resolution of the database.",
  ["inputs", "histories", "configurations", "fault_sequences"], "every sequential history, every engine mode, deployments that do and do not support the atomic commands",
  "The engine's tests need a live MongoDB server and are skipped where there is none.",
  ["internal/engine/mongodb/*.go"],
  [("atomic and fallback branches", "internal/engine/mongodb/queue.go, promise.go, mongodb.go:Fallback"), ("update and query builders", "internal/engine/mongodb/mongodb.go"), ("index definitions", "internal/engine/mongodb/mongodb.go:createIndexes")],
  observe=["engine results against an emulated MongoDB deployment speaking the wire protocol"])
p("C24", "The MongoDB engine is safe with many concurrent instances",
  "Several instances sharing one database never hand the same pending task to two consumers, never accept a commit with a stale token, never lose or resurrect a task through polling, committing, releasing or recovering, and never overwrite a change made by another instance in between, in atomic mode and in both optimistic fallback modes.",
  ["schedules", "histories", "configurations"], "every interleaving of the database commands of concurrent operations of several instances, in every engine mode",
  "Skipped without a server, and single-threaded with one.",
  ["internal/engine/mongodb/queue.go", "internal/engine/mongodb/promise.go", "internal/engine/mongodb/mongodb.go"],
  [("conditional single-document updates", "internal/engine/mongodb/queue.go, promise.go"), ("optimistic peek and verified update", "internal/engine/mongodb/queue.go:pollOptimistic and siblings")],
  observe=["results and stored documents of several engine instances against one emulated deployment with scheduled command interleavings"])
p("C25", "All routes and content encodings are equivalent",
  "Every API endpoint behaves identically with and without the version prefix, for compressed and plain responses, and for browsers from any origin; unknown paths and methods are answered with a JSON not-found and have no effect, and no path is answered by another endpoint than the one it names. Liveness is always reported, readiness follows the storage engine, and the bundled documentation is served as shipped.",
  ["inputs", "configurations"], "every path, method, prefix, origin and accepted encoding, against every state",
  "Tests hit one prefix with default headers.",
  ["internal/router/router.go", "internal/controller/controller.go", "internal/controller/health.go", "docs/docs.go"],
  [("mounting the same group under both prefixes", "internal/controller/controller.go:Prefixes, Mount"), ("middlewares for cross-origin and compression", "internal/router/router.go"), ("no redirects to collections", "internal/router/router.go")])
p("C26", "Payloads and identifiers are stored and returned unchanged",
  "Any JSON payload, producer, consumer, topic and ID submitted is returned equal as a JSON value by every later read, listing, claim or commit, through the client and after restarts, whatever its type, nesting, size or characters; absent stays absent and values such as false, zero, empty strings, lists and objects stay what they are. Timestamps denote the same instant everywhere, and decoding a payload into a user type equals decoding the submitted JSON.",
  ["inputs", "histories"], "every JSON value and string, along every path through the system",
  "Tests use a couple of short strings and small objects.",
  ["ratus.go", M + "memdb.go", "client.go", "internal/engine/mongodb/mongodb.go"],
  [("JSON (de)serialization of records", "ratus.go"), ("snapshot encoding", M + "memdb.go:save"), ("payload decoding", "ratus.go:Decode")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        n = x["statement"].count(". ") + 1
        assert n <= 3, (x["id"], n)
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
