#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
MAIN="core/main.go"; CACHE="core/internal/statestore/cache/replicatedticketcache.go"
RED="core/internal/statestore/redis/redis.go"; MEM="core/internal/statestore/memory/main.go"
FIL="core/internal/filter/filter.go"; SRV="core/server.go"; CFG="core/internal/config/config.go"
NOTEST="The existing tests only cover filter, logging and (non-compiling) redis unit tests; nothing drives "

p("C01","A successful CreateTicket returns the unique stored id of the ticket",
  "Whenever CreateTicket succeeds it returns a non-empty id that no other creation returned, and by the time it returns the shared state storage holds, under that id, the ticket that this very caller submitted. If the ticket could not be written to state storage (refused write, broken connection, outage), the call returns an error instead of success. Every call returns; none hangs because of what other callers' updates in the same batch did.",
  ["schedules","fault_sequences","inputs"],"all interleavings of concurrent creations with other updates batched together, and all failures of the storage connection or of single storage commands",
  NOTEST+"CreateTicket at all, let alone concurrent callers sharing a batch or a failing storage.",
  [MAIN,CACHE,RED,MEM],[("create request is queued and waits for its own result",MAIN+" CreateTicket"),("results are routed back by position in the batch",CACHE+" OutgoingReplicationQueue"),("storage replies are mapped to updates",RED+" SendUpdates")],
  ["CreateTicket response","entries of the replication stream"])
p("C02","Tickets keep their content; creation and expiration times follow the rules",
  "A created ticket reaches matchmaking functions with exactly the tags, string args, double args and extensions the client submitted, and with its assigned id (a client-supplied id is ignored). Its creation time is the submitted one when valid and otherwise the time of the call; its expiration time is the submitted one when that is valid and not later than creation time plus the configured ticket TTL, and otherwise exactly creation time plus that TTL.",
  ["inputs","configurations"],"all tickets (any attributes, extensions and timestamps, valid or not) and all TTL settings",
  NOTEST+"ticket creation; a handful of examples could not cover the space of attribute/timestamp combinations.",
  [MAIN,CACHE],[("timestamps are defaulted and clamped, attributes copied",MAIN+" CreateTicket"),("id set when the update is applied",CACHE+" IncomingReplicationQueue")],
  ["pools received by matchmaking functions","entries of the replication stream"])
p("C03","A ticket that is not active never appears in a pool",
  "A ticket is offered to matchmaking functions only if an activation of it was requested after its creation and is not superseded by a later deactivation that the instance has already been seen to apply. In particular a ticket that was created but never activated never appears in any pool, however creation, deactivation, expiration and matchmaking invocations interleave.",
  ["schedules","histories"],"all interleavings of create/activate/deactivate/expire with concurrent invocations, on every storage backend",
  NOTEST+"the ticket cache or invocations; the bad interleavings have windows of microseconds to milliseconds.",
  [MAIN,CACHE],[("tickets enter the inactive list before the cache; invocations subtract the inactive list",MAIN+" setDifference"),("expiry removes the ticket before its inactive entry",CACHE+" expiration closure")],
  ["pools received by matchmaking functions"],[("inactive list","ids that must not be offered",CACHE)])
p("C04","Acknowledged (de)activations are stored once, in order, and take effect",
  "When ActivateTickets or DeactivateTickets succeeds, the storage stream holds exactly one update per well-formed id in the request, in request order, and every later update acknowledged or requested afterwards comes after them. Once the instance has caught up with the stream, each unexpired ticket is in the pools it matches if and only if its last update in the stream was an activation; if an update could not be stored the call returns an error whose details name every failed ticket id, and no other.",
  ["histories","schedules","fault_sequences"],"all sequences and interleavings of (de)activations of overlapping id sets by concurrent clients, with and without storage errors",
  NOTEST+"ActivateTickets/DeactivateTickets or the replication queues.",
  [MAIN,CACHE,RED],[("one update per id through one queue",MAIN+" updateTicketsActiveState"),("updates applied in stream order",CACHE+" IncomingReplicationQueue"),("error details",MAIN+" addStateUpdateErrorDetails")],
  ["ActivateTickets/DeactivateTickets responses","entries of the replication stream","pools"])
p("C05","Invalid update requests are rejected without side effects",
  "ActivateTickets, DeactivateTickets and CreateAssignments requests with more tickets than the configured maximum per call, activation/deactivation requests with no ids, ticket creations without a ticket, assignment requests without a roster or assignment, and invocations without a profile or without functions all fail with InvalidArgument and change nothing. Within an accepted (de)activation request, ids that are not of the storage id format (digits, a dash, digits) cause no update, while every well-formed id in the same request still takes effect.",
  ["inputs","configurations"],"all id lists (any length around the limit, any mix of well-formed and malformed strings) and all limit settings",
  NOTEST+"request validation.",
  [MAIN,RED,MEM],[("count checks",MAIN+" ActivateTickets/DeactivateTickets"),("id format check",MAIN+" validateTicketIds")],
  ["gRPC status codes","entries of the replication stream"])
p("C06","Pool membership is exactly the conjunction of the pool's filters",
  "A ticket belongs to a pool exactly when it satisfies every filter of the pool: each tag filter's tag is among its tags, each string filter's argument is present with exactly that value, each double-range filter's argument is present and within the range with the requested inclusive/exclusive ends (NaN never matches), and its creation time lies within the creation-time range with the requested ends (an unset end is unbounded). This holds for tickets without any attributes too; pools whose creation-time bounds are invalid timestamps are reported as invalid.",
  ["inputs"],"all pools and all tickets, including missing attributes, NaN, infinities, empty strings, duplicates and boundary values",
  "The unit tests try about 80 fixed pool/ticket pairs, two of which panic, and their inclusion half asserts the opposite of what it says; combinations of filters and boundary values are not sampled.",
  [FIL,MAIN],[("filter evaluation",FIL+" In"),("bound validation",FIL+" ValidatePoolFilters")],
  ["filter decisions","pools received by matchmaking functions"])
p("C07","Matchmaking functions receive complete, duplicate-free pools in bounded chunks",
  "For each invocation every requested matchmaking function receives, over all the chunks of the request together, each valid pool of the profile with exactly the active tickets that match it, each ticket once per pool. The number of chunks it receives equals the announced count, all functions of the invocation receive the same request, and no chunk exceeds gRPC's default 4 MiB message limit (given a profile and tickets that individually leave room).",
  ["inputs","configurations"],"all ticket populations (number, size mix, overlap between pools) and profiles, in particular those needing several chunks",
  NOTEST+"invocations or chunking; chunk boundaries depend on exact byte sizes.",
  [MAIN],[("tickets are filtered into pools and split by size",MAIN+" InvokeMatchmakingFunctions")],
  ["chunks received by matchmaking functions"])
p("C08","Profiles reach matchmaking functions unchanged apart from the filled pools",
  "Every chunk a matchmaking function receives carries the caller's profile name and profile extensions, and each pool in it carries the name, filters and extensions the caller gave that pool. A pool that no ticket matches is still delivered, empty; a pool with an invalid filter is left out without affecting the other pools.",
  ["inputs"],"all profiles: any names, extensions, pool keys, filters and pool extensions, with any mix of valid, invalid, matching and empty pools",
  NOTEST+"invocations.",
  [MAIN],[("profile is copied into every chunk",MAIN+" InvokeMatchmakingFunctions")],
  ["chunks received by matchmaking functions"])
p("C09","Every match a matchmaking function streams is returned exactly once, unchanged",
  "For each invocation the caller's stream delivers every match that any of the invoked functions sent (including matches without tickets) exactly once and with identical content, delivers nothing else, and ends successfully only after all of them. This holds for any number of concurrent functions and invocations, any timing (also a caller that reads later than the functions' time limit), and with deactivation waiting on or off.",
  ["schedules","inputs","configurations"],"all timings and numbers of functions, matches and concurrent invocations, and all match contents up to the message limit",
  NOTEST+"the match fan-in; losses happen only in narrow interleavings at stream end.",
  [MAIN],[("fan-in goroutine and channels",MAIN+" InvokeMatchmakingFunctions")],
  ["InvokeMatchmakingFunctions response stream"])
p("C10","Matched tickets leave the pools",
  "All tickets in every match that a matchmaking function returned are deactivated: when the invocation's stream ends, no ticket of any of its matches appears in pools of invocations started on that instance afterwards (unless re-activated). With deactivation waiting enabled this already holds at the moment the caller receives the match (for a replication lag below the built-in limit of one minute for the wait), and the invocation does not go on long after it holds. Deactivation happens even if the caller disconnects before the functions finish.",
  ["schedules","configurations"],"all timings of matches, replication lag, storage backend, wait setting and caller cancellation",
  NOTEST+"deactivation of matched tickets; the outcome depends on replication lag.",
  [MAIN,CACHE],[("each match's tickets are deactivated and awaited",MAIN+" InvokeMatchmakingFunctions")],
  ["pools of later invocations","entries of the replication stream"])
p("C11","A failing matchmaking function cannot harm other functions or the server",
  "If some of the invoked functions are unreachable, of an unsupported type, return errors before, between or after matches, drop their connection, or exceed the configured timeout, then every match from the healthy functions is still returned, without waiting for the failing ones, matches that a function sent before returning an error status are returned and their tickets deactivated, and the invocation ends. The server keeps serving afterwards, and nothing of an invocation (goroutines, connections to functions) stays behind once its functions have ended or timed out.",
  ["fault_sequences","schedules"],"all combinations and timings of function failures within one invocation and across concurrent ones",
  NOTEST+"invocations with failing functions.",
  [MAIN],[("one goroutine per function; per-function errors do not propagate",MAIN+" InvokeMatchmakingFunctions")],
  ["InvokeMatchmakingFunctions response stream","server liveness"])
p("C12","Tickets expire on time: not early, not late, never resurrected",
  "An active ticket stays available to matchmaking until its expiration time and, once that time has passed and the instance has completed its next update cycle, never appears in a pool again. Inactive tickets older than the ticket TTL are dropped and never appear in a pool even though their inactive mark is dropped too. Expiration keeps working while replication updates keep arriving without pause.",
  ["histories","schedules","configurations"],"all ticket ages and expiration times relative to the TTL, activation states, and update loads",
  NOTEST+"expiration.",
  [CACHE,MAIN],[("expiration closure",CACHE+" IncomingReplicationQueue")],
  ["pools received by matchmaking functions"])
p("C13","Assignments are stored, delivered to their watchers and retained",
  "When CreateAssignments succeeds, the given assignment (connection and extensions) is stored exactly once for every ticket in the roster, and every watch of those tickets, whether it began before or after, receives for each id exactly one message, carrying that id and that assignment (the latest one if it had been caught up with before the watch began). If any assignment could not be stored, or a roster ticket has no id, the call returns an error while the other tickets are still assigned. Assignments stay available until the ticket TTL plus the additional assignment TTL after ticket creation, and are then dropped.",
  ["histories","schedules","fault_sequences"],"all orders of assigning and watching, rosters, overlapping watchers, re-assignments, ages and storage errors",
  NOTEST+"assignments.",
  [MAIN,CACHE,RED],[("assignment updates",MAIN+" CreateAssignments"),("watch loop",MAIN+" WatchAssignments"),("assignment expiry",CACHE)],
  ["CreateAssignments responses","WatchAssignments streams","entries of the replication stream"])
p("C14","Assignment watches end cleanly and release their resources",
  "A watch for tickets that are not assigned ends when the newest watched ticket's lifetime (at least the ticket TTL from the start of the watch) is over, and a watch whose client goes away stops doing work. Neither leaves background work behind that keeps accumulating, and an assignment arriving after a watch ended affects nothing but later watches.",
  ["schedules","histories"],"all orders of watch start, client cancellation, watch timeout and late assignments",
  NOTEST+"watches; the failure (a crash or a leak) needs an assignment after the watch ended.",
  [MAIN],[("watch goroutines and their termination",MAIN+" WatchAssignments")],
  ["WatchAssignments streams","server liveness","goroutine counts"])
p("C15","Each storage write result belongs to the update that caused it",
  "For every batch of updates given to the Redis state storage there is exactly one result per update, at the same position: a success carries the stream id under which that very update (type, ticket id, payload) was stored; a failure carries an error and the ticket id of the failed update. Updates missing required data fail without being written and without disturbing the results of other updates; refused commands and connection failures turn into errors for the updates they affect; accepted updates are stored in batch order.",
  ["inputs","fault_sequences"],"all batches mixing valid and invalid updates of every type, and all command refusals and connection failures",
  "The redis unit tests are stubs that do not compile; no test sends a batch.",
  [RED],[("pipelined XADDs and reply mapping",RED+" SendUpdates")],
  ["SendUpdates results","commands received by Redis"])
p("C16","Stream updates are read exactly once, in order, and decoded faithfully",
  "Reading the Redis replication stream by repeated polls yields every entry exactly once, in stream order, starting with the oldest entry still stored, whatever the poll size, the arrival pattern and the connection failures or error replies in between. Each entry decodes to the update that was written: tickets carry their stream id and payload, activations and deactivations their ticket id, assignments their ticket id and payload, byte for byte, and carries the stream id of its entry.",
  ["histories","fault_sequences","inputs"],"all stream contents, arrival patterns, poll sizes and failure points of the read connection",
  "No test reads a stream.",
  [RED],[("XREAD from the last seen id",RED+" GetUpdates")],
  ["updates returned by the replicator"],[("last read id","position in the stream",RED)])
p("C17","The server survives storage outages and never exhausts its connections",
  "However many updates are processed, the number of open Redis connections stays within the configured pool limits and the server never stalls for lack of a connection. After any storage outage (connections refused, dropped, or commands failing) ends, creations, activations and reads work again without a restart and no update acknowledged before, during or after the outage is lost.",
  ["fault_sequences","histories"],"all numbers of operations beyond the pool size and all sequences of outages",
  "No test runs against Redis or runs long enough to use up a pool.",
  [RED,CACHE],[("connection pools",RED+" New, SendUpdates, GetUpdates")],
  ["open connections at Redis","responses after the outage","pools"])
p("C18","The replication stream is trimmed by the ticket TTL, never earlier",
  "Every write batch removes entries older than the configured ticket TTL from the replication stream, and never removes an entry younger than that. So the stream stays bounded, and an instance started later can still rebuild every ticket within its TTL.",
  ["histories","configurations"],"all stream contents (entry ages) and TTL settings",
  "No test looks at trimming; unit mistakes (seconds versus milliseconds) only show with realistic stream ids.",
  [RED],[("XTRIM MINID after each batch",RED+" SendUpdates")],
  ["entries of the replication stream"])
p("C19","All instances converge to the same state, also after crashes and restarts",
  "Any number of instances sharing one state storage, once caught up, offer the same tickets in the same pools and the same assignments: those given by the stored update sequence. An instance that is killed at any moment and restarted, or started late, rebuilds that state, and nothing acknowledged by the killed instance is lost.",
  ["crash_points","histories","schedules"],"all distributions of operations over instances, all kill points and all start times",
  "No test runs two instances or restarts one.",
  [CACHE,RED,MAIN],[("every instance replays the shared stream from its beginning",RED+" GetUpdates; "+CACHE)],
  ["pools and assignments seen through each instance"])
p("C20","The in-memory storage behaves like a faithful single-instance stream",
  "With the in-memory state storage every update gets a result carrying a new unique id of the documented form <unix time in the unit ticket ages are computed in>-<sequence>, increasing in the order of submission, and the updates come back exactly once, in order and unaltered, each carrying the id in its result, with a created ticket keyed by the id in its result.",
  ["histories","schedules"],"all update sequences, batch sizes and timings of sending and polling",
  "No test uses the in-memory storage.",
  [MEM],[("id generator and replication channel",MEM)],
  ["results and updates of the replicator"])
p("C21","Update batching preserves order, bounds and result routing",
  "Concurrently queued updates reach state storage in the order they were accepted, in batches no larger than the configured threshold, with none lost or duplicated, and a partially filled batch is sent once the configured wait is over. Every requester receives exactly the result of its own update, whatever mix of successes and failures the batch has and whether or not other requesters have been cancelled.",
  ["schedules","configurations","fault_sequences"],"all arrival patterns, batch thresholds, wait settings and result mixes",
  "No test runs the replication queue.",
  [CACHE],[("collection loop and result routing",CACHE+" OutgoingReplicationQueue")],
  ["batches seen by state storage","results seen by requesters"])
p("C22","No data races under concurrent load",
  "Concurrent use of every RPC, replication, expiration, metrics collection and matchmaking functions performs no unsynchronised conflicting memory accesses, in the server, in the sample matchmaking functions and in their shared server library.",
  ["schedules"],"all interleavings of concurrent requests, background replication and metrics scrapes",
  "The tests are sequential unit tests and are not run with the race detector.",
  [MAIN,CACHE,"core/internal/statestore/cache/metrics.go",RED,MEM,SRV,"mmf/server/server.go"],[("sync.Map, channels, wait groups",MAIN+", "+CACHE)],
  ["race detector reports"])
p("C23","No request and no function response can bring the server down",
  "Whatever bytes clients send to any RPC or REST endpoint, and whatever messages matchmaking functions send back (empty matches, missing messages, absurd ids, huge or undecodable payloads), every request is answered or ended with a status, and the server process keeps running and serving correct requests.",
  ["inputs","histories"],"all request and response contents, well-formed or not",
  NOTEST+"the RPC surface.",
  [MAIN,SRV,FIL],[("input validation in handlers",MAIN)],
  ["server liveness","statuses"])
p("C24","The REST API is equivalent to the gRPC API",
  "Every documented REST route accepts the JSON form of the request and has the same effect, the same response (for streaming calls one JSON result per message, complete and in the same number) and the corresponding error status as the gRPC method it is mapped to.",
  ["inputs"],"all requests to all six routes",
  NOTEST+"the gateway.",
  ["pkg/api/v2/api.pb.gw.go","core/pkg/api/v2/api.pb.gw.go",SRV,"proto/v2/api.yaml"],[("generated gateway",SRV+" start")],
  ["HTTP responses","entries of the replication stream"])
p("C25","Chunked requests are reassembled exactly by the function server library",
  "For any way of splitting a profile's pools over chunks, the matchmaking-function server library returns a profile with the name and extensions sent, exactly the pools sent, each with its name, filters and extensions and with the concatenation of its tickets over all chunks. A stream that ends or fails before all announced chunks arrived yields an error and no profile.",
  ["inputs","fault_sequences"],"all profiles, all splits (pools appearing in any subset of chunks, with or without tickets) and all truncation points",
  "No test covers the library.",
  ["mmf/server/server.go"],[("concatenation by pool key",'mmf/server/server.go GetChunkedRequest')],
  ["profile returned by GetChunkedRequest"])
p("C26","The sample matchmaking functions only produce valid matches",
  "For any profile with disjoint pools: the duel function pairs all tickets (each match one roster of two distinct tickets, at most one ticket left over); the team function makes two teams of one tank, one healer and three dps drawn from the pools of those names, as many matches as the pools allow (up to its limit of 100,000 per run); the battle-royale function fills rosters of exactly 100 from its pool, as many as possible. No ticket appears in more than one match of a run, match ids are unique within a run, every match carries its score, function and profile name extensions.",
  ["inputs"],"all pool sizes and contents, including empty, missing and multi-chunk pools",
  "No test runs the functions.",
  ["functions/golang/soloduel/soloduel.go","functions/golang/teamshooter/teamshooter.go","functions/golang/battleroyale/battleroyale.go"],[("matching loops","functions/golang/*")],
  ["matches streamed by the functions"])
p("C27","The example matchmaker activates created and re-activates rejected tickets",
  "The example matchmaker requests activation of every ticket it created exactly once, in calls of at most 500 ids, and re-activates either all or none of the tickets of each match it received, never a ticket that is in no received match. It keeps running its matchmaking cycles while tickets keep arriving.",
  ["schedules","inputs"],"all arrival timings of created tickets and received matches",
  "The example has no tests.",
  ["matchmaker-example/main.go"],[("activation batching",'matchmaker-example/main.go activateTickets')],
  ["calls the example makes to om-core"])
p("C28","Exported metrics agree with what happened",
  "After any workload has settled, the exported metrics report exactly: the number of calls and of failed calls per RPC, the number of matches received from matchmaking functions, the numbers of tickets per activation, deactivation and assignment call, and the assignment watches still outstanding (the ids that running watches wait for; zero when none is running). The ticket cache gauges report the assignments, inactive entries and (as long as every inactive entry belongs to a ticket) active tickets held.",
  ["histories"],"all sequences of successful and failing calls, matches, watches that complete, time out or are cancelled",
  "No test looks at metrics.",
  ["core/metrics.go","core/internal/statestore/cache/metrics.go",SRV,MAIN],[("stats handler and counters",SRV+" HandleRPC; "+MAIN)],
  ["Prometheus endpoint"])
p("C29","Every configuration variable can be overridden by its environment variable",
  "Every documented configuration key has its documented default, and setting the environment variable of the same name to any non-empty value of the right type makes the server use that value, independently of all other variables.",
  ["configurations"],"all subsets of variables set to arbitrary values",
  "Only logging helpers are tested, with fixed values.",
  [CFG,"core/internal/logging/logging.go"],[("viper defaults plus AutomaticEnv",CFG+" Read")],
  ["configuration values read"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
