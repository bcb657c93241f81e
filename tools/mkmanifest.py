#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property whose id is a key of T."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ON = "the real om-core binary, built from the working tree, is run; "
T = {
 "C01": ("runtime monitoring: offline trace checker (create responses vs. recorded storage log) under concurrency, refused writes and connection drops", ON + "judges every CreateTicket response against the log of a recording Redis stand-in; schedules and faults are sampled, not enumerated; trusts the stand-in's RESP/stream semantics"),
 "C02": ("runtime monitoring: generated tickets, observed in the storage log and in pools, compared with a reference model", ON + "random and edge-case tickets; trusts the reference model of the timestamp rules"),
 "C03": ("runtime monitoring: online checker of pool observations against the storage log (visible only if active after an admissible log prefix)", ON + "interleavings are those reached by load on 8 cores and big caches; trusts the stand-in's log"),
 "C04": ("runtime monitoring: offline trace checker (exactly once, order, error details) plus online prefix-consistency checker of pools", ON + "faults injected per command at the Redis stand-in; sampled schedules"),
 "C05": ("runtime monitoring: hostile requests, observed statuses and storage log", ON + "checks statuses and that the storage log does not change; sampled requests plus all boundary counts"),
 "C06": ("runtime monitoring: differential oracle (independent filter model) on the filter package in-process and on the pools the real server delivers", "exhaustive over the edge values of single filters, random beyond; the creation-time filter is judged modulo the listed known finding; trusts the reference model"),
 "C07": ("runtime monitoring: recording matchmaking functions, received chunks compared with the reference pools", ON + "pool sizes around the 4 MiB chunk limit, sampled profiles"),
 "C08": ("runtime monitoring: recording matchmaking functions, profile and pools compared with the caller's request", ON + "generated profiles including invalid pools"),
 "C09": ("runtime monitoring: exactly-once multiset checker between matches scripted functions sent and matches the caller received", ON + "sampled schedules"),
 "C10": ("runtime monitoring: pools queried after (or while) an invocation ends, compared with the tickets of its matches", ON + "sampled schedules; memory and Redis stand-in storage"),
 "C11": ("runtime monitoring with fault injection: functions failing in 14 ways next to healthy ones, match conservation and liveness monitors", ON + "failure modes scripted, combinations sampled"),
 "C12": ("runtime monitoring: pool sampling over the life of tickets with drawn expirations, deadlines computed from the storage log", ON + "tickets live seconds; the upper bound for disappearing is generous (scheduling), the lower bound is exact"),
 "C13": ("runtime monitoring: offline trace checker over assignment calls, the storage log and the streams of all watchers", ON + "faults injected at the Redis stand-in; sampled schedules"),
 "C14": ("runtime monitoring: watch end, statuses and resources observed after normal, cancelled and failed watches", ON + "sampled schedules"),
 "C15": ("runtime monitoring with fault injection: the Redis replicator in-process and the whole server, every result compared with the stand-in's log", ON + "all single fault positions in small pipelines, random beyond; trusts the stand-in's RESP semantics"),
 "C16": ("runtime monitoring: every update delivered by the Redis replicator compared with the stream, while it grows, fails and restarts", ON + "sampled growth patterns, including many entries per millisecond"),
 "C17": ("runtime monitoring with fault injection: storage outages at random moments; liveness, connection-count and later-correctness monitors", ON + "outage shapes sampled"),
 "C18": ("runtime monitoring: every trim the stand-in receives judged against the ages of the entries it removes", ON + "the clock of the stand-in is driven; bounded run times"),
 "C19": ("runtime monitoring: several instances on one stream, their pools compared with a fold of the storage log after load, outages, kills and restarts", ON + "two to three instances, crash points sampled"),
 "C20": ("runtime monitoring: in-memory replicator in-process and behind the real server, update log compared with what was accepted", ON + "sampled batches and schedules"),
 "C21": ("runtime monitoring: outgoing update queue in-process with a scripted storage, batches judged for order, bounds, result routing and waiting time", "the real queue code is run in-process; sampled batch shapes and schedules"),
 "C24": ("runtime monitoring: differential oracle (REST vs gRPC): storage log, responses, stream results and statuses compared for every route", ON + "both the documented build and the module-pinned build are run; sampled requests"),
 "C25": ("runtime monitoring: the function server library fed generated chunkings in-process and over gRPC, result compared with the profile that was split", "random chunkings, breaks at random positions"),
 "C26": ("runtime monitoring: validity and maximality checker over the matches of the sample functions (in-process server, stand-alone binary and behind om-core)", "random pool sizes around the boundaries, all small sizes of the team function in the thorough tier"),
 "C28": ("runtime monitoring: metrics scraped at quiescence compared with an independently counted workload", ON + "sampled workloads"),
 "C29": ("runtime monitoring: effective configuration and observable server behaviour compared with what the environment asked for", ON + "every key alone and random combinations"),
 "C22": ("sanitizer: Go race detector on om-core, the storage and cache components, the sample functions and the function server library under a concurrent workload of every RPC, REST route, expiration and metrics scrape", "reports only races whose accesses executed; schedules sampled"),
 "C23": ("runtime monitoring under hostile input: mutation fuzzing of every RPC and REST route and of function responses on the wire, with process, answer and honest-client monitors", ON + "inputs sampled; structure-aware and byte-level mutation"),
 "C27": ("runtime monitoring: the example matchmaker binary against a recording stand-in for om-core, activation log judged (all-or-none per match, exactly once, call sizes, cycles)", "rejections are drawn by the matchmaker and inferred from its calls"),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
NA = {}
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in T]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks drive the real binaries, and component drivers and one extra file enter through go build -overlay."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
