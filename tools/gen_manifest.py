#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {
 "C20": "Parsing and printing names are pure functions of one argument: there is no schedule, clock, I/O, fault or second party for a simulation to vary; a simulator would only be a generator around them. (Name decoding from the wire and names in the tap's output are covered by C16 and C18.)",
 "C21": "Header bit fields and QType/QClass matching are pure functions of their arguments with nothing for a simulation to schedule or fault. (Their use by the advertiser is covered by C01 and C02, header fields in messages by C19.)",
}
ORACLE = {
 "C01": "record-matching model with an independent DNS codec, applied to every datagram each advertiser node receives and sends",
 "C02": "per-receive automaton over each advertiser node's datagrams, with spoofed, reflected and replayed traffic",
 "C03": "advertiser model under hostile datagrams, spoofed sources and failing sends; panics, hangs and returns are caught",
 "C04": "advertiser model with configurations and question lists around and far beyond the reply limit",
 "C05": "reference automaton over the datagrams read during each resolve call",
 "C06": "reference automaton over queries sent and read datagrams in simulated time",
 "C07": "client automata under hostile datagrams; panics, hangs and wrong failures are caught",
 "C08": "exactly-once and order model over the datagrams read during each browse",
 "C09": "provenance of every callback and returned detail among the datagrams read during that call",
 "C10": "cadence and deadline automaton in simulated time",
 "C11": "SRV/TXT provenance and completeness model per detail load",
 "C12": "conservation between what advertisers registered and what clients find after faults stop",
 "C13": "errno injected at every socket call; error must surface, next call must be right, no simulated socket may leak",
 "C14": "the same tape run against the sync and the async component; histories compared",
 "C15": "futures dropped at random instants; client and advertiser models on what follows",
 "C16": "log records of the tap node against an independent decoder, per datagram read",
 "C17": "port sharing, multicast delivery, crash and restart of several responders per simulated host",
 "C18": "server -> damaging network -> receiver nodes on the library's codec, against an independent decoder",
 "C23": "long seeded histories; an allocator that charges every block to the simulated node whose library code asked for it, and the kernel's socket table, sampled between datagrams and calls",
 "C22": "async nodes on shared simulated executors, judged by the models of all others; any poll during which simulated time passes is a violation",
 "C19": "server nodes on the library's encoder with exhausted buffers, against an independent decoder",
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        continue
    checks.append(dict(property=p, quick_cmd=f"./check.sh {p}", thorough_cmd=f"./check.sh {p} --tier thorough",
        technique="deterministic simulation with fault injection: " + ORACLE[p],
        level="exploration",
        level_note="Seeded search over schedules, inputs and faults of the real code in a simulated kernel and network; holds for the runs made, assumes the kernel model (UDP sockets, clocks) is faithful."))
m = dict(version=1, setup_cmd="cd sim && cargo build --release --offline", checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
