#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of claimed properties below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
 "C01": "stateful model-based property testing (rapid) of insert/lookup/reopen histories against a sorted-list model",
 "C02": "model-based property testing (rapid) of iterator walks against a sorted-list model",
 "C03": "stateful property testing (rapid) with byte snapshots and an independent page decoder as invariant",
 "C04": "round-trip property testing (rapid) of encoders and decoders over generated records, with truncations",
 "C05": "stateful model-based property testing (rapid) of the page allocator against a reference allocator",
 "C06": "stateful model-based property testing (rapid) of the slot list against a reference list",
 "C07": "property testing (rapid) over generated JSONL documents against an independent extraction oracle and index decoder",
 "C08": "metamorphic property testing (rapid): any cutting of the input against one synchronization",
 "C09": "fault-injecting property testing (rapid): generated invalid rows in generated histories, differential against the history without them",
 "C10": "property testing (rapid) over generated texts against an independent n-gram oracle",
 "C11": "property testing (rapid) against a reference tokenizer and metamorphic relations",
 "C12": "property testing (rapid) over generated CSV data against an independent extraction oracle",
 "C13": "metamorphic property testing (rapid): any cutting of the CSV input against one synchronization",
 "C14": "property testing (rapid) of opening generated valid and damaged files, byte-comparing before and after",
 "C15": "stateful model-based property testing (rapid) against a byte-array model of the file",
 "C16": "stateful model-based property testing (rapid) of the vector store against a map",
 "C17": "stateful model-based property testing (rapid) of the heap against a multiset model",
 "C18": "property testing (rapid) of generated point sets against brute-force distances",
 "C19": "stateful model-based property testing (rapid) of vectors added through the manager against a map",
 "C20": "differential property testing (fast-check): the real client on the real indexer's files against a scan of the rows",
 "C21": "differential property testing (fast-check): client metadata readers against the indexer's own answers",
 "C22": "differential property testing (fast-check): client search against an n-gram scan of the rows; client against indexer tokenizer",
 "C23": "differential property testing (fast-check): client decoders against the indexer's encoders",
 "C24": "property testing (fast-check) with a generated byte-range server, response mutations and chunkings, against the resource bytes",
 "C25": "stateful differential property testing (fast-check) of request schedules with and without the cache",
 "C26": "model-based property testing (fast-check) of builders, validation and projection against reference predicates",
 "C27": "differential property testing (rapid): the command-line program against the library over generated histories",
 "C28": "property testing (rapid) of the conversion program over generated and damaged files, against a reference JSON reader",
 "C29": "property testing (rapid) over generated histories against independently computed totals",
 "C30": "property testing (rapid) with counting storage: measured bytes against a bound over generated index sizes",
 "C31": "fault-injection property testing (rapid): every storage operation of generated histories made to fail, against the fault-free answers",
 "C32": "metamorphic property testing (rapid): repeated runs, processes and storage kinds give identical bytes",
 "C34": "property testing (fast-check) with a generated byte-range server and expected lengths that are right or off",
 "C35": "differential property testing (fast-check): scores of client searches against a computation from the rows",
 "C36": "stateful model-based property testing (rapid) of index-file histories against a list of indexes",
 "C37": "schedule- and fault-generating property testing (fast-check) of concurrent client queries, against each query alone",
 "C38": "property testing (fast-check) with counting resolvers and a counting server: requests of generated queries against a bound from the tree's shape and the answer",
 "C39": "property testing (rapid) with counting storage: reads of generated lookups and walks against a bound from independently decoded pages",
 "C33": "property testing (rapid) with an independent layout reader, plus files of an earlier build as fixed corpus",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = "Generated search: holds on every case explored in the run; cases, labels and samples are in the evidence file. Trusts the reference model/oracle in harness/ or ts/ and the Go and Node toolchains."
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the harness compiles against its working tree."}
for p in props:
    i = p["id"]
    if i in TECH:
        m["checks"].append({"property": i, "quick_cmd": f"python3 run.py check {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py check {i}",
                            "technique": TECH[i], "level": "exploration", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
