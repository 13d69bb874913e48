#!/usr/bin/env python3
"""Writes MANIFEST.json (edit here, run, commit both)."""
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T={
"P01":("AddressSanitizer over hostile workloads, exact-size and prefix placement, UTF-8 and borrow monitors","No out-of-bounds, use-after-free or invalid UTF-8 on the inputs run; ASan misses intra-object overflows and over-reads that stay in a live allocation, which the exact-size/prefix comparison covers for the input buffer."),
"P02":("online step, event and memory counters on a caller-supplied Source","Linear budgets held on every input run, up to 40 kB; loops that never touch the source are caught by a CPU-time limit."),
"P03":("every entry point under overflow and debug assertions in a monitored worker process","No panic, abort or signal on the inputs run; nesting above 600 only through the non-recursive interface (recursion is a known finding)."),
"P04":("online trace monitor of the event grammar","Grammar held on every event sequence observed."),
"P05":("differential monitor: recorded event/span/error sequences of all interfaces on one input","All interfaces agreed on every input and call schedule run; peek schedules are random."),
"P06":("online marker monitor against an independent line/column table and extents of an independent reference parser","Every marker observed was checked; exact extents where both parsers agree on the events."),
"P07":("runtime monitor of anchor ids and alias targets against the generating model","Held on the model streams run; trusts the generator, cross-checked with a reference parser."),
"P08":("runtime monitor of resolved tags against the generating model; constructed directive streams","Held on the streams run; trusts the generator, cross-checked with a reference parser."),
"P09":("events monitored against the generating model and an independent reference parser","Held on the streams run; trusts renderer and reference parser, written separately from the specification and checked against each other and the YAML test suite."),
"P10":("scalar events monitored against the presented string; bounded-exhaustive strings","All strings up to 4 characters over 18 characters plus random ones, in every style that can present them."),
"P11":("resolved values monitored against an independent core-schema oracle","Trusts the standard library's decimal to double conversion on both sides."),
"P12":("loaded trees monitored against an independent fold of the recorded events","Relative to the events (P09); alias expansion limited to 20000 nodes."),
"P13":("per-document event logs compared alone and in context","Held on the concatenations run."),
"P14":("metamorphic monitor: event logs of equivalent presentations compared","Held on the pairs run."),
"P15":("verdict monitor against an independent reference parser, planted ill-formed fragments","Accepted leniencies are modelled by the reference parser; tab-containing text is not judged."),
"P16":("deserialized values monitored against generated values and an independent fold of the events","Held on the types (all shapes of the serde data model) and documents run."),
"P17":("round-trip monitor through deserializer, parser and loader","Scalars only: collections are unimplemented in the serializer."),
"P18":("accessor results monitored against a model of the tree","Held on the trees run."),
}
ids=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
m=dict(version=1,
 setup_cmd="./build.sh plain >/dev/null && ./build.sh asan >/dev/null",
 hooks=dict(guard="--cfg yam_verif (rustc cfg)",enable="RUSTFLAGS='--cfg yam_verif' in build.sh; re-exports private items as yam_core::verif_hooks",source_commits=["e27d9ede783459afd3157b068d28a624d647d54d"]),
 checks=[dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",technique=T[i][0],level="exploration",level_note=T[i][1]) for i in ids if i in T],
 not_applicable=[],
 notes="check.sh rebuilds the harness from /repo's working tree. known_findings.txt lists findings and fixes.")
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
