#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
T = {
 "seq": ("runtime monitoring: executable reference model over generated request histories", "Held on the sampled and directed histories counted in the evidence; trusts the reference model (harness/src/model.rs) and the independent codec (wire.rs)."),
 "conc": ("runtime monitoring: offline checkers over recorded concurrent histories, with preemption timers and allocation-point delays", "Held on the sampled schedules counted in the evidence; thread schedules are perturbed, not enumerated."),
 "codec": ("runtime monitoring: independent codec as oracle over generated, segmented and hostile byte streams, allocation monitor", "Held on the sampled byte strings and segmentations counted in the evidence."),
 "net": ("runtime monitoring: the real server process driven over TCP with faults, reference-model and liveness oracles", "Held on the sampled connections, segmentations and faults; timing comes from the OS."),
 "client": ("runtime monitoring: the real client library against memory, the real server and a scripted faulty peer, model oracle", "Held on the sampled calls, schedules and faults."),
 "mon": ("runtime monitoring: counting, uniqueness and membership monitors over threaded workloads", "Held on the sampled operation sequences and schedules."),
 "cli": ("runtime monitoring: independent grammar and reference model over generated command lines", "Held on the sampled lines and sessions."),
 "res": ("runtime monitoring: resource monitor (open files, threads, resident memory from /proc) over the real server process under every kind of connection end", "Held on the sampled kinds and numbers of connections; memory is bounded with a margin for the allocator."),
 "cfg": ("runtime monitoring: the real server process started under generated settings, its sockets read from the kernel", "Held on the sampled settings; IPv4 loopback addresses."),
 "mem": ("runtime monitoring: counting allocator over the real engine, codecs, client and command line, repeating every kind of activity with new names until anything kept shows as growth", "Held on the repeated activities, histories and sizes counted in the evidence; growth per operation below the tolerance (a few bytes) isn't seen."),
 "san": ("sanitizers: ThreadSanitizer, AddressSanitizer/LeakSanitizer and Miri over concurrent workloads, heap-growth and deadlock monitors", "No report on the executed code paths and schedules; says nothing about paths the workloads don't reach."),
}
KIND = {**{f"P{i:02}": "seq" for i in range(1, 8)}, "P08": "conc", "P09": "conc", "P10": "conc", "P11": "codec", "P12": "codec",
        "P13": "codec", "P14": "codec", "P15": "net", "P16": "net", "P17": "net", "P18": "client", "P19": "client", "P20": "client",
        "P21": "mon", "P22": "mon", "P23": "mon", "P24": "mon", "P25": "cli", "P26": "san",
        "P27": "seq", "P28": "seq", "P29": "res", "P30": "cfg", "P31": "mem"}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in check.CHECKS:
        t, n = T[KIND[i]]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason="the family applies, but its check has not been built yet"))
m = dict(version=1, setup_cmd="python3 setup.py",
         hooks=dict(guard="cargo feature `verif` of hop-engine (off by default)",
                    enable="the harness depends on hop-engine with features = [\"verif\"]; cargo builds it into /verif/build",
                    source_commits=["236bfa55ae10848b8ee1ed5c547d2e93c7a69a12", "dc71360fec6f8742e78046594b8c17a079d52719"]),
         checks=checks, not_applicable=na,
         notes="One harness crate, one supervisor (check.py). Every random choice derives from VERIF_SEED.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
