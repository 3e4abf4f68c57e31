#!/usr/bin/env python3
"""MANIFEST.json from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "stateless model checking of the real code: all schedules, select orders, timers and source/storage faults up to a deviation bound, for all small programs"
SEQ = "exhaustive enumeration of operation sequences on the real code against a reference model"
NOTE = ("Every execution explored is one of the real crate, on a tokio and std facade whose scheduling, time and environment the checker decides. "
        "Complete within the bounds in the evidence file (program length, stream length, deviations from the default schedule); assumes that code between two synchronisation operations is atomic and trusts the patched tokio (mc/vendor/PATCHES.md) and the simulated source.")
T = {
 "C01": "bytes returned compared with the resource",
 "C02": "deadlock, livelock and panic detection, and readers sleeping on stored data",
 "C03": "end-of-file results compared with the position",
 "C04": "seek results compared with a reference seek",
 "C05": "storage content at completion",
 "C06": "range requests compared with what is stored",
 "C07": "capacity and back-pressure of bounded storage",
 "C11": "failure at every point: outcome of waiting and later operations",
 "C12": "cancellation and drop at every point",
 "C13": "stalls and reconnect outcomes before every chunk",
 "C14": "progress reports compared with storage at that moment",
 "C15": "what is readable compared with the prefetch phase",
 "C16": "sources without seek support",
 "C22": "error items between, before and after chunks",
 "C24": "death of the download task at every point",
 "C27": "a second stream beside the first on one runtime, judged as if it were alone",
 "C23": "sizes of storage writes and yields between them",
}
S = {}
exec(open(os.path.join(V, "tools/seq_table.py")).read()) if os.path.exists(os.path.join(V, "tools/seq_table.py")) else None
checks = []
for p, w in sorted({**T, **{k: v[0] for k, v in S.items()}}.items()):
    checks.append({
        "property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": (MC if p in T else SEQ) + "; " + w,
        "level": "model_checking",
        "level_note": NOTE if p in T else S[p][1],
    })
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./check setup",
 "hooks": {"guard": "cfg(stream_download_mc)", "enable": "RUSTFLAGS=--cfg stream_download_mc with /verif/mc/shims as the crate stream_download_mc (done by ./check)",
           "source_commits": ["453272f"]},
 "checks": checks,
 "not_applicable": [{"property": i, "reason": "its check is being built"} for i in ids if i not in T and i not in S],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not claimed")
