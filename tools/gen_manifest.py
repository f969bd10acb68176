#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(__file__), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
ENC = "runtime monitoring: real decodes of generated files, online comparison with an independent encoder"
REN = "runtime monitoring: real renderings, online comparison with an independent double precision model"
FILES = "Held on every execution observed; the space of files is sampled, not exhausted. Trusts the harness's encoders as the description of the formats (they were written independently of the decoders' control flow) and the committed camera catalogue snapshot."
PICS = "Held on every execution observed; images, metadata and limits are sampled. Trusts the harness's reference model and its tolerances (stated in DESIGN.md)."
T = {
 "C01": ("runtime monitoring: hostile and fault-injected decodes in monitored worker processes (exit status, processor time, memory limit), overflow checked and unchecked builds",
         "Held on every execution observed (files mutated from all formats, hostile structures, failing opens and reads). Trusts the operating system's report of how the worker ended; a file counts as hanging after 60 s of processor time, confirmed alone with 120 s."),
 "C02": ("runtime monitoring: size invariant asserted on every image and rendering obtained from hostile and valid files",
         "Held on every execution observed; the files are sampled."),
 "C08": (ENC, FILES), "C09": (ENC + " and catalogue", FILES), "C10": (ENC, FILES),
 "C11": ("runtime monitoring: metamorphic and negative decodes (names, readers, padding, damaged signatures)", FILES),
 "C12": ("runtime monitoring: metamorphic comparison of decodes of the same content in different layouts", FILES),
 "C13": ("runtime monitoring: offline comparison of result digests recorded over thread counts, orders, concurrent calls, readers and histories",
         "Held on every schedule observed (5 processes with 1 to 16 worker threads in different orders, and 16 concurrent threads in one process in the quick tier). The crate forbids unsafe code, so data races in the language sense are excluded by the compiler; what is watched are the results."),
 "C14": ("runtime monitoring: every pattern checked against its definition", PICS),
 "C21": ("runtime monitoring: process level monitor of exit status and files, with injected write failures",
         "Held on every run observed; files and failures are sampled. Trusts the library's own 8-bit rendering (C15 to C19 judge that) as the expected picture."),
}
checks = []
for p in props:
    i = p["id"]
    t, n = T.get(i, (ENC, FILES) if i in ("C03", "C04", "C05", "C06", "C07") else (REN, PICS))
    checks.append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through its public API and its binary. Repairs of defects found are the commits starting with fix: (see known_findings.txt)."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
