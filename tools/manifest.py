#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
N = {
"C01": "Every content of the enumerated grammars (all families, all bounds of C08 and C10-C21) is run with overflow checks on and off: no panic, no abort, no hang (40 s), equal answers. Trusts that contents outside of the grammars do not reach other code.",
"C02": "Every enumerated delivery of 140 representative contents and 480 fixtures gives the answer for the bytes. Assumes readers positioned at the start and correct Read/Seek implementations (dirty buffers allowed).",
"C03": "Every single fault and pairs of faults at the enumerated operations, in all kinds, on representatives and fixtures; head faults must be reported with their kind, later ones absorbed.",
"C04": "Budgets measured by a counting allocator and a counting reader on virtual contents up to 2^62 bytes; the bounds are 2 MiB of heap, 200,000 operations and 256 MiB read.",
"C05": "All histories up to 3 (4) steps in fresh processes, all two-thread schedules with up to 2 (3) preemptions at I/O operations, and at every synchronisation operation the crate performs (none today; it is built against controlled primitives), three threads with fewer documents, nesting at every operation, long histories. Memory is taken to be sequentially consistent.",
"C06": "All 726 signature alternatives: every cut, every value of every byte, every two bytes, other bytes, shifts, fillings, lengths, other beginnings around them; the signature table is a committed snapshot of the documented signatures.",
"C07": "All compatible pairs and triples of the 726 alternatives laid over each other, and all pairs with any byte of one broken; the expected format follows from the rule alone.",
"C08": "All lengths up to 37,000, all tiny contents, signatures without content, overwritten representatives, in builds with all and without readers.",
"C09": "One build for no reader, every single one, every pair, all but one, halves, all and the combined feature (so every combination of any four readers on and off occurs), from the feature table of /repo/Cargo.toml; other sets are assumed to behave as composition demands.",
"C22": "All 447 formats in all 98 builds against a committed catalogue plus the rules on uniqueness and syntax.",
"C23": "Offsets 2^p+d for all p a field can express, |d| up to 6 (20 in the thorough tier), by one skip or several, virtual readers and real sparse files; expected by construction and by the model.",
"C24": "All argument lists up to length 3 (4) over 14 arguments, run as processes.",
"C25": "Every cut of all representatives, of layered contents with gaps, and of fixtures up to 128 KiB, every 16th cut in the middle of longer ones; both the family rule and the model decide.",
}
FAM = "Bounded grammar of %s contents enumerated completely, each content run on the real code and on an independent reference model over whole documents; plus every single-byte substitution, deletion, insertion, truncation and extreme field value of representatives, vocabularies of the format and new literals of the sources, lengths and counts, and the fixtures. Trusts the model."
F = {"C10":"ASF","C11":"compound file","C12":"EBML","C13":"DOS executable","C14":"ID3v2","C15":"MP4","C16":"PDF","C17":"RealMedia","C18":"SQLite","C19":"text","C20":"XML","C21":"ZIP"}
T = {
"C02": "exhaustive enumeration of delivery schedules on the real code",
"C03": "exhaustive I/O fault enumeration on the real code",
"C04": "exhaustive enumeration of virtual contents under resource monitors",
"C05": "stateless model checking: histories, controlled thread schedules with bounded preemptions, nesting",
"C09": "explicit-state enumeration across feature builds with a reference model",
"C22": "exhaustive enumeration of all formats against a catalogue",
"C24": "exhaustive enumeration of argument lists against an output model",
}
checks = []
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)["id"]
    checks.append({
        "property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": T.get(p, "explicit-state enumeration of bounded content grammars, real code checked against a reference model"),
        "level": "fault_enumeration" if p == "C03" else "model_checking",
        "level_note": N.get(p) or FAM % F[p],
    })
json.dump({"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": [],
  "notes": "No hooks: everything is checked through the public interface. Findings are in known_findings.txt, the design in DESIGN.md."}, open("/verif/MANIFEST.json", "w"), indent=1)
