#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T={
"C01":"runtime monitoring: round-trip oracle over generated types and values",
"C02":"runtime monitoring: encodings compared with an independent reference codec, and hand-made encodings decoded",
"C03":"runtime monitoring: panic, overflow, guard-page, allocator and CPU monitors under hostile bytes (thorough: AddressSanitizer too)",
"C04":"runtime monitoring: every cut and invalid content of valid encodings must be refused",
"C05":"runtime monitoring: every output read by a strict RFC 8259 parser and compared with the value",
"C06":"runtime monitoring: round-trip oracle over generated types and values",
"C07":"runtime monitoring: documents in random spellings, result compared with the value they denote",
"C08":"runtime monitoring: documents spoiled in one place must be refused",
"C09":"runtime monitoring: panic, overflow, stack, allocator and CPU monitors under hostile text (thorough: AddressSanitizer too)",
"C10":"runtime monitoring: number literals compared with exact big-integer and correctly rounded float oracles",
"C11":"runtime monitoring: round-trip oracle over generated types and values",
"C12":"runtime monitoring: documents in random spellings, result compared with the value they denote",
"C13":"runtime monitoring: documents spoiled in one place must be refused",
"C14":"runtime monitoring: generated TOML documents, result compared with the data they were made from",
"C15":"runtime monitoring: TOML documents spoiled in one place must be refused",
"C16":"runtime monitoring: generated attribute combinations against a reference model of the attributes",
"C17":"runtime monitoring: drop ledger over injected failures at every position; memory balance of every decode; AddressSanitizer and Miri",
"C18":"runtime monitoring: reported positions compared with where documents were damaged",
"C19":"runtime monitoring: transcripts of the same workload compared across feature configurations",
"C20":"runtime monitoring: operations repeated, composed, after failures and concurrently, compared with isolated runs (thorough: ThreadSanitizer too)",
"C21":"runtime monitoring: plain and decorated declarations of the same types compared under one workload",
"C22":"runtime monitoring: every output read by a strict RON reader and compared with the value",
}
NOTE="Held on every execution observed; inputs, types and histories are generated from the seed, not enumerated. See DESIGN.md for oracle and limits."
built=[l.strip() for l in open(f"{V}/tools/built.txt") if l.strip()]
NA={}
m={"version":1,"setup_cmd":"./check --setup",
"checks":[{"property":p,"quick_cmd":f"./check {p}","thorough_cmd":f"VERIF_TIER=thorough ./check {p}","technique":T[p],"level":"exploration","level_note":NOTE} for p in sorted(built)],
"not_applicable":[{"property":p,"reason":NA.get(p,"check not built yet")} for p in sorted(T) if p not in built]}
json.dump(m,open(f"{V}/MANIFEST.json","w"),indent=1); open(f"{V}/MANIFEST.json","a").write("\n")
