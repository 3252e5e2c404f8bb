#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list."""
import json, os
from gen_properties import P, NA, root

SIM = "deterministic simulation with fault injection: "
T = {
 "C01": ("builders, a publisher and elasticlunr.js clients on a simulated network; client answers checked against a reference model of the completed adds",
         "Seeded search over histories, interleavings (down to allocations inside the library), failing and retried adds, and message loss, duplication and delay. Trusts the independent port of the elasticlunr.js 0.9.5 pipeline and search, and covers only the vocabulary on which library and port agree."),
 "C02": ("caller code failing at planned calls inside adds; image after every operation checked against a model of completed and interrupted adds",
         "Seeded search over histories and failure points; the points are every call the library makes into caller code. Exact contents of each text come from independent models or from the library alone in a process of its own."),
 "C03": ("several builders on simulated threads, pre-empted at allocations and callbacks or nested in each other's callbacks; images compared with solo builds in processes of their own",
         "Seeded search over interleavings, nesting, failing and abandoned builders. The pre-emption points are the allocations of library code, its futex waits and its calls into caller code; data races between two such points are not reordered (the library has no unsafe code)."),
 "C04": ("the same histories under different hash seeds, clocks, addresses, memory contents, schedules, preceding work and writers; all images compared byte by byte",
         "Seeded search over what an execution environment may vary; every source of nondeterminism the library could see (getrandom, clocks, futexes, allocator) is answered by the simulator."),
 "C05": ("documents delivered over a lossy, duplicating, reordering simulated network to several builders; images compared with in-order delivery",
         "Seeded search over delivery orders, duplicates, losses with resends and interrupted adds."),
 "C06": ("a builder process that saves to a simulated disk, crashes anywhere and restarts from the last durable image; compared with a builder that never stopped",
         "Seeded search over crash points, save ways, lost and torn unsynced writes and lossy delivery. Term weights compared to 1e-12 relative, the accuracy of the JSON float reader."),
 "C07": ("saves to simulated writers and serializers failing at planned positions, interleaved; results and accepted bytes checked against the complete image",
         "Seeded search over contents and failure positions in bytes and in serializer calls."),
 "C08": ("loads from images truncated, torn, damaged or lacking parts, through failing readers; error or usable value demanded",
         "Seeded search over images, damage and reader faults; a panic, abort or hang of the process is a violation."),
 "C09": ("lock-sharing clients of one inverted index under the simulated scheduler, with saves, crashes and reloads; every answer checked against a reference map",
         "Seeded search over operations, interleavings and crash points; linearization order is the order in which the simulated lock was held."),
 "C10": ("lock-sharing clients of one document store under the simulated scheduler, with saves, crashes and reloads; every answer checked against a reference store",
         "Seeded search over operations, interleavings and crash points; linearization order is the order in which the simulated lock was held. Removing a reference that is not listed but has field lengths recorded is left open."),
 "C11": ("all 19 languages used by simulated threads over long histories, with calls abandoned, re-entered and pre-empted; tokens compared with a fresh process per text",
         "Seeded search over histories, interleavings, hash seeds and abandoned calls over a corpus of about 2,000 texts and fresh texts of each run. Two instances each of Chinese and Japanese are built before the run; about 1% of the plans construct new ones."),
 "C12": ("recording seams for document iterator, tokenizers and pipeline functions with planned failures; recorded history checked against the specified call sequence",
         "Seeded search over field sets, tokenizer assignments, histories, failures and interleaved saves."),
 "C13": ("search configurations stored on a simulated disk with failing writers, crashes and torn files, loaded by failing readers; loads checked against what the bytes stand for",
         "Seeded search over configurations, faults and crash points. Bytes changed at rest are not injected: a changed digit is a valid image."),
 "C22": ("writers with failing and retried adds publish; servers load the parts through failing readers, query, edit, save, crash and reload them; every answer checked against a model of the completed adds",
         "Seeded search over histories, faults, edits and crash points. What one text contributes is taken from the library alone in a process of its own; weights compared to 1e-9 relative."),
 "C14": ("rounds of work with failing adds, saves and loads under the counting allocator; live bytes of library code must not grow after the first rounds",
         "Seeded search over work and failures; exact byte counts of live allocations made by library code. Things initialised once (the first six rounds) are tolerated."),
}
checks = []
for p in P:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": SIM + T[i][0], "level": "exploration", "level_note": T[i][1]})
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": NA,
     "notes": "No hooks in /repo: the seams are the library's own traits and closures, the allocator, getrandom, clocks and futexes. Replay a violation with ./check.sh --replay FILE; ./check.sh --selftest runs every plan twice and by its recorded schedule. Known findings: known-findings.txt. See DESIGN.md."}
assert {c["property"] for c in checks} | {n["property"] for n in NA} == {p["id"] for p in P}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
