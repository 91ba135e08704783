#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, the bounds of bounds.py, the entries of checks.py and the seeded bugs."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from checks import CHECKS
from bounds import B
props = {x["id"]: x for x in map(json.loads, (V / "properties.jsonl").read_text().splitlines())}
ORACLE = {
 "S01": "A model that remembers every candidate ever offered: after each step the buffer must be the sorted, duplicate-free list of the best `capacity` of them, with the expanded flags where they were set; `next()` must give the best unexpanded one and `done()` agree. A second unit starts from an arbitrary sorted buffer (the inductive step) so that long linear scans over ties are exercised.",
 "S02": "A model with live and deleted candidates: live ones kept = best `capacity`; deleted ones kept while they may matter; region of interest recomputed from the definition; `cleanup()` leaves the live ones in order. Prefilled unit as for S01.",
 "S03": "The set of ids entered since the last reset, compared for every id.",
 "S04": "Order axioms over three symbolic neighbors; arithmetic in wider types; narrowing compared with the value it started from.",
 "S05": "A lazily chosen graph: lists are picked when the search first reads them, so every graph is covered with one path per part looked at. Results must be exactly the best of what has been looked at, with the right distances; when the window covers the graph they must be the reachable vectors. Run a second time with the filter toggled and another prefetching mode and compared.",
 "G01": "A vector of lists per node, compared after every operation through all readers (get_node, degree, has_edge).",
 "G02": "The pruning rule as stated: membership, distinctness, limit, nearest first, and every dropped candidate is occluded by a retained one; for the exact rules the whole result.",
 "G03": "Structural invariants after construct() and batch updates over any initial graph; parallel phases under every interleaving with race detection. The claim about batches assumes at most degree-1 incoming edges (as the builder guarantees).",
 "G04": "Structural invariants, plus: edges of the new list are old live neighbors or live neighbors of deleted ones; lists without deleted neighbors unchanged; nearest live candidate first and nothing dropped that is not occluded.",
 "D01": "Two association lists; refused operations must change nothing.",
 "D02": "A map from id to vector, checked through has_id, translation in both directions, get_datum, external_ids, reconstruct_at, search and exhaustive search.",
 "V01": "The stored value (symbolic) is compared with what is read back; memory accesses are bounds-checked by the engine, so a stray write is a violation even if nobody reads it.",
 "V02": "The mathematical definition over integers, by polynomial normal form of the executed kernel (sums of products are compared as multisets of monomials) and SMT for the rest.",
 "V03": "The definition of the two formats in integer arithmetic (no floating point in the oracle).",
 "V04": "Rank of each returned vector among all allowed ones, computed by comparison counting.",
 "V05": "Counting and arg-min by definition.",
 "P01": "Formatting then parsing is the identity; grammar written out separately for refusals.",
 "P02": "What was written (or the raw bytes by the format's definition); every accepted file must account for all its bytes or be read within them. All file operations go to an in-memory file system (harness/memfs.h).",
 "P03": "Equality with the saved set; every tampering must be refused (or be a documented older version).",
 "A01": "Recall is a table of symbolic levels that grows with window and capacity, time a symbolic amount per setting; the result is compared with all entries of the tables (clock and recall callbacks are the harness's; everything between is the library's).",
 "P04": "The index before saving: ids, vectors, settings, and results of searches with the same parameters compared one by one.",
 "C01": "Lexicographic comparison of the score rows, first on ties.",
 "K01": "Multisets of (cluster, id, distance); brute-force nearest centroids; last replica kept.",
 "K02": "Brute force over the clusters that have to be visited; the primary index is a stand-in that returns any admissible list, or (thorough) the real one.",
 "T01": "Counting each item over the ranges of all threads.",
 "T02": "A plain (non-atomic) counter per item, read by the caller after the loop; race detection makes missing synchronisation visible.",
 "T03": "A plain counter per job; termination (no path may block forever).",
 "T04": "Which jobs failed against what the caller received; a second loop on the same pool must be complete.",
 "T05": "Plain shared data inside the critical section; torn reads and races.",
}
CAUGHT = json.loads((V / "tools" / "caught.json").read_text())
out = []
w = out.append
w((V / "tools" / "design_head.md").read_text())
w("\n## Properties and how each is decided\n")
for i, p in props.items():
    c = CHECKS.get(i)
    if not c: continue
    w(f"### {i} {p['title']}\n")
    w(f"*Harness:* " + "; ".join(f"`harness/{u['file']}` ({', '.join(u['entries'][:40])})" + (" " + " ".join(u.get('flags', [])) if u.get('flags') else "") for u in c["units"] if "tiers" not in u or "quick" in u["tiers"]) + ".\n")
    w(f"*Oracle:* {ORACLE[i]}\n")
    q, t, o = B[i]
    w(f"*Quick:* {q}. *Thorough:* {t}. *Outside:* {o}\n")
w("\n## Seeded bugs\n\nEach was built, passes the stable tests, and fails its demo. \"Caught\" is the quick check of the property.\n")
w("| bug | property | what it breaks | caught |\n|---|---|---|---|")
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    w(f"| {d.name} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} | {CAUGHT.get(d.name, 'not run')} |")
k = json.loads((V / "known_findings.json").read_text())
w("\n## Defects found\n\nRepaired in /repo (one commit each):\n")
for f in k["fixed"]: w("- " + f)
w("\nKnown findings (left as they are):\n")
for f in k["known"]: w(f"- {f['property']}, entry `{f['entry']}`: {f['what']}")
w((V / "tools" / "design_tail.md").read_text())
(V / "DESIGN.md").write_text("\n".join(out))
