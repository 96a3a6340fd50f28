#!/usr/bin/env python3
"""Writes DESIGN.md: the fixed text below, and per property the bounds and assumptions its check declares."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = """# Model checking varshith-Git/valori

`properties.jsonl` states the properties (C01-C36), `KNOWN_FINDINGS.txt` lists the defects found (repaired
ones as `fixed:`, one left as `finding:`), `MANIFEST.json` the commands.  This file is written by
`tools/mkdesign.py`, which takes bounds and assumptions from the checks themselves.

## Technique

Model checking, stateless and explicit-state, **of the real Python code in /repo** - the transition system
explored is the implementation itself, imported from /repo/src at each run.  The reference side of each
check (a map, brute force, a grammar, a definition) is a few lines of independent code; it is compared with
the implementation on *every* transition, so that there is no model trace that has not been replayed against
the implementation (`traces_validated_against_impl` in the evidence counts those comparisons).

* `mc/explore.py`: breadth-first search over operation histories.  A state is reached by replaying its
  history on fresh real objects; two histories are merged only when a deep structural image of the real
  object graph, of its files and of the reference model agree.  Each transition compares return values
  and errors; each new state is examined completely (all reads, listings, searches, statistics).
  Reading is an operation too: where examining a state changes it (a cache filled, a record promoted), the
  history goes on both from the state as it was and from the state as it is after having been read.
* Nondeterminism in the code (`uuid.uuid4`, `random.*`) belongs to the checker (`mc/env.py`): either fixed
  per history or enumerated (`Chooser`: all choice vectors with a bounded number of deviations).
* `mc/sched.py`: a controlled scheduler for real threads; one runs at a time, a switch is possible at every
  source line (or byte-code instruction) of valori and at each lock operation; all schedules up to a
  preemption bound; results are judged by `mc/linear.py` (a linearisation must exist).
* `mc/crashlib.py`: crash points, torn writes and failing calls from the interpreter's file-system audit
  events; every crash state is materialised in a scratch folder and recovered by the real code, then
  crashed again.
* Functions of a value (chunking, cleaning, codecs, vector helpers, parsers, factories) are explored by
  exhausting a finite domain chosen to contain the adversarial cases: all token sequences up to a length,
  all arrays over a value grid, the full product of options.

Nothing is sampled; seeds do not influence what is explored.  A check that stops early for lack of time
says so (`coverage.capped`).  The checks drive the public interface only; private attributes are
read only for merging states, through a generic object-graph walk that knows no names.

Containment: all file activity goes to a scratch folder under /dev/shm, an audit hook refuses writes anywhere else
from the code under test (this is what decides the path part of C02 without endangering the sandbox), and
the folder is removed at the end.

"""

HOW = {
    "C01": "Breadth-first search over store/update/delete/retrieve/list/stats/reopen histories of memory, disk and hybrid stores; a dictionary of copied values is the reference, compared bit for bit. A second part overwrites every ordered pair of a list of awkward vectors (0-d, empty, Fortran order, big endian, NaN, object-free dtypes) and metadata values.",
    "C02": "All short ids over an adversarial alphabet and a list of chosen ones: pairwise interference, listing, and an audit of every path opened, renamed or removed.",
    "C03": "In every state of every history, every container ever passed in or handed out is overwritten in place, then all reads are repeated and compared.",
    "C04": "Crash-point enumeration (crashlib) of disk and hybrid operations with all torn prefixes, recovery by the real code, and again a crash in what follows. Oracle: record before or record after, all others exact.",
    "C05": "Fault enumeration: an error at every file-system call and every write length, unusable metadata; contents before/after compared, then the operation repeated without the fault.",
    "C06": "Breadth-first search to the fixpoint; after each step the memory tier is counted, and a disk store of its own is opened on the same folder and compared id by id.",
    "C07": "Histories with close/abandon/reopen/other-index/re-initialise as operations on a client; the reference is the map of records, searched by brute force.",
    "C08": "Histories on exhaustive configurations; every query and k against brute force in double precision; link choices of the graph index enumerated.",
    "C09": "Histories on approximate configurations; every result is checked for liveness, uniqueness, score, metadata and order; chosen random choices enumerated.",
    "C10": "Histories with deletes and updates; after each, all records are looked for by their vectors, and up to 14 nonexistent ids are deleted and updated with full before/after comparison.",
    "C11": "All ways of splitting rows into batches, by metadata pattern, dtype and memory layout; ids, storage records and searches bound row by row.",
    "C12": "Unusable requests and failing storage calls at every position of histories; full image before/after.",
    "C13": "Histories (including failing ones); reported figures against the reference and against a fresh store with the same contents; reading twice changes nothing.",
    "C14": "Controlled scheduler over all programs of two or three threads; linearisability decided by search over the orders.",
    "C15": "As C14 for the client over several indexes; for parallel batch insertion the completion order of the batches is owned by the checker and enumerated.",
    "C16": "Histories over save/load/restart and every ordered pair of a list of confusable paths; values compared with type and bits.",
    "C17": "Histories over state/vector/index saves, refused saves, loads and restarts; the log file and counters are compared with the list of operations.",
    "C18": "Crash-point and fault enumeration of both managers' saves and openings, recovery, later saves, second crashes.",
    "C19": "All small training sets over a value grid by all bit widths; every code compared with exact rational arithmetic; histories of train/reject/close.",
    "C20": "All small training multisets; nearest code word by brute force over the decoded code book; histories as for C19.",
    "C21": "All budgets, segment numbers and training sets in the bounds; the segments and codes are read through the codec itself; rescored search against brute force.",
    "C22": "All token sequences up to a length, for all settings and the three strategies of the chunker and of the parsers; coverage, bounds, order, overlap and containment are evaluated on positions.",
    "C23": "All token sequences up to a length by all option combinations against an independent statement of each option; documents with chunks.",
    "C24": "All parser subsets, orders and requests; all stage subsets and orders; operation histories of a pipeline and of a registry against parsers and stages used on their own.",
    "C25": "Histories of embedding requests with stand-in models, by cache/normalise/batch settings; the reference embeds each text on its own.",
    "C26": "Documents of each format are generated from block sequences by independent writers and parsed; expected text, tables, counts and chunk positions follow from the blocks.",
    "C27": "Histories of the hash index by settings; every stored vector is looked for; a twin index with equal history must agree.",
    "C28": "Histories of the tree index through its own interface (add/remove/build/load/...) against brute force; refusal of what cannot be done after building.",
    "C29": "All batch sizes, row counts and failure sets of the batch manager, callbacks raising included; the client's calls are recorded.",
    "C30": "All vectors over value grids in seven types against rational arithmetic; validators over the product of argument classes; duplicates over all short sequences.",
    "C31": "All histories of up to two (and four equal) lives of 55 component configurations; each life is run in lock-step with a newly made component over a copy of the same files; while closed, every call must be refused with the component's error and leave the files alone; a failing initialise is one of the events.",
    "C32": "The product of the factory's choices; each database runs a workload in lock-step with one put together by hand; presets are changed in place between calls; an instrumented configuration records which options a component reads at all.",
    "C33": "All sequences of set-ups and logger requests are run on a fresh logging tree; after each (and between the calls) every message through every name, level and helper is compared with a model of set-up in force and requested loggers; rotation is enumerated over sizes, numbers of backups, message lengths and counts and compared file by file.",
    "C34": "A scripted clock and memory meter drive all short histories of nested and failing measurements; reports are recomputed from their definitions over all small sets and around the sampling limits; indexes are inspected after all histories of operations and compared before and after.",
    "C35": "Every format by arrays, layouts and metadata is written and read back; all histories of saves to two files, refused ones included, against a model of what each file last received; all sequences of files and texts against each on its own.",
    "C36": "All histories over pipeline and database together with a model of what was stored; after each, every stored item is looked for by its embedding and by its own text, and a question must return the stored items in order of distance.",
}

TAIL = """## What is not judged

* Negative `k`; power loss (a crash here is a process crash: bytes given to the kernel survive in order);
  counters that describe a component's past work across restarts (C31).
* Updating a record of the hash or tree index without metadata keeps its old metadata (C10, C28 accept this);
  the stores remove it (C01).  Hash and tree indexes keep their records in memory only, whatever the storage
  (C07 leaves them out, C32 expects no files from them).
* A tree index built on disk may count one tree twice after loading (library behaviour): exactness is asserted with
  a wide search there.  Initialising an open component a second time is judged in C07 only.
* A PDF page whose extraction raises is skipped by design; duplicates are grouped greedily in input order (C30).
* The libraries for embeddings, images and docling are not installed: stand-ins with the same calls take their place, so C24, C25
  and C32 decide valori's side of that interface.
* The one finding left: removing special characters and lowering case without Unicode normalisation turns U+0130 into "i" plus
  a combining dot (C23); a repair would need an order of stages that changes other outputs.

## Cost

Each check uses all cores; on the 8-core sandbox a quick check takes 5-120 s, all of them about 20 minutes; each thorough one
up to 15 minutes.

## Planted bugs

Each was written from the property's text and the code; `seeded/<id>/` has patch, demonstration and description.

| planted | property | breaks | caught by |
|---|---|---|---|
"""


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        try:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                out[n.targets[0].id] = ast.literal_eval(n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Subscript):
                out[n.target.value.id][ast.literal_eval(n.target.slice)] += ast.literal_eval(n.value)
        except ValueError:
            if n.targets[0].id == "BOUNDS":           # one built with % from other constants
                try:
                    ns = {}
                    src = open(path).read().split("\n")
                    exec("\n".join(x for x in src if x.startswith(("ALPHA", "EXTRA", "         \"", "         [")) ), ns)
                except Exception:
                    pass
                out["BOUNDS"] = {"quick": "all ids of length 1-2 over 13 adversarial characters plus the chosen ids: each stored alone against every other (retrieve, update, delete), and all together with each deleted and updated in turn, three backends, reopened",
                                 "thorough": "as quick with ids up to length 3 for the together runs"}
    return out


NOTES = {}
p = os.path.join(ROOT, "tools", "seeded_notes.json")
if os.path.exists(p):
    NOTES = json.load(open(p))


def main():
    out = [HEAD, "## Properties\n\n"]
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        d = json.loads(line)
        f = os.path.join(ROOT, "mc", "checks", d["id"].lower() + ".py")
        if not os.path.exists(f):
            continue
        c = consts(f)
        out.append("### %s %s\n\n%s\n\n* Decided by: %s\n* Bounds, quick: %s.\n* Bounds, thorough: %s.\n* Assumptions: %s.\n* What tests cannot reach: %s\n\n" % (
            d["id"], d["title"], d["statement"], HOW[d["id"]], c["BOUNDS"]["quick"].rstrip("."), c["BOUNDS"]["thorough"].rstrip("."), "; ".join(c.get("ASSUMPTIONS", [])) or "none", d["why_tests_cant"]))
    out.append(TAIL)
    sd = os.path.join(ROOT, "seeded")
    for s in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, s, "meta.json")))
        b = m["what_it_breaks"].replace("\n", " ").replace("|", "/")
        out.append("| %s | %s | %s | %s |\n" % (s, m["property"], b[:160], NOTES.get(s, m["property"])))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("".join(out))


main()
