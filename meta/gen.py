#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing; not part of any check)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "run"))
from props import PROPS, DESIGN
ROWS = []


def P(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None, note=""):
    ROWS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                   mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)), note))


SCHED = "every interleaving of the instrumented memory accesses, atomics and blocking calls of the participating threads, for every small set of operations and every initial content"
EX = "The suite runs one free-running example per index: a handful of schedules out of astronomically many, and it only looks at the final contents."

P("A01", "ART with optimistic lock coupling: point operations are linearizable",
  "In the adaptive radix tree with optimistic lock coupling, concurrent inserts, removes and lookups of single keys each appear to take effect at one instant between their call and their return. No insert or remove is lost, duplicated or applied to another key, no lookup returns a value that was not current at some instant of the call, and no call crashes or fails to return.",
  ["schedules", "inputs", "histories"], SCHED, EX, ["ARTOLC/Tree.cpp", "ARTOLC/N.h", "ARTOLC/N.cpp", "ARTOLC/N4.cpp", "ARTOLC/N16.cpp", "ARTOLC/N48.cpp", "ARTOLC/N256.cpp"],
  [("node version validated before and after every read", "ARTOLC/Tree.cpp Tree::lookup/insert/remove"), ("grow, shrink and prefix split under parent and node write locks", "ARTOLC/N.cpp insertAndUnlock/removeAndUnlock")],
  ["Tree::insert", "Tree::remove", "Tree::lookup"], [("node", "version, lock bit, obsolete bit, compressed prefix, children", "ARTOLC/N.h")])
P("A02", "ART with optimistic lock coupling: range lookups are complete and ordered",
  "A range lookup of the adaptive radix tree returns keys of the requested interval in ascending order, each at most once, with values that were current at some instant of the call. Every key of the covered interval that is present throughout the call is returned and every key absent throughout is not, also when the result is fetched in several pages through the continuation key.",
  ["schedules", "inputs", "histories"], SCHED + "; every interval and page size", EX + " The example never calls the range lookup.", ["ARTOLC/Tree.cpp", "ARTOLC/N.cpp"],
  [("recursive descent with per-level version checks and restart", "ARTOLC/Tree.cpp Tree::lookupRange"), ("consistent child enumeration", "ARTOLC/N.cpp N::getChildren")], ["Tree::lookupRange"])
P("A03", "ART with optimistic lock coupling: no node is freed while it can be reached",
  "A tree node that has been replaced or unlinked is not handed back to the allocator while any operation that began before its removal is still running. It is freed at most once, and never while it is still linked into the tree.",
  ["schedules", "histories"], SCHED + "; any number of preceding epochs and collection runs", EX + " A use of freed memory does not show in contents.", ["ARTOLC/Epoche.cpp", "ARTOLC/Epoche.h", "ARTOLC/Tree.cpp"],
  [("epoch guard around every operation", "ARTOLC/Epoche.cpp enterEpoche/exitEpocheAndCleanup"), ("deletion list drained up to the oldest active epoch", "ARTOLC/Epoche.cpp")], ["memory accesses to blocks that have been freed"])
P("B03", "OptiQL ART: point operations are linearizable",
  "In the adaptive radix tree synchronised with optimistic queuing locks, concurrent inserts, updates, value-matching removes and lookups each appear to take effect at one instant between call and return, and report success exactly when they had their effect. No operation is lost, no value is invented, and no call crashes or blocks forever.",
  ["schedules", "inputs", "histories"], SCHED, EX, ["OptiQL/Tree.cpp", "OptiQL/N.cpp", "OptiQL/N.h", "OptiQL/latches/OMCSImpl.h"],
  [("optimistic reads validated against queue-lock versions", "OptiQL/Tree.cpp"), ("writers queue on node locks before changing children", "OptiQL/N.cpp, OptiQL/latches")], ["Tree::insert", "Tree::update", "Tree::remove", "Tree::lookup"])
P("B04", "OptiQL ART: range lookups are complete and ordered",
  "Both range lookups of the adaptive radix tree synchronised with optimistic queuing locks (bounded interval with continuation, and fixed number of keys from a start key) return keys in ascending order, each at most once, with values current at some instant of the call. No key present throughout the call is left out of the covered interval.",
  ["schedules", "inputs", "histories"], SCHED + "; every interval, count and page size", EX, ["OptiQL/Tree.cpp", "OptiQL/N.cpp", "OptiQL/N4.cpp", "OptiQL/N16.cpp", "OptiQL/N48.cpp", "OptiQL/N256.cpp"],
  [("recursive descent with per-level version checks and restart", "OptiQL/Tree.cpp Tree::lookupRange")], ["Tree::lookupRange"])
P("C01", "Optimistic B-tree: upserts and lookups are linearizable",
  "In the B-tree with optimistic lock coupling (both node layouts), every insert-or-overwrite and every lookup appears to take effect at one instant between its call and its return. A lookup reports a key as present exactly when it is and never returns a mixture of two values, whatever splits of leaves, inner nodes or the root happen meanwhile.",
  ["schedules", "inputs", "histories"], SCHED, EX, ["BTreeOLC/BTreeOLC.h", "BTreeOLC/BTreeOLC_child_layout.h"],
  [("version validation along the descent, eager splits under two write locks", "BTreeOLC::insert/lookup")], ["BTree::insert", "BTree::lookup"])
P("C02", "Optimistic B-tree: scans return ordered, current runs of entries",
  "A scan of the B-tree with optimistic lock coupling returns entries in ascending key order starting at the first key not below the start key, at most as many as asked for, without gaps, repetitions or torn values. It returns nothing only if no key at or above the start key is present.",
  ["schedules", "inputs", "histories"], SCHED + "; every start key and length (a scan may stop at a leaf boundary)", EX + " Scans are not called by the example.", ["BTreeOLC/BTreeOLC.h", "BTreeOLC/BTreeOLC_child_layout.h"],
  [("leaf version validated after the copy", "BTreeOLC::scan")], ["BTree::scan"])
P("D01", "B-link tree: point operations are linearizable",
  "In the B-link tree, every insert-if-absent, update-if-present and search appears to take effect at one instant between its call and its return, with either latch implementation. A key that was inserted stays findable across any sequence of leaf, inner-node and root splits, and no call blocks forever.",
  ["schedules", "inputs", "histories"], SCHED + "; every node size and split threshold", EX, ["BLinkTree/b_link_tree.h", "BLinkTree/b_link_node.h", "BLinkTree/latch.h"],
  [("right links and high keys followed during descent", "BLinkTree::TraverseInner"), ("latched bottom-up split propagation", "BLinkTree::Insert")], ["Insert", "Update", "Search", "SearchUnsafe"])
P("D02", "B-link tree: range scans return a consistent snapshot",
  "A fixed-length or interval scan of the B-link tree returns exactly the entries that were present at one single instant between its call and its return, in ascending order and each once. At rest, walking the leaves yields exactly the contents of the tree.",
  ["schedules", "inputs", "histories"], SCHED + "; every interval and length", EX, ["BLinkTree/b_link_tree.h"],
  [("all visited leaves stay latched in shared mode until the scan ends", "BLinkTree::ScanFixed/ScanRange")], ["ScanFixed", "ScanRange", "ScanLeaf"])
exec(open(os.path.join(ROOT, "meta", "more.py")).read()) if os.path.exists(os.path.join(ROOT, "meta", "more.py")) else None

NA = {}
TECH = "TLA+ specification; TLC validates histories recorded from the real code under a deterministic scheduler"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for r, _ in sorted(ROWS, key=lambda x: x[0]["id"]):
        f.write(json.dumps(r) + "\n")
checks, na = [], []
for r, note in sorted(ROWS, key=lambda x: x[0]["id"]):
    i = r["id"]
    if i in PROPS:
        p = PROPS[i]
        specs = sorted({s["spec"] for s in p["stages"]}) + ["%s (exhaustive)" % d["mod"] for d in DESIGN.get(i, [])]
        checks.append(dict(property=i, quick_cmd="python3 run/check.py %s quick" % i, thorough_cmd="python3 run/check.py %s thorough" % i,
                           technique=p.get("technique", TECH) + " [" + ", ".join(specs) + "]", level=p.get("level", "model_checking"),
                           level_note=p.get("note", "Every recorded history of the real code is decided by TLC against the specification; the schedules are a seeded sample (random, few-preemption and priority schedules) of sequentially consistent and x86 store-buffer interleavings. Trusted: the scheduler, the recording at call and return, TLC.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check still under construction")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(ROWS), "properties", len(checks), "checks", len(na), "not applicable")
