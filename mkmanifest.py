#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, subprocess
T = "TLA+ specification checked with TLC; "
SEQ = T + "TLC-emitted tests and random histories run on the real library, traces validated against the specification by TLC"
MPI = T + "multi-rank calls of the real library run on a simulated MPI (own processes, chosen schedule, eager/rendezvous buffering), traces validated step by step against the specification by TLC"
IO = T + "the real library run over an interposed system-call layer that injects errors, partial transfers and crashes, traces validated against the specification by TLC"
NOTE = "Model checking of the bounded specification plus conformance of the explored executions: %s Trusted: TLC, the drivers' projection of trees, gcc/ASan."
CH = {
 "C01": (SEQ, "every map transition over all trees of depth 2 on two keys (with and without the empty key), random histories, wide trees."),
 "C02": (SEQ, "every kv/format-path transition over all trees of depth 2 on two keys, random histories over all formats."),
 "C03": (SEQ, "random histories in which about half the targets are NULL, and the documented argument failures."),
 "C04": (SEQ, "boundary and random values of every type over absent, single and multiple previous values, after copies and round trips."),
 "C05": (SEQ, "all pairs of trees up to the node limit, random histories with later changes to both sides, wide and deep trees."),
 "C06": (SEQ + "; heap accounting and AddressSanitizer", "after every query and failing call and at the end of every history nothing is kept."),
 "C07": (SEQ, "all small trees, random integer and byte-string key sets over the whole int range."),
 "C08": (SEQ + "; byte-level format operators", "packed bytes of all small trees and of random, wide and deep trees, with guard bytes and order after round trips."),
 "C09": (SEQ + "; byte-level format operators", "files written over arbitrary old contents; every small tree's file as the specification's encoder writes it, with and without checksum."),
 "C10": (SEQ + "; byte-level format operators classify every file", "all short bodies over a small alphabet, every bit flip and truncation of some files, random structured damage."),
 "C11": (IO, "every class of system call failing at its 1st to 3rd occurrence with several errors, once, several times and lastingly, partial transfers, random combinations."),
 "C12": (IO, "a crash at every system call and after a choice of byte counts of every write, over old contents of every kind; no success before the data is flushed."),
 "C13": (T + "concurrent histories of the real library under chosen schedules (random, and systematically with at most two preemptions), linearizability decided by TLC", "2 to 4 processes, random and bounded-preemption schedules at system-call granularity, partial transfers, processes dying in a call, flock and fcntl locks."),
 "C14": (IO, "every class of system call failing in every read and write call, another process holding a shared or exclusive lock, with flock and with fcntl locks."),
 "C15": (MPI, "all partial permutations of up to 4 ranks under four buffering modes, random histories of up to 9 ranks and sub-communicators."),
 "C16": (MPI, "all sparse patterns up to 3 ranks, single and paired items and dense patterns up to 17 ranks, three directions, four buffering modes."),
 "C17": (MPI, "random queues with the messages changed or deleted afterwards, destinations up to 2^31-1."),
 "C18": (MPI, "up to 31 ranks with a lowered segment size (several map levels), sums at segment boundaries, older sets, long prefixes; a few runs with the real segment size."),
 "C19": (MPI, "the files of every set written in the C18 histories, decoded by the specification's decoder."),
 "C20": (MPI, "random sets over random older and neighbouring sets, missing and damaged parts, odd prefixes, up to 8193 ranks."),
 "C21": (MPI, "random faults on random ranks' system calls, damage of random files, directories in the way."),
 "C22": (SEQ, "all small trees, random trees, deep trees; the print command on all argument vectors up to three items."),
 "C23": (SEQ, "all 512 umasks for every creating call."),
}
NA = {}
checks = []
for c, (t, n) in CH.items():
    checks.append(dict(property=c, quick_cmd="python3 bin/check.py " + c, thorough_cmd="VERIF_TIER=thorough python3 bin/check.py " + c, evidence_file="evidence/%s.json" % c,
                       technique=t, level="model_checking", level_note=NOTE % n))
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
na = [dict(property=p, reason=NA.get(p, "check under construction")) for p in props if p not in CH]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
commits = [l.split()[0] for l in hook.splitlines() if "verification hook" in l]
json.dump(dict(version=1, setup_cmd="python3 bin/setup.py", hooks=dict(guard="KVTREE_VERIF_HOOKS", enable="the checks compile /repo/src/*.c themselves with -DKVTREE_VERIF_HOOKS", source_commits=commits),
               checks=checks, not_applicable=na, notes="Specifications in spec/ (TLA+, TLC); see DESIGN.md"), open("MANIFEST.json", "w"), indent=1)
