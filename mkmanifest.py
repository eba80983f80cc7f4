#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, sys

TECH = "deterministic simulation with fault injection: seeded search over schedules, faults and crash points"
DB = ("Seeded exploration: the real database engine, file locking and Go file layer run in simulated processes over a simulated kernel "
      "(page cache, durable state, locks, clock); %s Clean runs are evidence, not proof. Trusted: the simulated POSIX semantics, the reference model, "
      "and the overlay that redirects system calls.")
PURE = ("Seeded exploration on the real code: %s Clean runs are evidence, not proof. Trusted: the reference model and the generators.")
NOTES = {
    "C01": DB % "the process or the machine is stopped before any system call of an operation and a fresh process's view is compared with the states the model allows.",
    "C02": DB % "after a power loss only synced data and an arbitrary torn subset of the rest survive, and the history is linearized against the surviving state.",
    "C03": DB % "every answer of every read of every context is compared with a reference model, over drawn chunk sizes, lengths and histories.",
    "C04": DB % "system calls fail, are shortened or interrupted, or the disk fills up; returned values and the state seen afterwards are compared with the model.",
    "C05": DB % "faults and deaths, then a fault-free suffix in which every operation has to work within a bounded number of system calls.",
    "C06": DB % "2 to 4 processes interleaved at system calls; the recorded history is checked for linearizability against the model.",
    "C07": DB % "readers interleaved with writers at system calls; every context has to show one version for its whole life.",
    "C08": DB % "New, Delete, Exists, Open and Commit of several processes interleaved at system calls; linearizability against the model.",
    "C09": DB % "identifiers of open and closed contexts used in any order, with failing system calls.",
    "C10": DB % "the clock stops, jumps and goes back; the chain of commits read by every context is recomputed and compared.",
    "C11": DB % "pending content tracked by the model through failing commits, cancels, closes, deaths and changes of the caller's buffers.",
    "C12": DB % "files are damaged at rest and while being opened (truncated, overwritten, spliced, length fields changed); panics, hangs, memory, modification and acceptance of lost ends are checked.",
    "C13": DB % "the simulated kernel's descriptor and lock tables and the directory are inspected after every operation.",
    "C14": PURE % "programs compiled and executed by the real interpreter while module functions fail, panic or call back into it, against a reference evaluator.",
    "C15": PURE % "trees parsed and queries executed by the real engines while functions fail, answer invalid or call back, against a reference evaluator.",
    "C16": PURE % "a statement-level scheduler interleaves calls on shared engine instances; each result is compared with the call alone.",
    "C17": PURE % "the same work executed under different seeds of the runtime's map order, results compared.",
}
claimed = sys.argv[1:] or sorted(NOTES)
pure = "a single call whose result is a function of its argument alone: no schedule, clock, I/O, randomness, crash or fault takes part in it, so there is nothing for a simulator to control; deciding it is input generation, a different family. "
NA = {
    "N01": pure + "Parsing under interleaving, re-entry and map order is claimed as C16 and C17.",
    "N02": pure + "What the database persists of hash trees is checked in C10 and C12; their behaviour under interleaving in C16.",
    "N03": pure + "The round trip through the disk, crashes and damage included, is checked in C03, C10 and C12, under interleaving in C16.",
    "N04": pure + "Execution of compiled programs with failing modules is claimed as C14.",
    "N05": pure + "The shipped grammar serves as a workload of C16 and C17.",
}
for p in sorted(NOTES):
    if p not in claimed:
        NA[p] = "no check yet (in progress)"
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
                "technique": TECH, "level": "exploration", "level_note": NOTES[p]} for p in claimed],
    "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA)],
    "notes": "There are no hooks in /repo: the seams are in four files of the Go standard library (system calls, clock, sleep, map seeds), replaced at build time with go build -overlay; "
             "the simulator's packages are laid over the module in the same way. ./replay.sh FILE repeats a violation exactly.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
