#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties whose checks exist (TECH below)."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MODEL = "stateful property-based testing of the running server against a reference model, with shrinking"
NOTE = "generated histories only: nothing is claimed about inputs the generators do not reach; trusted: the reference model, the RESP parser and generators of harness/bb, and the Go toolchain"
TECH = {
    "C01": (MODEL, "exploration", NOTE),
    "C02": (MODEL + ", 64-bit boundary generators", "exploration", NOTE),
    "C03": (MODEL, "exploration", NOTE),
    "C04": (MODEL, "exploration", NOTE + "; floating-point texts are compared as numbers"),
    "C05": (MODEL + " (SPOP's random choice is resolved by the observed reply)", "exploration", NOTE),
    "C06": (MODEL, "exploration", NOTE),
    "C07": (MODEL, "exploration", NOTE + "; skip-list levels are random inside the server, so shapes are sampled"),
    "C08": (MODEL, "exploration", NOTE + "; skip-list levels are random inside the server, so shapes are sampled"),
    "C09": (MODEL, "exploration", NOTE),
    "C10": (MODEL + ", error-heavy histories with whole-database comparison", "exploration", NOTE),
    "C11": ("metamorphic property-based testing: a history with and without inserted queries gives the same common replies, both against a reference model", "exploration", NOTE),
    "C12": ("metamorphic property-based testing: two histories on disjoint keys give the same replies interleaved and alone, both against a reference model", "exploration", NOTE),
    "C13": ("property-based round trip of generated message streams through the exported decoder under generated read splits and truncations", "exploration", NOTE),
    "C14": ("property-based round trip of generated responses through an independent parser; generated commands with a reply-kind oracle", "exploration", NOTE),
    "C15": (MODEL + ", over families of nearly equal byte strings", "exploration", NOTE),
    "C16": ("structure-aware fuzzing of the running server by hostile connections next to a victim checked against a reference model; fuzzing of the decoder with allocation and time limits", "exploration", NOTE),
    "C17": ("property-based testing of generated request streams under generated packet cuts and pauses, against a reference model per connection", "exploration", NOTE),
    "C18": ("property-based testing of concurrent histories: generated clients, a linearizability search against the reference model for small histories, invariants for crowds of pipelining clients", "exploration", NOTE + "; interleavings are those the scheduler produced"),
    "C19": ("fault injection: stops of the executor and stop signals at generated moments of generated client activity, against a reference model per client", "fault_enumeration", NOTE),
    "C20": (MODEL + "; every command is enumerated with generated spellings and argument counts", "exploration", NOTE),
    "C21": ("property-based testing of the generator on generated Go source files, its output parsed and compared with the generated declarations", "exploration", NOTE),
    "C22": ("stateful property-based testing of the map package against plain maps", "exploration", NOTE),
    "C23": ("differential property-based testing of the debug and default builds, both against a reference model", "exploration", NOTE),
    "C24": ("stateful property-based testing and fuzzing of the v1 server against a reference model: histories, hostile connections, cut requests and streams", "exploration", NOTE),
    "C25": ("property-based testing of generated configuration texts and load sequences", "exploration", NOTE),
}
TECH["C27"] = ("property-based testing of generated rounds of commands, repeated, with the resident memory of the process as oracle", "exploration", NOTE)
TECH["C28"] = ("metamorphic property-based testing: the processor time of generated operations on little and on much data", "exploration", NOTE)
TECH["C29"] = ("fault injection: generated ways to leave connections, with processor time and descriptors of the process as oracle", "exploration", NOTE)
TECH["C30"] = ("property-based testing of generated addresses and sequences of starts and stops of real server processes", "exploration", NOTE)
TECH["C26"] = ("fault injection at enumerated offsets of generated requests, with the database compared to a reference model", "fault_enumeration", NOTE)
exec(open(os.path.join(root, "tools", "tech.py")).read()) if os.path.exists(os.path.join(root, "tools", "tech.py")) else None
checks = []
for pid in sorted(TECH):
    t, lvl, note = TECH[pid]
    checks.append({"property": pid, "quick_cmd": f"./check {pid}", "thorough_cmd": f"VERIF_TIER=thorough ./check {pid}",
                   "technique": t, "level": lvl, "level_note": note})
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
na = [{"property": i, "reason": "the check is under construction"} for i in ids if i not in TECH]
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
