#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after editing it)."""
import json
T = {
"C01": ("seeded runs of every printing entry point into simulated failing writers", "Seeded search, not exhaustive over values. For each value drawn, a failure is placed at every byte and chunk when the text is short and at a biased sample otherwise."),
"C02": ("seeded runs with sinks that re-enter, panic, or meet refused memory; later calls compared with fresh processes", "Seeded search over values, re-entered calls and fault positions."),
"C03": ("seeded scheduler interleaving 2-4 threads at basic-block granularity; outcomes compared with isolated runs", "Sequentially consistent interleavings at basic-block edges and memory accesses; a slice of the runs repeats in Miri, whose seeded scheduler and store buffers give weak-memory outcomes."),
"C04": ("seeded scheduler stalling threads for ever inside calls; others must finish within a step bound", "Stalls are placed at seeded steps, at every kind of lock/global access and inside sinks and allocations; bounds are generous multiples of what calls need alone."),
"C05": ("long seeded call histories in one simulated process, call by call against fresh-process outcomes", "Histories up to 1.2 million calls drawn from pools of near-identical calls, with failing and interrupted calls mixed in."),
"C06": ("register programs with crashes at seeded steps and restarts from bit checkpoints, against a crash-free twin", "Seeded search; crash points at any step of any call, lost checkpoints."),
"C07": ("register programs restarted from text checkpoints, against a crash-free twin", "As C06 with values stored as default decimal text, plus an archive of up to 64 values written in the first life and read back in the last; NaNs are stored as bits."),
"C08": ("register programs restarted from torn, flipped and overwritten storage", "Seeded storage damage of bit patterns and texts; the loaded value must be well formed and stable, and later calls must return."),
"C09": ("seeded non-decimal calls with an allocator that refuses everything", "Seeded search over calls and operands."),
"C10": ("seeded decimal conversions with memory requests refused one by one", "Every request of a call is refused in turn when there are few, a biased sample otherwise."),
"C11": ("seeded decimal conversions under 40 allocator personalities with heap accounting", "Bounds are multiples of text length, field widths and exponent range."),
"C12": ("seeded switches of the host floating-point environment before and inside calls", "x86-64 MXCSR and x87 control words; unmasked exceptions included."),
"C13": ("two simulated replicas (checked, in order / optimised, reordered, duplicated, crash-restarted) of one operation log", "Debug and release builds on x86-64; a slice of the runs adds a replica on a 32-bit big-endian host (armeb, run by Miri)."),
"C14": ("crash-and-retry register programs against an independent reference machine", "Seeded search; the single-number formats (C15 has double-double)."),
"C15": ("crash-and-retry register programs over pairs of doubles against a reference pair machine", "Seeded search; the reference follows LLVM's definitions of this format over the exact machine of C14 and judges nothing where they are silent."),
}
NA = {}
for l in open("properties.jsonl"):
    p = json.loads(l)
    if p["id"].startswith("N"):
        NA[p["id"]] = p["title"]
reason = json.load(open("na-reasons.json"))
m = {"version": 1, "setup_cmd": "./setup.sh",
 "checks": [{"property": k, "quick_cmd": f"./check.sh {k}", "thorough_cmd": f"./check.sh {k}", "technique": "deterministic simulation with fault injection: " + t, "level": "exploration", "level_note": n} for k, (t, n) in T.items()],
 "not_applicable": [{"property": k, "reason": reason[k]} for k in NA]}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
