#!/usr/bin/env python3
"""Runs the same seeds twice, with different numbers of worker processes, and compares the
fingerprint (schedule trace, steps, outcome of every call) of every single run.

usage: determinism.py RUNS [SEED ...]
"""
import os, sys, tempfile
sys.dont_write_bytecode = True
import check

runs = int(sys.argv[1])
seeds = sys.argv[2:] or ["1", "2"]
bad = 0
for prop in check.RULES:
    binary = check.build(check.FLAVOUR.get(prop, "sim"))
    for seed in seeds:
        logs = []
        for workers in (8, 3, 5):
            with tempfile.TemporaryDirectory() as d:
                outs = check.run_batch(binary, prop, "quick", seed, 600, runs, workers, d)
                for o in outs:
                    if o.get("error") or o.get("violation"):
                        print(prop, seed, o.get("error") or o.get("violation"))
                        bad += 1
                lines = {}
                for f in os.listdir(d):
                    for l in open(os.path.join(d, f)):
                        i, h = l.split()
                        lines[int(i)] = h
                logs.append(lines)
        diff = [i for i in logs[0] if any(l.get(i) != logs[0][i] for l in logs[1:])]
        print(f"{prop} seed {seed}: {len(logs[0])} runs, three times each, {len(diff)} differ {diff[:5]}", flush=True)
        bad += len(diff)
sys.exit(1 if bad else 0)
