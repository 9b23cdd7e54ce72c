#!/usr/bin/env python3
"""Writes MANIFEST.json: what is claimed, how it is decided, what is not."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
T = "deterministic simulation with fault injection: "
G = "Real setup, prover, verifier, gadgets, pairing and the real rayon pool run under a simulated scheduler that owns every thread switch (also inside functions, at basic-block granularity). "
CL = {
 "G01": (T+"seeded schedules of concurrent proving sessions over generated circuits", G+"Samples circuits, assignments, sizes, worker counts, sessions and interleavings; trusts the model of what the gadgets' constraints mean."),
 "G02": (T+"Byzantine provers and a lossy, duplicating, reordering, corrupting network in front of concurrent verifiers", G+"Samples forgeries one alteration at a time plus violating provers; cryptographic forgeries that need solving discrete logarithms are out of reach by design."),
 "G03": (T+"seeded basic-block interleavings compared bit for bit with the single-threaded build", G+"Reference is the same code without worker threads (feature std off), compiled from the same tree; samples schedules."),
 "G04": (T+"healthy, stuck, repeating and switching random sources, faulty OS entropy", G+"Relations between blinding factors are decided with the pairing on the real proof elements; samples streams."),
 "G05": (T+"errors, panics and random-source failures injected at every step of concurrent operations, differential against the run without them", G+"Samples abort points; panics are unwound (the shipped profile aborts the process on panic, which this simulation deliberately relaxes)."),
 "G06": (T+"proof elements against an independent sequential model under random schedules, keys and sources", G+"The model has its own field, curve, interpolation and quotient code; it reads the constraint matrices through their public encoding and trusts those."),
 "G07": (T+"a Byzantine prover whose memory is corrupted while and after it assigns generated gadget programs", "Samples programs, values and corruptions; the forger covers up by local repair and forward recomputation, it does not solve the system algebraically."),
 "R01": (T+"faulty random sources and interrupted OS entropy against wide-integer reduction", "Samples byte streams, biased to the boundaries of the reduction; model integers are independent of the code under test."),
 "S01": (T+"fragmenting, failing and crashing byte streams", "Every encodable type; every truncation point of short encodings and sampled points of long ones."),
 "S02": (T+"bit flips, torn and misdirected writes, splices and adversarial bytes in the stored encodings", "Samples corruptions; validity is decided by the independent model's moduli and curve equations."),
 "N01": (T+"crash, restart and delivery faults between provers and verifiers of incremental proofs", "Real nova code end to end; one set of parameters per step-function pair, a few steps per run; most runs take commitments from the keys' known structure instead of summing them."),
 "N02": (T+"tampered, spliced and forged proofs in delivery", "Samples alterations of every part of the wire format, and repaired forgeries; does not search for algebraic attacks."),
 "N03": (T+"folding prover and verifier over a faulty message channel", "Small random constraint systems over both curves; shadow model of the fold."),
 "N04": (T+"malformed messages with a bounded simulated step budget", "Samples mutations of real messages."),
 "N05": (T+"a Byzantine prover whose memory is corrupted while and after it assigns a step of the incremental computation", "Real step circuit on both curves against an independent model of transcript hash, fold and base case; samples corruptions; an honest reduction may be non-canonical, all 256-bit representations of a residue are allowed."),
 "C02": (T+"multi-node chain over a faulty network and storage, replay after crashes", "Real sample pallet and verification pallet on stub frame crates (storage values, events, origins); consensus is a stub sequencer."),
 "C01": (T+"multi-node chain over a faulty network and storage", "Real pallet code against stub frame crates; consensus is a stub sequencer."),
}
BUILT = os.environ.get("BUILT", "").split() or json.load(open(f"{root}/tools/built.json"))
NA = "a pure function of its input: no schedule, time, I/O, fault or second party in it for a simulator to decide; its breakage is still noticed where it changes the outcome of a simulated run of the claimed properties"
hooks = subprocess.run(["git","-C","/repo","log","--format=%H %s"],capture_output=True,text=True).stdout.splitlines()
m = {"version": 1, "setup_cmd": "./setup.sh",
 "hooks": {"guard": "cfg(kogarashi_sim)", "enable": "RUSTFLAGS='--cfg kogarashi_sim' in sim/build.sh (never set by /repo's own build)",
   "source_commits": [l.split()[0] for l in hooks if l.split(' ',1)[1].startswith("sim:")]},
 "checks": [], "not_applicable": [],
 "notes": "Every check rebuilds an instrumented copy of /repo's tree under sim/target and explores seeded runs derived from VERIF_SEED; a violation leaves a replay file in replays/, repeated with sim/target/release/scen --replay FILE."}
for p in props:
    i = p["id"]
    if i in CL and i in BUILT:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": CL[i][0], "level": "exploration", "level_note": CL[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA if i not in CL else "no check built yet"})
json.dump(m, open(f"{root}/MANIFEST.json","w"), indent=1); print(len(m["checks"]), "checks")
