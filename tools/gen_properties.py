#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so that the long lines stay editable).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- Groth16
prop("G01", "Honest Groth16 proofs verify, whatever the circuit, randomness and schedule",
 "For every circuit and every assignment that satisfies it, key generation and proving succeed and the resulting proof is accepted by the verifier from the same key generation for the assignment's public inputs. This holds for every number of constraints, public inputs and private values, every random stream, every number of worker threads, every interleaving of the workers, and any number of proving sessions running at the same time in one process.",
 ["inputs", "programs", "schedules", "histories"],
 "all circuits built from the public gadgets and gates, all satisfying assignments, all random streams, all worker counts and interleavings of workers and sessions, all orders of setup/prove/verify calls",
 "The only end-to-end test proves one 4-constraint circuit once, with one assignment and whatever schedule the machine picked; sizes that are not a power of two, zero or repeated values, many inputs, several proofs per key and concurrent sessions are never run.",
 ["groth16/src/zksnark.rs", "groth16/src/prover.rs", "groth16/src/verifier.rs", "groth16/src/proof.rs", "groth16/src/fft.rs", "groth16/src/msm.rs", "groth16/src/poly.rs", "zkstd/src/r1cs.rs", "zkstd/src/circuit/gadget/field.rs", "zkstd/src/circuit/gadget/binary.rs", "zkstd/src/circuit/gadget/curve.rs", "zkstd/src/matrix/row.rs", "bn254/src/pairing.rs"],
 [("key generation", "groth16/src/zksnark.rs ZkSnark::setup, eval"), ("quotient polynomial", "groth16/src/prover.rs create_proof; groth16/src/fft.rs"), ("multi-exponentiation", "groth16/src/msm.rs"), ("pairing check", "groth16/src/proof.rs Proof::verify")],
 ["ZkSnark::setup result", "Prover::create_proof result", "Verifier::verify result"])

prop("G02", "Groth16 never accepts a false statement, a foreign proof or altered inputs",
 "A verifier accepts a delivered proof only for the statement it proves: it rejects a proof one of whose elements was replaced, a proof made under other keys, and public inputs that differ in value, order or number from those proved, and a prover that runs on an assignment violating the circuit never obtains an accepted proof. Inputs of the wrong number are reported as such with the expected and provided counts, everything else as a failed verification, and verification itself never crashes and leaves the verifier usable for the next delivery.",
 ["inputs", "fault_sequences", "histories", "schedules"],
 "all sequences of deliveries (intact, duplicated, reordered, mixed between sessions, corrupted) of proofs and public inputs from honest and Byzantine provers to any set of verifiers, in any interleaving",
 "No test ever feeds the verifier anything but the one honest proof with the right inputs, so a verifier that accepted everything would pass all 133 tests.",
 ["groth16/src/proof.rs", "groth16/src/verifier.rs", "groth16/src/zksnark.rs", "groth16/src/error.rs", "bn254/src/pairing.rs", "bn254/src/gt.rs"],
 [("input count check and pairing equation", "groth16/src/proof.rs Proof::verify"), ("prepared key", "groth16/src/verifier.rs VerifyingKey::prepare"), ("input part of the key", "groth16/src/zksnark.rs eval")],
 ["Verifier::verify result"], "a proof has no public constructor or accessor: cfg(kogarashi_sim) Proof::sim_parts / sim_from_parts")

prop("G03", "Keys and proofs do not depend on threads, schedule or concurrent sessions",
 "Key generation and proving are functions of the circuit, the key and the random stream alone: the same inputs give bit-identical keys and proofs for every number of worker threads, every interleaving of the workers, whatever other sessions run in the process at the same time or ran before, and in the build without worker threads. Verification of the same delivery always gives the same answer.",
 ["schedules", "histories", "configurations"],
 "all worker counts, all interleavings at basic-block granularity, all mixes and orders of concurrent sessions, both the threaded and the single-threaded build",
 "Tests run each function once under an uncontrolled schedule and compare with nothing computed elsewhere; a dependence on schedule, on a previous session or on the build shows up only for particular interleavings or histories.",
 ["groth16/src/fft.rs", "groth16/src/msm.rs", "groth16/src/prover.rs", "groth16/src/zksnark.rs"],
 [("fork-join transform", "groth16/src/fft.rs classic_fft_arithmetic"), ("parallel buckets", "groth16/src/msm.rs msm_curve_addition"), ("serial variants", "cfg(not(feature = std)) branches of both")],
 ["Prover.params, proof elements, Verifier::verify result"], "cfg(kogarashi_sim) Proof::sim_parts to read the proof elements")

prop("G04", "Proving randomness is fresh, independent and comes only from the given source",
 "Every proof draws its blinding from the caller's random source: under a healthy source the two blinding factors of a proof, those of different proofs and the secrets of a key generation are pairwise different, so no element of two proofs of the same statement coincides, and the same stream reproduces the same result. Under a degraded source (stuck, repeating, all zero, all one, biased) key generation either returns an error or yields keys under which honest proofs verify; it never crashes and never consults another source.",
 ["inputs", "fault_sequences", "histories"],
 "all random streams, healthy or faulty, switching between fault modes at any draw, all sequences of key generations and proofs on one stream, all states of the operating system's entropy source",
 "The tests use the operating system's randomness once; a fixed, reused or dropped blinding factor still verifies, so no test can notice it, and faulty sources are never tried.",
 ["groth16/src/zksnark.rs", "groth16/src/prover.rs", "zkstd/src/macros/field/group.rs", "zkstd/src/arithmetic/limbs/bits_256/represent.rs"],
 [("trapdoor sampling", "groth16/src/zksnark.rs ZkSnark::setup"), ("blinding r, s", "groth16/src/prover.rs create_proof"), ("degenerate trapdoor check", "groth16/src/zksnark.rs invert().ok_or")],
 ["random source calls", "Prover.params", "proof elements"], "cfg(kogarashi_sim) Proof::sim_parts")

prop("G05", "An aborted setup or proof leaves keys and later results untouched",
 "When a circuit reports an error, panics while building its constraints, or the random source fails in the middle of an operation, the caller sees exactly that failure, keys are unchanged, and every operation before and after gives the result it would have given had the aborted one never been attempted. This holds for aborts at every point and for other sessions running at the same time.",
 ["crash_points", "histories", "fault_sequences", "schedules"],
 "all points at which a synthesis or a random draw can fail, all sequences of failing and succeeding operations on shared keys, all interleavings with other sessions",
 "No test makes a circuit or a random source fail, and none reuses a prover after anything.",
 ["groth16/src/prover.rs", "groth16/src/zksnark.rs", "groth16/src/circuit.rs"],
 [("error propagation", "groth16/src/prover.rs circuit.synthesize(&mut cs)?; groth16/src/zksnark.rs"), ("constraint system per call", "R1cs::default() in setup and create_proof")],
 ["setup / create_proof results", "Prover.params"], "cfg(kogarashi_sim) Proof::sim_parts")

prop("G06", "A proof consists of exactly the sums the key and the assignment define",
 "The elements of a proof are the group elements that the proving equations prescribe for the key, the satisfying assignment and the blinding factors: multi-exponentiations equal the term-by-term sum of scaled points and the quotient polynomial equals the exact quotient, for keys and assignments of every size, for zero, one, small, maximal and repeated scalars, for repeated, negated and identity points, under every worker count and schedule.",
 ["inputs", "schedules", "configurations"],
 "all keys (also ones with repeated, negated or identity points), all satisfying assignments, all sizes, all worker counts and interleavings",
 "Tests sample 32 random points with random scalars and one polynomial size, uncontrolled in schedule; the window size changes with the length and edge scalars and points are never tried.",
 ["groth16/src/prover.rs", "groth16/src/msm.rs", "groth16/src/fft.rs", "groth16/src/poly.rs", "zkstd/src/arithmetic/points/weierstrass.rs", "bn254/src/g1.rs", "bn254/src/g2.rs"],
 [("bucket method with length-dependent window", "groth16/src/msm.rs"), ("coset division", "groth16/src/fft.rs divide_by_z_on_coset, coset_dft, coset_idft"), ("assembly of A, B, C", "groth16/src/prover.rs create_proof")],
 ["proof elements against an executable sequential model"], "cfg(kogarashi_sim) Proof::sim_parts")

prop("G07", "Gadgets admit exactly the assignments in which every result is right",
 "A constraint system built from any sequence of circuit gadgets (bits, field elements, points; arithmetic, comparison, selection, decomposition, scalar multiplication) has constraints that do not depend on the assigned values. The honest assignment gives every gadget the value its native counterpart computes and satisfies the system exactly when every asserted statement is true; every other assignment that satisfies it, however a dishonest prover came by it, still gives every gadget the right result for its operands. The satisfaction check says so.",
 ["inputs", "programs", "fault_sequences"],
 "all sequences of gadgets on all values and points over either curve, and all assignments a prover can reach by corrupting values while or after assigning them and covering up",
 "Tests assign a handful of honest values and a few wrong results; no test changes an internal wire, so a missing constraint is invisible.",
 ["zkstd/src/circuit/gadget/field.rs", "zkstd/src/circuit/gadget/binary.rs", "zkstd/src/circuit/gadget/curve.rs", "zkstd/src/r1cs.rs", "zkstd/src/matrix/row.rs"],
 [("value and constraint emission per gadget", "zkstd/src/circuit/gadget/*.rs"), ("satisfaction check", "zkstd/src/r1cs.rs is_sat"), ("linear combinations", "zkstd/src/matrix/row.rs")],
 ["values of the assigned gadgets, R1cs::matrices, R1cs::is_sat"], "a test double for a dishonest prover: cfg(kogarashi_sim) zkstd::r1cs::sim corrupts a witness while it is assigned")

# ---------------------------------------------------------------- randomness
prop("R01", "Random sampling yields valid elements from any random source",
 "Sampling a field element or curve point from a caller-supplied source always returns a canonical element below the modulus that equals the bytes drawn, read as one wide integer and reduced by the modulus (component by component for extension fields), respectively a point on the curve that is the group's generator scaled by that integer. This holds for every byte stream, including stuck, all-zero, all-one and boundary streams, however the source delivers or interrupts them.",
 ["inputs", "fault_sequences"],
 "all byte streams of a random source and all fault patterns (stuck-at, repeats, switching, interrupted and short operating system reads)",
 "Tests draw uniformly random bytes, which never hit the boundaries of the wide reduction, and never look at the relation between drawn bytes and result.",
 ["zkstd/src/macros/field/group.rs", "zkstd/src/arithmetic/limbs/bits_256/represent.rs", "zkstd/src/macros/curve/weierstrass/group.rs", "zkstd/src/macros/extension_field/group.rs", "bn254/src/fr.rs", "bn254/src/fq.rs"],
 [("wide reduction", "zkstd/src/arithmetic/limbs/bits_256/represent.rs random_limbs, from_u512"), ("point sampling", "zkstd/src/macros/curve/weierstrass/group.rs random")],
 ["Group::random results"])

# ---------------------------------------------------------------- streams
prop("S01", "Encoding round-trips over any stream, and broken streams give errors",
 "Whatever is encoded decodes to an equal value and consumes exactly its own bytes, for every encodable type, however a transport fragments the stream and however many values follow each other on it. If the stream ends or fails at any byte, decoding reports an error instead of a value and never crashes, and a retry from an intact copy succeeds.",
 ["inputs", "fault_sequences", "crash_points", "histories"],
 "all values, all fragmentations, all concatenations, all positions and kinds of stream failure",
 "No test encodes or decodes anything; the chain test passes values in memory.",
 ["nova/src/proof.rs", "nova/src/ivc.rs", "nova/src/pedersen.rs", "nova/src/relaxed_r1cs.rs", "nova/src/relaxed_r1cs/instance.rs", "nova/src/relaxed_r1cs/witness.rs", "zkstd/src/matrix.rs", "zkstd/src/matrix/row.rs", "zkstd/src/matrix/vector.rs", "zkstd/src/r1cs/wire.rs", "bn254/src/g1.rs", "bn254/src/g2.rs", "bn254/src/fr.rs", "bn254/src/fq.rs", "grumpkin/src/curve.rs"],
 [("SCALE codec of every wire type", "Encode/Decode derives and impls"), ("field codec", "zkstd/src/macros/field.rs")],
 ["Encode::encode_to, Decode::decode over a caller-supplied Input"])

prop("S02", "Bytes from an untrusted medium never decode to an invalid value",
 "Decoding bytes damaged in storage or chosen by a peer yields either an error or a value that is valid for its type: field elements are canonical (below the modulus) and curve points lie on their curve. Two different byte strings never decode to the same field element, and no byte string makes decoding crash.",
 ["inputs", "fault_sequences", "crash_points"],
 "all byte strings reachable by bit flips, torn and misdirected writes, splices of other messages, or a peer's choice",
 "No test decodes anything, and random valid values never reach the boundary.",
 ["zkstd/src/macros/field.rs", "bn254/src/fr.rs", "bn254/src/fq.rs", "bn254/src/g1.rs", "bn254/src/g2.rs", "grumpkin/src/curve.rs", "nova/src/proof.rs", "nova/src/ivc.rs"],
 [("validation on decode", "Decode impls of the field and point types")],
 ["Decode::decode result, re-encoding, is_on_curve"])

# ---------------------------------------------------------------- Nova
prop("N01", "Honest incremental computation verifies at every step and can be resumed",
 "For every pair of step functions on single values and every pair of starting states, the proof returned after each step states the right step count and the right output of applying the functions that often, and verifies, also after travelling as bytes and also when it is delivered late, repeatedly or out of order. Neither its size nor the work of verifying it grows with the number of steps. A prover that crashes after any number of steps and starts again from the initial state with the same parameters produces the same proofs again.",
 ["histories", "crash_points", "inputs", "programs"],
 "all step functions, initial states, numbers of steps, crash and restart points of the prover, delivery orders of the proofs, and alternations of several provers sharing parameters",
 "The crate's tests fold toy instances; the incremental computation itself is exercised only by a chain test that is not built, for three steps from zero, and checked once at the end.",
 ["nova/src/ivc.rs", "nova/src/proof.rs", "nova/src/circuit/augmented.rs", "nova/src/circuit/nifs.rs", "nova/src/circuit/transcript.rs", "nova/src/gadget/relaxed_instance.rs", "nova/src/gadget/big_nat.rs", "nova/src/gadget/mimc.rs", "nova/src/hash.rs", "nova/src/prover.rs"],
 [("prove_step state update", "nova/src/ivc.rs Ivc::prove_step"), ("in-circuit folding verifier", "nova/src/circuit/nifs.rs"), ("base case", "nova/src/ivc.rs Ivc::init")],
 ["RecursiveProof::verify, encoded proof bytes"],
 None, [("i, zi", "step counter and current outputs", "nova/src/ivc.rs Ivc"), ("running instances", "accumulated folded instances", "nova/src/ivc.rs Ivc")])

prop("N02", "A tampered, spliced or misattributed incremental proof is rejected",
 "A delivered incremental proof is accepted only if it is a proof the computation yields: changing the claimed step count, the initial or final states, or any part of an instance, commitment, witness or error vector, combining parts of proofs from different steps or runs, or checking against other parameters makes verification return false. In particular every committed value must match its commitment, and a forged witness made to satisfy the equations is rejected.",
 ["inputs", "fault_sequences", "histories"],
 "all single- and multi-part alterations, replays, splices between steps and runs, and adversarially repaired forgeries of proofs of any history",
 "No test verifies a wrong proof; a verifier returning true would pass.",
 ["nova/src/proof.rs", "nova/src/relaxed_r1cs.rs", "nova/src/relaxed_r1cs/instance.rs", "nova/src/hash.rs", "nova/src/pedersen.rs"],
 [("hash binding of step count, states and accumulators", "nova/src/proof.rs RecursiveProof::verify"), ("satisfiability and commitment checks", "nova/src/relaxed_r1cs.rs is_sat, is_sat_relaxed")],
 ["RecursiveProof::verify over decoded bytes"])

prop("N03", "Folding prover and verifier agree and folding preserves satisfaction exactly",
 "For every sequence of instances, the verifier that receives the instances and the cross-term commitments derives exactly the folded instance the prover holds, and the folded witness satisfies it with matching commitments if every folded input did; folding in an unsatisfied or mismatched input yields an unsatisfied result. Challenges bind the running instance, the cross term and the folded instance. A verifier that received a lost, stale, altered, repeated or reordered message derives a different instance, and after retransmission of the right messages both agree again.",
 ["histories", "fault_sequences", "inputs", "programs"],
 "all constraint systems over either curve, all sequences of folded instances of any length, all loss, duplication, reordering and corruption of the messages between prover and verifier",
 "Tests fold one fixed circuit shape with small values, always from the same starting accumulator, on one curve, with perfect delivery; they compare constraints but not commitments after folding.",
 ["nova/src/prover.rs", "nova/src/verifier.rs", "nova/src/relaxed_r1cs.rs", "nova/src/relaxed_r1cs/instance.rs", "nova/src/relaxed_r1cs/witness.rs", "nova/src/hash.rs", "nova/src/pedersen.rs", "zkstd/src/matrix.rs"],
 [("challenge derivation", "nova/src/prover.rs prove; nova/src/verifier.rs verify"), ("fold of instance and witness", "nova/src/relaxed_r1cs/instance.rs fold; witness.rs fold"), ("cross term", "nova/src/prover.rs compute_cross_term")],
 ["Prover::prove, Verifier::verify, R1csShape::is_sat, is_sat_relaxed, encoded instances"])

prop("N04", "Verification of any delivered bytes terminates with accept or reject",
 "Whatever bytes reach a node as an incremental proof, and as parameters where these are part of the message, decoding and verifying them ends in an error, a rejection or an acceptance within a bounded amount of work; it never panics, aborts, overflows the stack or runs away. A node that handled a malformed message verifies the next valid one as before.",
 ["inputs", "fault_sequences", "histories", "crash_points"],
 "all byte strings: truncated, extended, bit-flipped, re-assembled messages and well-formed messages with inconsistent lengths, indices or counts",
 "No test delivers anything malformed; the build aborts on panic, so one bad message stops a node.",
 ["nova/src/proof.rs", "nova/src/relaxed_r1cs.rs", "zkstd/src/matrix.rs", "zkstd/src/matrix/vector.rs", "pallet/nova/src/lib.rs"],
 [("shape and length checks before use", "nova/src/proof.rs RecursiveProof::verify"), ("bounded decoding", "Decode impls")],
 ["RecursiveProof::verify over decoded bytes, simulated step count"])

prop("N05", "The step circuit admits exactly the transitions of the computation",
 "The circuit proven in each step of an incremental computation has constraints that do not depend on its inputs. Honest inputs satisfy it, and its public values are the passed-on hash and the hash of the next state: step count plus one, initial state, step function of the current state, and the accumulator that folding verifiers derive; the first step starts from the initial state and the empty accumulator. No assignment a dishonest prover can reach satisfies it with other public values than those that its inputs prescribe, or with inputs whose hash is not the one passed on.",
 ["inputs", "programs", "fault_sequences"],
 "all step functions, step counts, states, instances and commitments on both curves, and all assignments a prover can reach by corrupting values while or after assigning them and covering up",
 "Tests synthesise the circuit for a few honest steps; none changes an internal value, and every hash, fold and big-number relation in it could be left unconstrained unnoticed.",
 ["nova/src/circuit/augmented.rs", "nova/src/circuit/nifs.rs", "nova/src/circuit/transcript.rs", "nova/src/gadget/big_nat.rs", "nova/src/gadget/mimc.rs", "nova/src/gadget/instance.rs", "nova/src/gadget/relaxed_instance.rs", "nova/src/hash.rs", "zkstd/src/circuit/gadget/field.rs"],
 [("base case and hash check", "nova/src/circuit/augmented.rs generate"), ("in-circuit fold", "nova/src/circuit/nifs.rs verify"), ("non-native reduction", "nova/src/gadget/big_nat.rs mult_mod, red_mod"), ("in-circuit transcript", "nova/src/circuit/transcript.rs")],
 ["R1cs::is_sat and public values of a synthesised step"], "cfg(kogarashi_sim) zknova::sim::step synthesises one step; zkstd::r1cs::sim corrupts a witness while it is assigned")

# ---------------------------------------------------------------- chain
prop("C01", "All nodes of a chain reach the same, right verdict on every submitted proof",
 "In a network of nodes running the verification pallet, every node that executes a submission reaches the same outcome: success exactly for a valid proof under the submitted parameters from a signed origin, the invalid-proof error for any other proof, and the bad-origin error for an unsigned or privileged origin, whether called directly or as another pallet's service. Outcomes do not depend on message loss, duplication, reordering, partitions, or crashes and restarts with replay from durable storage, and once faults stop every valid submission is executed by every node within a bounded number of steps.",
 ["histories", "fault_sequences", "crash_points", "schedules"],
 "all sequences of submissions by honest and Byzantine clients, all network and storage faults, crash and restart points of the nodes",
 "The pallet's single test calls it once in memory with one honest proof and is not built in the reference environment; no test submits a bad proof, an unsigned call, or runs more than one node.",
 ["pallet/nova/src/lib.rs", "pallet/nova/src/traits.rs", "pallet/nova/src/types.rs", "nova/src/proof.rs"],
 [("origin check", "pallet/nova/src/lib.rs verify ensure_signed"), ("verdict to dispatch result", "pallet/nova/src/lib.rs IvcVerifier::verify")],
 ["dispatch results of the pallet call on every node"])

prop("C02", "State guarded by a proof changes on every node exactly with valid proofs",
 "In a network of nodes running the sample storage pallet, the guarded value is set exactly by calls that carry a valid proof under their parameters and come from a signed origin, and the other value exactly by calls from a signed origin, each to the value given and with one event naming the value; a call that fails leaves storage and events as they were and reports why. The reported sum is that of both values, at most the largest number it can hold. All nodes that executed the same calls hold the same storage and events whatever messages were lost, duplicated or reordered and wherever nodes crashed and replayed, and once faults stop every call is executed by every node within a bounded number of steps.",
 ["histories", "fault_sequences", "crash_points", "schedules"],
 "all sequences of calls by honest and Byzantine clients with any values and proofs, all network and storage faults, crash and restart points of the nodes",
 "The sample's two tests check the default sum and one successful call in memory, and are not built in the reference environment; none sends a bad proof, an unsigned call, a second value or an overflowing sum.",
 ["sample/src/lib.rs", "sample/src/client.rs", "pallet/nova/src/lib.rs"],
 [("verification before the change", "sample/src/lib.rs set_thing_1"), ("origin check", "sample/src/lib.rs set_thing_2 ensure_signed"), ("sum of the values", "sample/src/lib.rs get_sum")],
 ["dispatch results, storage values, events and sum on every node"])

# ---------------------------------------------------------------- pure functions (not applicable)
def pure(id, title, statement, text, files, mech):
    prop(id, title, statement, ["inputs"], text,
     "Tests sample random inputs with fixed shapes; the boundary inputs of multi-limb and tower arithmetic have negligible probability under uniform sampling.",
     files, mech, ["return values"])
pure("F01", "Prime field arithmetic satisfies the field axioms on every representation",
 "Addition, subtraction, multiplication, squaring, negation, inversion, exponentiation and conversion of both prime fields, by value and by reference, agree with integer arithmetic modulo the prime and return canonical results for all operands.",
 "all pairs of field elements", ["zkstd/src/arithmetic/limbs/bits_256/normal.rs", "zkstd/src/macros/field.rs", "zkstd/src/macros/field/group.rs", "zkstd/src/macros/field/ring.rs"], [("Montgomery arithmetic", "zkstd/src/arithmetic/limbs/bits_256/normal.rs")])
pure("F02", "Extension tower arithmetic satisfies the field axioms",
 "The quadratic, sextic and dodecic extension fields form fields over their base under every operator form, with Frobenius maps equal to exponentiation by the characteristic.",
 "all operands", ["bn254/src/fqn.rs", "zkstd/src/macros/extension_field/group.rs", "zkstd/src/macros/extension_field/ring.rs"], [("tower formulas", "bn254/src/fqn.rs")])
pure("F03", "Curve operations form a group in every coordinate and operator form",
 "Point addition, doubling, subtraction, negation and scalar multiplication agree across affine, projective and mixed forms, by value and by reference, including identity, equal and opposite operands.",
 "all points and scalars", ["zkstd/src/arithmetic/points/weierstrass.rs", "zkstd/src/macros/curve.rs", "zkstd/src/macros/curve/weierstrass/group.rs", "bn254/src/g1.rs", "bn254/src/g2.rs", "grumpkin/src/curve.rs"], [("complete addition formulas", "zkstd/src/arithmetic/points/weierstrass.rs")])
pure("F04", "The pairing is bilinear and non-degenerate",
 "For all points and scalars the pairing of scaled points equals the pairing raised to the product of the scalars, it is trivial exactly if an argument is the identity, and the product form equals the product of single pairings.",
 "all points and scalars", ["bn254/src/pairing.rs", "bn254/src/gt.rs", "bn254/src/g2.rs"], [("Miller loop and final exponentiation", "bn254/src/pairing.rs; bn254/src/fqn.rs final_exp")])
pure("F06", "Linear-combination and matrix algebra is exact",
 "Sums, differences, scalings and products of sparse rows, matrices and dense vectors equal the mathematical ones, for every mix of overlapping, cancelling and constant terms.",
 "all rows, matrices and vectors", ["zkstd/src/matrix.rs", "zkstd/src/matrix/row.rs", "zkstd/src/matrix/vector.rs", "zkstd/src/r1cs.rs"], [("row addition with term merging", "zkstd/src/matrix/row.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
