#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a bin/checks module is claimed, the rest is not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLA+ specification checked with TLC; '
TECH = {
 'C01': (T + 'layout events recorded from both floor planners validated against spec/FloorTrace.tla; exhaustive small programs generated by TLC from spec/FloorGen.tla are replayed through the code', 'model_checking'),
 'C02': (T + 'copy-merge algorithm model-checked (spec/PermAssembly.tla), TLC-generated copy histories replayed into keygen/mock prover, resulting sigma cycles validated (spec/PermTrace.tla)', 'model_checking'),
 'C03': (T + 'compiled gates of real keys compared row by row with the written gates (spec/SelTrace.tla); activation patterns enumerated by TLC', 'model_checking'),
 'C04': (T + 'lookup argument model-checked for soundness and completeness over a tiny field (spec/LookupArg.tla); recorded real proofs, verdicts and mock reports validated (spec/ProofTrace.tla, spec/MockTrace.tla)', 'model_checking'),
 'C05': (T + 'transcript state machine (spec/Transcript.tla): all operation sequences to a bound generated by TLC (spec/TranscriptGen.tla) and replayed into the real transcripts; recorded prover/verifier protocol runs validated against the specified message order (spec/ProofTrace.tla)', 'model_checking'),
 'C06': (T + 'multiopen grouping specified; query structures generated by TLC (spec/OpenGen.tla), recorded openings and tamperings validated (spec/OpenTrace.tla)', 'model_checking'),
 'C07': (T + 'opening argument specified over a transparent curve; recorded proofs and tamperings validated (spec/IpaTrace.tla)', 'model_checking'),
 'C08': (T + 'accumulator state machine (spec/Msm.tla): all behaviours to a bound generated by TLC and replayed into the real MSM', 'model_checking'),
 'C09': (T + 'batch verifier model-checked (spec/BatchVerify.tla): all batch compositions to a bound generated by TLC (spec/BatchGen.tla) and replayed into the real BatchVerifier at several thread counts', 'model_checking'),
 'C10': (T + 'table assignment model: all assignment sequences to a bound generated by TLC (spec/TableGen.tla), replayed through both planners, keygen and mock prover, and validated (spec/TableTrace.tla)', 'model_checking'),
 'C11': (T + 'MockProver reports on recorded circuits validated against the meaning of the circuit (spec/MockTrace.tla)', 'model_checking'),
 'C12': (T + 'full verifier equation specified (spec/ProofTrace.tla), recorded real proofs (honest, dishonest, tampered) validated', 'model_checking'),
 'C13': (T + 'mathematical definitions over a small field (spec/ArithTrace.tla); recorded results of the real routines at all sizes/thread counts validated', 'model_checking'),
 'C14': (T + 'row-boundary model (spec/BoundTrace.tla): accesses enumerated around the boundary, results of keygen/prove/verify/mock validated', 'model_checking'),
 'C15': (T + 'assigned-value algebra checked to be a homomorphism (spec/Assigned.tla); every operator on every operand shape, random trees and batched evaluation in the prover validated (spec/AssignedTrace.tla, spec/BatchTrace.tla)', 'model_checking'),
 'C16': (T + 'circuit identity relation (spec/VkTrace.tla) validated against real key digests of single-difference circuits', 'model_checking'),
 'C17': (T + 'Poseidon permutation and sponge specified (spec/Poseidon.tla, GadgetRel.tla); recorded primitive and circuit runs validated; honest, tampered and spliced witnesses of the real constraint system, flattened to variables, are checked against it (spec/Adversary.tla); TLC shows the output is forced for every witness of the extracted constraint system (spec/ForcedTrace.tla), and enumerates all witnesses over a small field (spec/Exhaust.tla)', 'model_checking'),
 'C18': (T + 'range-check and running-sum relations specified (spec/GadgetRel.tla); honest, tampered and spliced witnesses of the real constraint system, flattened to variables, are validated against it (spec/Adversary.tla); TLC shows digits and bounds are forced for every witness of the extracted constraint system (spec/ForcedTrace.tla), and enumerates all witnesses over small fields (spec/Exhaust.tla)', 'model_checking'),
 'C19': (T + 'conditional swap and multiplexer specified (spec/GadgetRel.tla); honest, tampered and spliced witnesses of the real constraint system, flattened to variables, are validated against it (spec/Adversary.tla); all witnesses over small fields enumerated (spec/Exhaust.tla) and outputs shown to be forced (spec/ForcedTrace.tla)', 'model_checking'),
 'C20': (T + 'SHA-256 specified (spec/Sha256.tla); recorded digests and assignments of the real circuit validated; the extracted constraint system is shown by TLC to force every digest word for all witnesses (spec/Forced.tla)', 'model_checking'),
 'C21': (T + 'group law and every ECC operation specified (spec/Curve.tla, GadgetRel.tla), fixed-base tables recomputed (spec/EccTables.tla); honest, tampered and spliced witnesses of the real constraint system, flattened to variables, are validated against it (spec/Adversary.tla); the operations without tables are enumerated over all witnesses of the same constraints at small primes (spec/Exhaust.tla)', 'model_checking'),
 'C22': (T + 'Sinsemilla hash, commitments and Merkle paths specified (spec/Sinsemilla.tla, GadgetRel.tla); honest, tampered and spliced witnesses of the real constraint system, flattened to variables, are validated against it (spec/Adversary.tla)', 'model_checking'),
 'C23': (T + 'proof-size accounting derived from the specified protocol (spec/SizeTrace.tla) validated against the cost model and real proofs', 'model_checking'),
 'C24': ('TLA+ state machine that reads a proof message by message and keeps the directions of randomness revealed so far (spec/Blinding.tla on spec/ProofTrace.tla), validated with TLC on how every message of real proofs moves with every draw of the prover', 'model_checking'),
}
NOTE = {}
NA = {}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, 'bin', 'checks', p.lower() + '.py')):
        t, lv = TECH[p]
        c = dict(property=p, quick_cmd=f'VERIF_TIER=quick bin/check {p}', thorough_cmd=f'VERIF_TIER=thorough bin/check {p}', technique=t, level=lv)
        c['level_note'] = NOTE.get(p, 'TLC checks the specification and validates every recorded behaviour of the real code against it, within the bounds in DESIGN.md; see the assumptions in the evidence file')
        checks.append(c)
    else:
        na.append(dict(property=p, reason=NA.get(p, 'not built yet: the specification for this part is planned in DESIGN.md')))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
