#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (edit here, then run)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
HP='halo2_proofs/src/'
HG='halo2_gadgets/src/'
p('C01','Floor planners lay out every region faithfully and without overlap',
 'For every circuit and either floor planner, each region is placed as one block: every assignment, selector activation and equality request lands at region start + offset with the value given, no two regions (nor a region and a planner-placed constant or lookup table) claim the same rows of the same column, and every requested constant or instance copy is realised by a real cell with that value tied to the requesting cell. The layout depends only on the circuit structure, never on witness values, so key generation, proving and mock proving see the same layout.',
 ['programs','inputs'],'All sequences of region/table/instance requests over any columns, both planners, with and without witnesses.',
 'Unit tests run a couple of fixed circuits and check that they prove; a planner bug needs a specific mix of shapes (shared columns, gaps, constants, empty regions).',
 [HP+'circuit/floor_planner/single_pass.rs',HP+'circuit/floor_planner/v1.rs',HP+'circuit/floor_planner/v1/strategy.rs',HP+'circuit/layouter.rs',HP+'circuit.rs'],
 [('slot_in / slot_in_biggest_advice_first, column allocations',HP+'circuit/floor_planner/v1/strategy.rs'),('SingleChipLayouter column heights',HP+'circuit/floor_planner/single_pass.rs')],
 ['FloorPlanner::synthesize driving a recording Assignment'])
p('C02','Copy constraints are exactly the requested equivalence classes',
 'Whatever sequence of equality requests a circuit makes (repeated, redundant, chained, merging large groups, between advice, fixed and instance cells), the permutation built at key generation has cycles that are exactly the classes of the equivalence relation generated by the requests, each cell in exactly one cycle. A witness passes the copy constraints if and only if all cells of each class hold equal values, in the prover/verifier and in the mock prover alike, and equality on a column that was not enabled for it is refused.',
 ['histories','programs'],'All sequences of equality requests over all cells of all equality-enabled columns.',
 'Tests exercise a few copies in fixed circuits; cycle merging bugs depend on merge order and on repeats.',
 [HP+'plonk/permutation/keygen.rs',HP+'plonk/permutation.rs',HP+'plonk/permutation/prover.rs',HP+'plonk/permutation/verifier.rs',HP+'dev.rs'],
 [('Assembly::copy cycle merge with aux/sizes',HP+'plonk/permutation/keygen.rs'),('build_vk/build_pk sigma polynomials',HP+'plonk/permutation/keygen.rs')],
 ['keygen_vk permutation commitments','MockProver::verify permutation failures','create_proof/verify_proof outcome'],
 [('mapping','next cell in the cycle',HP+'plonk/permutation/keygen.rs')])
p('C03','Selector compression never changes which constraints are active',
 'For every constraint system and every pattern of enabled selectors, the compiled circuit enforces exactly the constraints written by the developer: at every row, a compiled gate or lookup expression has the value of the original one with its selectors read as 1 where enabled and 0 elsewhere, up to a non-zero factor on simple-selector gates. Compression never raises the degree of the constraint system above its declared degree and never merges two selectors that are enabled on a common row.',
 ['programs','configurations'],'All sets of gates/lookups with simple and complex selectors, all activation patterns, all degrees.',
 'The existing property tests only cover the combination routine on random abstract descriptions; they do not link it with substituted expressions, complex selectors or fixed-column contents.',
 [HP+'plonk/circuit/compress_selectors.rs',HP+'plonk/circuit.rs',HP+'plonk/keygen.rs'],
 [('compress_selectors::process',HP+'plonk/circuit/compress_selectors.rs'),('ConstraintSystem::compress_selectors replacing selectors',HP+'plonk/circuit.rs')],
 ['vk.pinned() constraint system and fixed commitments','MockProver failures'])
p('C04','A lookup holds exactly when every input tuple is a row of the table',
 'For every lookup (one or several columns, any expressions, any multiplicities, any table padding), an honest prover succeeds and its proof verifies if and only if on every usable row the tuple of input expressions equals the tuple of table columns on some usable row. The prover reports the constraint failure instead of producing a proof when an input is missing, and the mock prover reports exactly the missing rows.',
 ['programs','inputs'],'All tables, inputs, multiplicities, active-row patterns, and numbers of lookups.',
 'Tests use one or two tables with honest inputs; duplicates, inputs only present in the padding, values at the last usable row and multi-column tuples matched column-wise but not row-wise are unsampled.',
 [HP+'plonk/lookup/prover.rs',HP+'plonk/lookup/verifier.rs',HP+'plonk/lookup.rs',HP+'dev.rs'],
 [('permute_expression_pair',HP+'plonk/lookup/prover.rs'),('lookup expressions',HP+'plonk/lookup/verifier.rs')],
 ['create_proof result','verify_proof result','MockProver lookup failures','opened evaluations in the proof'])
p('C05','Fiat-Shamir transcript binds everything, in order, and prover=verifier',
 'Each challenge is a function of every preceding transcript operation (verifying key, public inputs, each point and scalar, each earlier challenge, with points, scalars and challenges domain-separated), and the prover and the verifier perform the same sequence of operations with the same values. Every prover message is absorbed before the first challenge that is meant to depend on it, and reading refuses non-canonical scalars, invalid points, the identity point and truncated proofs without panicking.',
 ['histories','programs','inputs'],'All sequences of transcript operations; all circuits and batch sizes; all proof byte strings.',
 'Tests only check honest round trips; omitting an absorb or swapping a challenge keeps honest proofs verifying.',
 [HP+'transcript.rs',HP+'plonk/prover.rs',HP+'plonk/verifier.rs',HP+'plonk/lookup/prover.rs',HP+'plonk/permutation/prover.rs',HP+'plonk/vanishing/prover.rs',HP+'poly/multiopen/prover.rs',HP+'poly/commitment/prover.rs'],
 [('Blake2bRead/Blake2bWrite',HP+'transcript.rs'),('hash_into and instance commitments',HP+'plonk.rs')],
 ['Transcript trait calls recorded around create_proof and verify_proof'])
p('C06','Multi-point opening is complete, and sound for every query set',
 'For every set of queries (any polynomials, any overlap of points, single or many point sets), the opening proof made from the true evaluations verifies, and it is rejected when any one claimed evaluation, point, commitment or proof element is changed; asking for the same polynomial at the same point twice is refused by both sides. Prover and verifier group the queries identically whatever the order and overlap of the points.',
 ['inputs','programs'],'All query multisets over polynomials and points; all single-element alterations.',
 'One round-trip test with a handful of queries.',
 [HP+'poly/multiopen.rs',HP+'poly/multiopen/prover.rs',HP+'poly/multiopen/verifier.rs'],
 [('construct_intermediate_sets',HP+'poly/multiopen.rs')],
 ['poly::multiopen::create_proof / verify_proof'])
p('C07','Commitments open only to the committed polynomial evaluation',
 'For every polynomial, blinding factor and point, committing in coefficient or Lagrange form gives the same Pedersen commitment, the inner-product opening for the true evaluation verifies, and it is rejected if the evaluation, the point, the commitment or any proof element is altered. Parameters survive a write/read round trip, are determined by k alone, and delayed verification through the accumulated generator gives the same verdict as direct verification.',
 ['inputs','configurations'],'All polynomials, blinds, points, k; all single-element alterations of proofs.',
 'One opening at one random point per test.',
 [HP+'poly/commitment.rs',HP+'poly/commitment/prover.rs',HP+'poly/commitment/verifier.rs'],
 [('create_proof',HP+'poly/commitment/prover.rs'),('verify_proof, Guard, compute_s',HP+'poly/commitment/verifier.rs'),('Params::new/read/write/commit/commit_lagrange',HP+'poly/commitment.rs')],
 ['commitment::{create_proof, verify_proof}','Params','Guard::{use_challenges,use_g,compute_g}','Accumulator'])
p('C08','The deferred multi-scalar accumulator denotes the sum it was given',
 'For every sequence of operations on an accumulator (append term, add to the generator scalars, add to the w/u scalars, scale, merge with another accumulator), evaluation succeeds exactly when the algebraic sum of everything accumulated, with every scaling applied to all and only the terms accumulated before it, is the identity.',
 ['histories'],'All finite sequences of accumulator operations, including cancelling and repeated bases.',
 'A single test with a few operations.',
 [HP+'poly/commitment/msm.rs'],[('MSM',HP+'poly/commitment/msm.rs')],['MSM::{append_term,add_to_g_scalars,add_constant_term,add_to_w_scalar,add_to_u_scalar,scale,add_msm,eval}'])
p('C09','Batch verification accepts exactly the batches of valid proofs',
 'For every batch of proofs, in any order and under any thread schedule, batch verification accepts if and only if every proof in it verifies on its own against its instances, except with negligible probability over the verifier randomness. In particular two invalid proofs whose errors cancel are rejected, an empty batch is accepted, and no proof can be skipped.',
 ['histories','schedules','fault_sequences'],'All batch compositions (valid, invalid, wrong instances, duplicated, mutually cancelling) and all schedules of the parallel verification.',
 'One test batches valid proofs only; nothing exercises a failing member or cancelling errors.',
 [HP+'plonk/verifier/batch.rs',HP+'plonk/verifier.rs'],[('BatchVerifier::finalize, random accumulation',HP+'plonk/verifier/batch.rs')],['BatchVerifier::finalize result'])
p('C10','Lookup tables are assigned completely, once, with consistent default',
 'For every sequence of table assignments, the table that the circuit sees on each column is exactly the assigned cells at their absolute rows followed, down to the last usable row, by the value assigned at row 0. Reassigning a column already used by another table, leaving a column without a full prefix of assignments, giving the columns of one table different lengths, or overwriting row 0 is refused with the corresponding error; at least one usable row must remain below the assigned cells for the default.',
 ['programs','histories'],'All sequences of table assignments, for both planners.',
 'A few fixed negative tests.',
 [HP+'circuit/table_layouter.rs',HP+'circuit/floor_planner/single_pass.rs',HP+'circuit/floor_planner/v1.rs',HP+'plonk/keygen.rs'],
 [('SimpleTableLayouter::assign_cell, compute_table_lengths',HP+'circuit/table_layouter.rs'),('fill_from_row',HP+'plonk/keygen.rs')],
 ['fill_from_row / assign_fixed calls','keygen_vk result and fixed commitments','MockProver result'])
p('C11','The mock prover reports exactly the violated constraints',
 'For every circuit and witness, mock verification succeeds if and only if every gate holds on every row, every lookup input on a usable row is in its table, every copy constraint holds, and every cell queried by an activated gate was assigned in its region; otherwise the reported failures are exactly the violated ones, at the right gate, row and region. It never panics on a well-formed circuit, and accepts only witnesses for which a real proof verifies.',
 ['programs','inputs'],'All circuits and witnesses, including constraints that reach into unassigned or blinding rows.',
 'Tests hold a handful of expected failures.',
 [HP+'dev.rs',HP+'dev/failure.rs',HP+'dev/util.rs'],[('MockProver::verify',HP+'dev.rs'),('Value::Poison arithmetic',HP+'dev.rs')],['MockProver::run / verify'])
p('C12','Proofs verify exactly for satisfied circuits and their public inputs',
 'For every circuit, witness, number of circuits per proof and instance, a proof made by the prover verifies against the same key and instances if and only if every gate, copy constraint and lookup holds on that witness, and it fails against any other public input or after any change of a proof element. The verifier accepts only when the quotient evaluated from the opened values equals, at the challenge point, the full combination of all gate, permutation and lookup constraints of every circuit in the proof.',
 ['programs','inputs'],'All constraint systems, witnesses (honest and dishonest), instance vectors, number of circuits, k and degrees.',
 'Round-trip tests on a few circuits would still pass if both sides dropped the same constraint.',
 [HP+'plonk/prover.rs',HP+'plonk/verifier.rs',HP+'plonk/vanishing/prover.rs',HP+'plonk/vanishing/verifier.rs',HP+'plonk/permutation/prover.rs',HP+'plonk/permutation/verifier.rs',HP+'plonk/lookup/prover.rs',HP+'plonk/lookup/verifier.rs',HP+'poly/evaluator.rs',HP+'plonk/keygen.rs'],
 [('create_proof',HP+'plonk/prover.rs'),('verify_proof expressions',HP+'plonk/verifier.rs')],['proof transcripts, verify_proof result'])
p('C13','Polynomial arithmetic is exact at every size and thread count',
 'For every input, size and number of threads, the transforms between coefficient, Lagrange and extended-coset forms, polynomial evaluation, division by a linear factor, interpolation, inner product, multi-scalar multiplication, batch inversion and rotation compute the mathematical definition, and forward and inverse transforms are mutually inverse.',
 ['inputs','schedules','configurations'],'All vectors, all k and extended k, all thread counts (including more threads than elements).',
 'Tests use a few random vectors on the machine thread count; chunk-boundary bugs need particular sizes and thread counts.',
 [HP+'arithmetic.rs',HP+'poly.rs',HP+'poly/domain.rs',HP+'poly/evaluator.rs',HP+'multicore.rs'],
 [('best_fft, best_multiexp, parallelize, kate_division, lagrange_interpolate',HP+'arithmetic.rs'),('EvaluationDomain',HP+'poly/domain.rs')],
 ['public functions of arithmetic and poly'])
p('C14','Row-bound violations are refused, never silently wrapped or dropped',
 'For every circuit and k, any selector activation, fixed assignment, copy, instance query or table fill starting at a row outside the usable rows makes key generation, and any of these or an advice assignment there makes proving and mock proving, return an error; an instance vector longer than the usable rows or a wrong number of instance columns makes proving, verification and mock proving return one; every access inside the usable rows is accepted. The usable rows are the same for all four, and leave room for the blinding rows the constraint system needs.',
 ['programs','configurations'],'All circuits at and around the boundary of the usable rows, all k.',
 'Tests cover a circuit that is grossly too large.',
 [HP+'plonk/keygen.rs',HP+'plonk/prover.rs',HP+'plonk/verifier.rs',HP+'dev.rs',HP+'plonk/circuit.rs'],
 [('usable_rows checks',HP+'plonk/keygen.rs'),('blinding_factors, minimum_rows',HP+'plonk/circuit.rs')],
 ['results of keygen_vk, keygen_pk, create_proof, verify_proof, MockProver::run'])
p('C15','Deferred inversion computes the same values as eager inversion',
 'For every expression over assigned values (zero, integers and fractions, including zero denominators, which denote zero), evaluating at the end gives what the field operations give when each inversion is done at once, with the inverse of zero being zero; comparisons agree with evaluation. Circuit values propagate unknown exactly, combine pairwise, and never expose or invent a value.',
 ['inputs','histories'],'All expression trees over zero/trivial/rational operands and all unknown patterns.',
 'Existing property tests check some operations on random operands, not the whole algebra or the batched evaluation in the prover.',
 [HP+'plonk/assigned.rs',HP+'circuit/value.rs',HP+'poly.rs'],[('Assigned operators',HP+'plonk/assigned.rs'),('batch_invert_assigned',HP+'poly.rs'),('Value operators',HP+'circuit/value.rs')],
 ['Assigned::evaluate','Value operators','fixed commitments / witness of rational assignments'])
p('C16','Verifying keys identify the circuit and are reproducible',
 'Key generation is deterministic, ignores witnesses, and agrees between the verifying key and the proving key; the digest absorbed into every transcript is a function of the whole constraint system, domain, fixed columns and permutation. Two circuits that differ in a gate, a lookup, a query rotation, a fixed value, an activated selector, a copy constraint or k get different digests, so a proof made for one is rejected under the other.',
 ['programs','configurations'],'All circuits and all single structural differences between two circuits.',
 'One golden pinned key is compared in a test.',
 [HP+'plonk.rs',HP+'plonk/keygen.rs',HP+'plonk/circuit.rs',HP+'plonk/permutation/keygen.rs'],
 [('VerifyingKey::from_parts / hash_into / pinned',HP+'plonk.rs'),('keygen_vk/keygen_pk',HP+'plonk/keygen.rs')],
 ['VerifyingKey::pinned, first transcript scalar, verify_proof across keys'])
p('C17','Poseidon hash circuit and primitive compute the specified sponge',
 'For every message the primitive computes the Poseidon sponge of the chosen specification (round schedule, S-box positions, MDS mixing, domain-dependent capacity element, padding, squeeze after absorb), and the circuit constrains its output to equal it: an honest witness satisfies the circuit, and no assignment with the same inputs and another output does (intermediate cells may differ only where they do not influence the output). Parameters generated from the Grain generator equal the shipped constants.',
 ['inputs','histories'],'All messages, lengths, absorb/squeeze sequences and specifications (width, full and partial round counts).',
 'Tests use fixed vectors for one parameter set and only honest witnesses.',
 ['halo2_poseidon/src/lib.rs','halo2_poseidon/src/grain.rs','halo2_poseidon/src/mds.rs','halo2_poseidon/src/p128pow5t3.rs',HG+'poseidon.rs',HG+'poseidon/pow5.rs'],
 [('permute, Sponge',"halo2_poseidon/src/lib.rs"),('Pow5Chip gates',HG+'poseidon/pow5.rs')],['primitive outputs; MockProver verdicts'])
p('C18','Range checks and running sums accept exactly the in-range values',
 'For every value and every supported window/word count, the lookup range check, its short variant and the running-sum decomposition are satisfiable if and only if the value is in the declared range (strict mode) and the running sum cells are the unique base-2^K decomposition. No choice of witness values passes for an out-of-range value.',
 ['inputs','configurations'],'All field values, window sizes, numbers of windows, strict and non-strict mode, and all adversarial witnesses.',
 'Tests sample a few in-range and out-of-range values with honest witnesses.',
 [HG+'utilities/lookup_range_check.rs',HG+'utilities/decompose_running_sum.rs',HG+'utilities.rs'],
 [('LookupRangeCheckConfig',HG+'utilities/lookup_range_check.rs'),('RunningSumConfig',HG+'utilities/decompose_running_sum.rs')],['MockProver verdicts over honest and adversarial witnesses'])
p('C19','Conditional swap and multiplexer select exactly the right operand',
 'For every pair of inputs and every choice bit, the swap outputs (a,b) when the bit is 0 and (b,a) when it is 1, the multiplexer outputs the left operand for 0 and the right for 1, and the choice is constrained to be boolean. No other output or choice value satisfies the circuit.',
 ['inputs'],'All inputs, choice values and adversarial witnesses.',
 'Tests run a few honest random inputs.',
 [HG+'utilities/cond_swap.rs',HG+'utilities.rs'],[('CondSwapChip gate',HG+'utilities/cond_swap.rs')],['MockProver verdicts'])
p('C20','The SHA-256 circuit computes the compression function and nothing else',
 'For every message of whole 32-bit-word blocks, given in any chunking, the table-based SHA-256 circuit is satisfied by the honest witness and yields the FIPS 180-4 message schedule and 64 compression rounds, started from the SHA-256 initialization vector and, for each further block, from the output of the one before (the gadget itself neither pads nor adds the chaining value). The layout does not depend on the message. The spread table holds exactly the spread forms and tags of all 16-bit numbers. No assignment satisfies the constraints with the same message words and another digest word.',
 ['inputs'],'All messages, chunkings, and all (not only honest) assignments of the circuit.',
 'Tests hash one fixed message with an honest witness.',
 [HG+'sha256.rs',HG+'sha256/table16.rs',HG+'sha256/table16/compression.rs',HG+'sha256/table16/message_schedule.rs',HG+'sha256/table16/spread_table.rs',HG+'sha256/table16/gates.rs'],
 [('Table16Chip gates',HG+'sha256/table16/gates.rs')],['MockProver verdicts and digest values'])
p('C21','Elliptic-curve gadget operations compute the group law, soundly',
 'For every pair of points and every scalar, incomplete and complete addition, variable-base, fixed-base (full, short signed, base-field) multiplication and point witnessing in the circuit give the group-law result, including identity, doubling and inverse cases for complete operations, and out-of-domain uses are refused. No satisfying assignment with the same inputs has another output (for a full-width fixed-base scalar, which is not at the interface, the output lies on the curve and is the multiple named by the witnessed windows).',
 ['inputs'],'All points and scalars, including the exceptional cases of every formula, and adversarial alterations.',
 'Tests use a few points/scalars with honest witnesses.',
 [HG+'ecc.rs',HG+'ecc/chip.rs',HG+'ecc/chip/add.rs',HG+'ecc/chip/add_incomplete.rs',HG+'ecc/chip/mul.rs',HG+'ecc/chip/mul/overflow.rs',HG+'ecc/chip/mul_fixed.rs',HG+'ecc/chip/mul_fixed/short.rs',HG+'ecc/chip/mul_fixed/base_field_elem.rs',HG+'ecc/chip/witness_point.rs'],
 [('add / add_incomplete / mul gates',HG+'ecc/chip/')],['MockProver verdicts and output points'])
p('C22','Sinsemilla hashes, commitments and Merkle roots match their definition',
 'For every message, the in-circuit Sinsemilla hash equals the specified chain of incomplete additions over the generator table, message pieces are decomposed canonically, and Merkle root computation hashes (layer, left, right) in the order given by the position bits. Inputs for which the chain of incomplete additions is undefined are outside the domain. No satisfying assignment with the same inputs has another output (for commitments, whose randomness is not at the interface, another point off the curve).',
 ['inputs'],'All messages, personalisations, leaf positions and paths, and adversarial alterations.',
 'Tests use fixed vectors and honest witnesses.',
 [HG+'sinsemilla.rs',HG+'sinsemilla/chip.rs',HG+'sinsemilla/chip/hash_to_point.rs',HG+'sinsemilla/merkle.rs',HG+'sinsemilla/merkle/chip.rs',HG+'sinsemilla/message.rs'],
 [('SinsemillaChip hash_to_point',HG+'sinsemilla/chip/hash_to_point.rs'),('MerkleChip hash_layer',HG+'sinsemilla/merkle/chip.rs')],['MockProver verdicts and output values'])
p('C23','The predicted proof size equals the size of real proofs',
 'For every circuit, number of circuits per proof and k, the proof size predicted by the cost model equals the number of bytes of a real proof, and proofs of one circuit all have the same length.',
 ['programs','configurations'],'All constraint systems (with/without lookups, permutation, any query rotations and degrees) and proof multiplicities.',
 'A test checks two circuits.',
 [HP+'dev/cost.rs'],[('CircuitCost::measure / proof_size',HP+'dev/cost.rs')],['CircuitCost::proof_size vs. length of create_proof output'])
p('C24','Proofs reveal nothing about the witness beyond the statement',
 'Every message of a proof that depends on the witness is masked by fresh randomness: with the challenges fixed, each commitment and evaluation the prover sends is uniformly distributed given all messages before it (only the very last scalar is determined, by the verification equation), so its distribution does not depend on the witness. Every commitment (advice, permuted lookup columns, running products, masking polynomials, quotient pieces, opening and inner-product rounds) has a blinding factor of its own, drawn independently; every committed witness-dependent column carries at least as many independent random rows as the blinding factor count of the constraint system, for each circuit of the proof separately; the masking polynomials are random in every coefficient, also when an opening is made on its own. All randomness comes from the generator the caller supplies: the same draws give the same proof, whatever the number of threads.',
 ['programs','inputs','histories'],'All circuits and witnesses, all draws of the generator, several circuits in one proof, every message of the protocol, openings alone.',
 'A proof with a reused, constant or missing blinding factor verifies exactly like a good one, so no test of completeness or soundness can fail; leakage shows only in the joint distribution of the messages over the draws.',
 [HP+'plonk/prover.rs',HP+'plonk/permutation/prover.rs',HP+'plonk/lookup/prover.rs',HP+'plonk/vanishing/prover.rs',HP+'poly/multiopen/prover.rs',HP+'poly/commitment/prover.rs'],
 [('blinding rows and blinds of the advice columns',HP+'plonk/prover.rs'),('blinding of permuted columns and products',HP+'plonk/lookup/prover.rs'),('random polynomial, quotient blinds',HP+'plonk/vanishing/prover.rs'),('s_poly, L/R randomness, synthetic blinding factor',HP+'poly/commitment/prover.rs')],
 ['messages written by create_proof as a function of each number drawn from the RngCore it is given'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
