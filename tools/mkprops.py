#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
SH="mpc-core/src/protocols/shamir.rs"; SHD="mpc-core/src/protocols/shamir/"
R3="mpc-core/src/protocols/rep3/"; RING="mpc-core/src/protocols/rep3_ring/ring/"
PL="co-circom/co-plonk/src/"; G="co-circom/co-groth16/src/"
P2="mpc-core/src/gadgets/poseidon2/"; MT="mpc-core/src/gadgets/merkle_tree/"
BR=R3+"yao/bristol_fashion/"; NET="mpc-net/src/"

p("C01","Shamir sharing reconstructs from every quorum",
  "A secret (a field element, a vector of them, or group elements) shared with degree t among n parties is recovered exactly by combining any t+1 or more of the shares together with their evaluation positions, for every field, secret, n > t and choice of parties. Too few shares, or lists whose lengths disagree, give an error and never a wrong value. The interpolation helpers that produce secret-sharing polynomials (from prescribed zeros or from precomputed points) yield the unique polynomial of the stated degree with the stated values.",
  ["inputs","configurations"],"all primes fields, secrets, sharing polynomials, numbers of parties, thresholds, vector lengths and subsets/orders of parties",
  "tests fix n=3,t=1 and n=10,t=6 with the first parties in order; a value- or position-dependent slip for other quorums, lengths or thresholds is not exercised",
  [SH,SHD+"poly.rs",SHD+"pointshare.rs"],
  [("share generation / polynomial evaluation",SH+": evaluate_poly, share, share_field_element(s), share_curve_point"),("Lagrange weights and reconstruction",SH+": lagrange_from_coeff, reconstruct, combine_*"),("interpolation helpers",SH+": interpolation_poly_from_zero_points, precompute_interpolation_polys, interpolate_poly_from_precomputed, poly_with_zeros_from_precomputed")],
  observe=["combine_* results"])
p("C02","Any t Shamir shares are independent of the secret",
  "For every degree t, every set of at most t parties and every secret, the map from the sharing randomness to the shares seen by those parties is the same distribution: whatever those parties see is equally likely under any two secrets. No share handed out equals or determines the secret on its own when t is at least one, and evaluation positions are pairwise distinct and never the position of the secret.",
  ["inputs","configurations"],"all fields, secrets, thresholds t and coalitions of at most t parties",
  "secrecy is a statement about all randomness and all coalitions at once; tests only ever check that reconstruction succeeds",
  [SH],[("sharing polynomial with secret as constant term and t uniform coefficients",SH+": share"),("evaluation at positions 1..n",SH+": share, evaluate_poly")])
p("C03","Local operations on Shamir shares commute with reconstruction",
  "Adding, subtracting, negating, scaling by or adding a public value, promoting a public value, evaluating a shared polynomial at a public point and every vector form of these, on field or group shares, gives shares that reconstruct to the same operation on the plain values; operations between field shares and public group elements behave likewise. This holds for every operand, vector length (including empty and long vectors) and threshold.",
  ["inputs","configurations"],"all share values, public values, vector lengths, polynomials and evaluation points",
  "tests use one random value per operation and one vector length; operator variants (by reference, assigning, scalar, point) and length-dependent code paths are not covered",
  [SHD+"arithmetic/ops.rs",SHD+"arithmetic/types.rs",SHD+"arithmetic.rs",SHD+"pointshare/ops.rs",SHD+"pointshare/types.rs",SHD+"pointshare.rs",SHD+"poly.rs"],
  [("operator implementations on field shares",SHD+"arithmetic/ops.rs"),("operator implementations on group shares",SHD+"pointshare/ops.rs"),("vector and public-value operations",SHD+"arithmetic.rs, pointshare.rs"),("polynomial evaluation on shares",SHD+"poly.rs: eval_poly")])
p("C04","Shamir multiplication and opening compute the product for all honest parties",
  "When n > 2t parties run multiplication, batched multiplication, multiply-and-open, scalar multiplication of shared points, inversion or opening on consistent shares, all of them finish, and their outputs are consistent degree-t shares of (or all equal to) the product, inverse or value; inverting zero is reported as an error, never as a value. This holds for every n, t, batch size and operand values.",
  ["inputs","configurations","schedules"],"all n > 2t, batch sizes, operand values and preprocessing randomness",
  "the tests run n=3,t=1 with single values and a few fixed batches; king/helper roles, zero-share parties and other thresholds are not exercised",
  [SH,SHD+"network.rs",SHD+"arithmetic.rs",SHD+"pointshare.rs"],
  [("degree reduction through a king who re-shares",SHD+"network.rs: degree_reduce, degree_reduce_many, degree_reduce_point"),("opening by sending shares along the ring",SHD+"network.rs: broadcast_next; "+SH+": open weights"),("masked multiply-and-open / inversion",SHD+"arithmetic.rs: mul_open_vec, inv, inv_vec")])
p("C05","Shamir preprocessing yields consistent double sharings, never reused",
  "Every preprocessed pair consists of a degree-t and a degree-2t sharing of one and the same value across all parties, for every n, t and requested amount; pairs are handed out at most once, also across forked states, and asking for more than was preprocessed either produces fresh consistent pairs or an error on every party.",
  ["inputs","configurations","histories"],"all n > 2t, requested amounts, and sequences of draw/buffer/fork operations",
  "the consistency is algebraic across n parties' private randomness; tests only observe a handful of products for two (n,t) choices",
  [SHD+"rngs.rs",SH],[("DN07 random double sharing",SHD+"rngs.rs: buffer_triples, random_double_share"),("seeded pairwise sharing",SHD+"rngs.rs: get_shared_rngs, receive_seeded_prev/next"),("Vandermonde extraction",SHD+"rngs.rs: matmul, create_vandermonde_matrix"),("handing out and forking pairs",SH+": get_pair, fork; "+SHD+"rngs.rs: fork_with_pairs")],
  state=[("r_t / r_2t","buffered pairs not yet handed out",SHD+"rngs.rs")])
p("C06","Replicated 3-party shares: local operations commute with reconstruction",
  "For replicated secret sharing over a field, combining the three parties' outputs of any local operation (add, subtract, negate, double, scale by public, add/subtract public, promote a public value) yields that operation on the plain values for every operand, and each party's first component always equals the next party's second component. The three parties' local product terms always sum to the product of the two secrets.",
  ["inputs","configurations"],"all operands, all three parties, every operator form",
  "the compiled tests never run replicated arithmetic; a slip for one party or one operator form needs all parties and operands",
  [R3+"arithmetic/ops.rs",R3+"arithmetic/types.rs",R3+"id.rs",R3+"arithmetic.rs"],
  [("share operators",R3+"arithmetic/ops.rs"),("share construction, promotion",R3+"arithmetic/types.rs"),("party numbering",R3+"id.rs"),("vectorised arithmetic",R3+"arithmetic.rs")])
p("C07","Replicated binary shares: local bit operations commute with reconstruction",
  "For XOR-replicated shares of unsigned integers, combining the three parties' outputs of any local operation (XOR, AND with public, XOR with public, shifts, masks, promotion, single-bit extraction) yields that operation on the plain integer for every operand and shift amount; the parties' local AND terms XOR to the AND of the two secrets.",
  ["inputs","configurations"],"all operands, shift amounts, all three parties",
  "no compiled test runs the binary share operators",
  [R3+"binary/ops.rs",R3+"binary/types.rs",R3+"binary.rs"],
  [("binary share operators",R3+"binary/ops.rs"),("binary share type",R3+"binary/types.rs")])
p("C08","Replicated group shares: local operations commute with reconstruction",
  "For replicated shares of curve points, combining the three parties' outputs of point addition, subtraction, negation, scaling by a public scalar, adding a public point, promoting a public point and multiplying a shared scalar with a public point yields the same operation on the plain points; local products of a shared scalar and a shared point sum to the scaled point.",
  ["inputs","configurations"],"all points, scalars and parties",
  "no compiled test runs the replicated point operators",
  [R3+"pointshare/ops.rs",R3+"pointshare/types.rs",R3+"pointshare.rs"],
  [("point share operators",R3+"pointshare/ops.rs"),("point share type and promotion",R3+"pointshare/types.rs, pointshare.rs")])
p("C09","Ring elements compute exactly modulo 2^k",
  "Every arithmetic, bitwise, negation, shift and comparison operation on ring elements of every supported width (1, 8, 16, 32, 64 and 128 bits) equals the mathematical operation modulo 2^k on the represented integers, for all operands; the operators taking references, the assigning forms and the wrapping forms agree with each other; nothing panics for in-range operands.",
  ["inputs"],"all operands and shift amounts at every width",
  "the full operand space cannot be sampled; tests only exercise conversions",
  [RING+"ring_impl.rs",RING+"int_ring.rs",RING+"bit.rs"],
  [("ring element wrapper",RING+"ring_impl.rs"),("width-specific integer ring",RING+"int_ring.rs"),("one-bit ring",RING+"bit.rs")])
p("C10","Ring and bit conversions, bit decomposition and byte encoding are exact inverses",
  "Converting ring elements to and from booleans, big integers, wider or narrower rings and bytes keeps exactly the value modulo the target width; decomposing into bits and recomposing, and writing to and reading from bytes, return the original value at every width, and malformed byte inputs are errors.",
  ["inputs"],"all values, widths, source/target widths and byte strings",
  "tests cover a few random values of some widths; boundary values and every pair of widths are not covered",
  [RING+"ring_impl.rs",RING+"int_ring.rs",RING+"bit.rs","mpc-core/src/protocols/rep3_ring/casts.rs"],
  [("bit access and iteration",RING+"ring_impl.rs, int_ring.rs"),("conversion and serialization",RING+"ring_impl.rs, bit.rs, int_ring.rs")])
p("C11","Wide unsigned integers and field-integer conversion are exact",
  "The fixed-width unsigned integers backing binary shares implement AND, OR, XOR, shifts, masks, bit queries, limb and big-integer conversion exactly for every value and shift amount; converting a field element to its integer and back is the identity, and converting an integer to a field element reduces it modulo the field prime.",
  ["inputs"],"all values, shift amounts, bit positions and supported fields",
  "tests use one field and a few random values; limb boundaries and near-modulus values are not covered",
  ["mpc-core/src/uint/mod.rs","mpc-core/src/uint/field_uint.rs","mpc-core/src/uint/ruint_wrapper.rs"],
  [("unsigned integer wrapper","mpc-core/src/uint/ruint_wrapper.rs"),("field to integer bridge","mpc-core/src/uint/field_uint.rs")])
p("C12","Framed byte streams deliver exactly the messages sent, in order",
  "Whatever messages (of any lengths, including empty and maximal) are sent over a framed connection, the peer receives exactly those byte strings in that order, no matter how the transport splits or coalesces reads and writes; a length header above the configured maximum is an error before the payload is buffered, as is an over-long message on the sending side, and a stream that ends inside a frame is an error rather than a short message.",
  ["inputs","schedules","fault_sequences"],"all message sequences, all chunkings of reads and partial writes, all truncation points and length headers",
  "tests send a few messages over loopback where the kernel delivers them almost whole; partial writes at each offset and adversarial headers are not reached",
  [NET+"blocking.rs",NET+"tls.rs",NET+"tcp.rs"],
  [("frame writer",NET+"blocking.rs: write_frame, write_all_vectored"),("frame reader",NET+"blocking.rs: FrameReader")],hook=None)
p("C13","Messages reach exactly the addressed party and session",
  "In a network of parties each message arrives only at the party (and, where several sessions share a transport, only in the session) it was addressed to, in the order sent, whichever order parties and sessions connect in; addressing oneself, an unknown party or a closed peer is an error and never delivers to someone else.",
  ["schedules","configurations","histories"],"all numbers of parties and sessions and all interleavings of connects, sends and receives",
  "tests run three parties with one interleaving",
  [NET+"local.rs",NET+"tcp_session.rs",NET+"tcp_session_blocking.rs",NET+"lib.rs"],
  [("in-process network",NET+"local.rs"),("session accept map",NET+"tcp_session_blocking.rs, tcp_session.rs"),("party indexed channel maps",NET+"blocking.rs, async_net.rs")])
p("C14","Network configuration accepts exactly well-formed addresses and keeps them",
  "Parsing an address accepts exactly host:port with a decimal port below 65536 and a non-malformed separator, keeps host and port unchanged, and printing then parsing any accepted address gives the same address; configuration built from it keeps every party's id, address and certificate assignment and all limits given.",
  ["inputs"],"all strings as addresses and all party lists",
  "tests parse a couple of good addresses and a few bad ones",
  [NET+"config.rs"],[("address parsing and printing",NET+"config.rs: Address"),("configuration builders",NET+"config.rs")])
p("C15","Traffic statistics count exactly the bytes sent and received",
  "After any sequence of operations the per-peer and total statistics equal the payload bytes actually sent to and received from each peer, and the difference between two snapshots equals the traffic in between for every peer.",
  ["histories","inputs"],"all sequences of sends/receives and snapshot pairs",
  "tests never compare statistics against known traffic",
  [NET+"lib.rs",NET+"local.rs",NET+"blocking.rs"],[("statistics snapshot and difference",NET+"lib.rs: ConnectionStats"),("counters",NET+"blocking.rs, async_net.rs, local.rs")])
p("C16","Circom witness and input splitting is lossless",
  "Splitting a witness or a map of inputs into shares keeps the declared public part public, in order and untouched, and shares exactly the rest, so that every quorum of the produced shares recombines to the original values at the original positions; public inputs passed to verification are the public part without the leading constant one. Batched inputs unbatch to the original elements, and ill-sized data is an error.",
  ["inputs","configurations"],"all witnesses, numbers of public inputs, input maps and (n,t)",
  "tests only use a few fixed circuits end to end",
  ["co-circom/co-circom-types/src/lib.rs"],[("witness splitting","co-circom/co-circom-types/src/lib.rs: SharedWitness::share_*"),("input splitting","co-circom/co-circom-types/src/lib.rs: *InputShares / split_input_*")])
p("C17","Input parsing maps each JSON value to the right field element or rejects it",
  "Decimal and 0x-hexadecimal strings with an optional leading minus are mapped to the field element they denote (negative values to the additive inverse, values beyond the modulus to their residue), booleans to 0 and 1, \"?\" inside arrays stays unassigned, nested arrays flatten in row-major order with one position per element (unassigned ones included), and anything else (JSON numbers, null, objects, malformed strings, a top-level \"?\") is an error instead of some element. The digits are those the number parsers of num-bigint and arkworks accept.",
  ["inputs"],"all JSON values and both supported fields",
  "no compiled test feeds unusual literals",
  ["co-circom/co-circom-types/src/lib.rs"],[("literal parsing","co-circom/co-circom-types/src/lib.rs: parse_field, parse_array, parse_boolean")])
p("C18","The Groth16 witness map computes the quotient of the constraint polynomials",
  "For every constraint system and assignment (plain or shared, satisfied or not) the constraint evaluation equals the matrix-vector product of each row with the full assignment, and the witness map returns exactly the vector the chosen reduction defines: evaluations of A*B-C on the shifted domain (Circom), or the coefficients of (A*B-C)/Z (the other reduction), independent of the number of worker threads and of the MPC backend.",
  ["inputs","configurations"],"all constraint matrices, assignments, domain sizes, thread counts and secret-sharing backends",
  "tests use two small circuits on one machine's thread count",
  [G+"groth16.rs",G+"groth16/reduction.rs",G+"mpc/plain.rs",G+"mpc/shamir.rs",G+"mpc/rep3.rs"],
  [("row evaluation",G+"mpc/*.rs: evaluate_constraint"),("reductions",G+"groth16/reduction.rs"),("domain set-up",G+"groth16.rs: roots_of_unity")])
p("C19","A collaboratively produced Groth16 proof equals the plain proof formula",
  "Given the same witness and blinding values, the proof elements assembled by any backend equal the Groth16 formulas evaluated on the plain values, so that a proof for a satisfying witness always verifies and, for every backend and party count, all parties output the same proof.",
  ["inputs","configurations"],"all proving keys, satisfying witnesses, blinding values, (n,t)",
  "tests prove two fixed circuits in the clear only",
  [G+"groth16.rs",G+"mpc/plain.rs",G+"mpc/shamir.rs",G+"mpc/rep3.rs"],
  [("assembling A, B, C",G+"groth16.rs: create_proof_with_assignment, calculate_coeff")])
p("C20","Verifiers accept exactly the proofs satisfying the pairing equation",
  "The Groth16 and PLONK verifiers accept a proof exactly when the respective verification equation holds for the given key and public inputs in the given order; a wrong number of public inputs, any altered proof element or public input is rejected with an error and never a panic.",
  ["inputs"],"all keys, proofs, public input vectors and single-component alterations",
  "tests check acceptance of honest proofs only",
  [PL+"plonk.rs",PL+"lib.rs",G+"verifier.rs"],
  [("PLONK verification equation",PL+"plonk.rs"),("Lagrange and public input evaluation",PL+"lib.rs: calculate_lagrange_evaluations, calculate_pi"),("Groth16 verification",G+"verifier.rs")])
p("C21","PLONK prover polynomials satisfy the protocol identities",
  "For every circuit, satisfying witness and blinding values the prover's wire, permutation, quotient, linearisation and opening polynomials are those of the PLONK protocol (blinded by multiples of the vanishing polynomial only), independent of the backend, so that an honest proof always verifies; each signal index resolves to the right public input, private witness or derived value, or to an error.",
  ["inputs","configurations"],"all circuits, witnesses, blinding values, domain sizes and backends",
  "tests replay two fixed circuits with one deterministic blinding vector",
  [PL+"round1.rs",PL+"round2.rs",PL+"round3.rs",PL+"round4.rs",PL+"round5.rs",PL+"lib.rs",PL+"mpc/plain.rs",PL+"mpc/shamir.rs",PL+"mpc/rep3.rs"],
  [("blinding and witness lookup",PL+"lib.rs: blind_coefficients, get_witness"),("grand product",PL+"round2.rs: compute_z; "+PL+"mpc/*: array_prod_mul"),("quotient",PL+"round3.rs: compute_t"),("linearisation and openings",PL+"round5.rs: compute_r, compute_wxi, compute_wxiw, div_by_zerofier")])
p("C22","PLONK transcript hashes every element in fixed-width big-endian form",
  "Challenges are the Keccak digest, reduced into the scalar field, of exactly the added scalars and points in the order added, each written big-endian with fixed width and the point at infinity as all zero bytes; prover and verifier therefore derive identical challenges for every proof and key.",
  ["inputs","histories"],"all sequences of scalars and points on both curves",
  "one known answer on one curve is tested",
  [PL+"types.rs",PL+"plonk.rs",PL+"round2.rs",PL+"round3.rs",PL+"round4.rs",PL+"round5.rs"],
  [("transcript",PL+"types.rs: Transcript"),("verifier challenges",PL+"plonk.rs: VerifierChallenges"),("prover challenges",PL+"round2.rs..round5.rs")])
p("C23","Boolean circuits parse, verify, level and evaluate faithfully",
  "Every well-formed circuit file parses to the circuit it denotes and writing a circuit and parsing it back gives an equivalent one; a circuit that passes verification evaluates without panic to the gate-by-gate boolean semantics for every input, leveled evaluation gives the same result, and malformed files or ill-sized inputs are errors.",
  ["programs","inputs"],"all circuits over EQ/EQW/INV/AND/XOR gates and all inputs",
  "tests run two library circuits and a few hand-written ones",
  [BR+"bristol.rs",BR+"bristol/parser.rs",BR+"bristol/builder.rs"],
  [("parser",BR+"bristol/parser.rs"),("well-formedness check",BR+"bristol/builder.rs: verify"),("levelling and evaluation",BR+"bristol.rs")])
p("C24","Poseidon2 computes its specified permutation for every state width",
  "For every supported state width, degree and input, the permutation is the composition of the specified linear layers, round constants and power maps: the fast linear layers equal multiplication by the specified matrices, the power map is x^d, and rounds are applied in the specified order with each constant used once.",
  ["inputs","configurations"],"all inputs, widths 2,3,4,8,12,16,20,24 and exponents",
  "known-answer tests fix one input for a few widths",
  [P2+"poseidon2_permutation.rs",P2+"poseidon2_params.rs"],
  [("linear layers",P2+"poseidon2_permutation.rs: matmul_external, matmul_internal, matmul_m4"),("power map",P2+"poseidon2_permutation.rs: single_sbox"),("rounds",P2+"poseidon2_permutation.rs: permutation_in_place")])
p("C25","Poseidon2 on shares equals Poseidon2 in the clear",
  "Evaluating the permutation on secret shares, with or without precomputed powers, one state at a time or packed, reconstructs to the plain permutation of the plain input for every input, width and (n,t), consumes each precomputed tuple exactly once, and the stated amount of preprocessing always suffices.",
  ["inputs","configurations"],"all inputs, widths, batch sizes, (n,t)",
  "tests run one random state per width with n=3,t=1",
  [P2+"shamir.rs",P2+"mod.rs",P2+"rep3.rs"],
  [("power map through precomputed powers",P2+"shamir.rs: sbox_shamir_precomp*, precompute_shamir"),("round drivers",P2+"shamir.rs")],
  state=[("offset","how many precomputed tuples are consumed",P2+"mod.rs: Poseidon2Precomputations")])
p("C26","Merkle roots, openings and verification agree",
  "For every arity, tree size and leaf, the Merkle root equals level-by-level hashing of the leaves, the opening produced for a leaf verifies against that root for that leaf, and verification accepts exactly when recomputing the path from the given leaf and witness yields the given root; building the tree on secret shares yields the same root.",
  ["inputs","configurations"],"all leaves, sizes, arities, leaf positions, witnesses; both hash modes",
  "tests check roots for a few sizes and one witness position each",
  [MT+"plain.rs",MT+"shamir.rs",MT+"rep3.rs"],
  [("tree construction and witness",MT+"plain.rs"),("path verification",MT+"plain.rs: verify_merkle_path_*"),("shared trees",MT+"shamir.rs, rep3.rs")])
p("C27","Look-up tables read and write exactly the addressed entry",
  "Reading index i of a look-up table returns the i-th entry, writing index i changes the i-th entry and no other, any mixture of public and secret access behaves like a plain array, and an index outside the table is never silently mapped to another entry.",
  ["inputs","histories"],"all tables, indices and access sequences",
  "no compiled test covers look-up tables",
  ["mpc-core/src/lut.rs"],[("plain table provider","mpc-core/src/lut.rs")])
p("C28","Shares survive serialization unchanged",
  "Serializing then deserializing any share, share vector or field/group element in the supported encodings returns the same value and consumes exactly its bytes; truncated or non-canonical bytes are errors.",
  ["inputs"],"all shares of all kinds, vectors of all lengths, all byte strings",
  "no compiled test round-trips shares",
  ["mpc-core/src/serde_compat.rs",SHD+"arithmetic/types.rs",R3+"arithmetic/types.rs",R3+"binary/types.rs"],
  [("encoding bridge","mpc-core/src/serde_compat.rs"),("share types' derived encodings",SHD+"arithmetic/types.rs, "+R3+"*/types.rs")])
p("C29","Replicated 3-party protocols compute the intended function",
  "When three honest parties run replicated multiplication, vector and matrix products, opening, inversion, division, selection and the like on consistent shares, the outputs are consistent replicated shares of the intended plain result for every operand, length and correlated randomness.",
  ["inputs","schedules"],"all operands, lengths and correlated randomness",
  "these modules are not even compiled by the runnable tests here",
  [R3+"arithmetic.rs",R3+"network.rs",R3+"rngs.rs",R3+"binary.rs"],
  [("protocol functions",R3+"arithmetic.rs"),("re-sharing",R3+"network.rs")])
p("C30","Correlated randomness: zero shares cancel and streams stay aligned",
  "The masks drawn by the three parties for re-randomisation always sum (or XOR) to zero, shared random values are consistent replicated shares, and forking or seeding derives streams that stay pairwise equal on the two holders for every history of draws.",
  ["histories","inputs"],"all seeds and histories of draws and forks",
  "these modules are not compiled by the runnable tests here",
  [R3+"rngs.rs"],[("correlated generator",R3+"rngs.rs: Rep3Rand")])
p("C31","Share conversion between replicated and Shamir sharing keeps the secret",
  "Translating replicated shares to Shamir shares (for field elements, vectors and points) yields degree-1 Shamir shares of the same secret for three parties, for every share.",
  ["inputs"],"all shares, vectors and points",
  "the conversion tests are not compiled by the runnable tests here",
  ["mpc-core/src/protocols/bridges/rep3_shamir.rs","mpc-core/src/protocols/bridges/network.rs"],
  [("conversion","mpc-core/src/protocols/bridges")])
p("C32","Arithmetic/binary conversion and comparison on shares are exact",
  "Converting shared values between arithmetic, binary and garbled representations and comparing, decomposing or range-checking them returns exactly the plain result for every value, including zero, the maximum and values near the modulus.",
  ["inputs"],"all values of all supported fields and rings",
  "these modules are not compiled by the runnable tests here",
  [R3+"conversion.rs",R3+"detail.rs",R3+"yao/circuits.rs","mpc-core/src/protocols/rep3_ring/conversion.rs","mpc-core/src/protocols/rep3_ring/detail.rs"],
  [("conversion",R3+"conversion.rs"),("adders and comparison circuits",R3+"detail.rs, yao/circuits.rs")])
p("C33","Shared witness extension equals plain witness extension",
  "Executing a compiled Circom program or a Noir program on secret-shared inputs yields, once reconstructed, the witness the plain execution computes for the same inputs, for every program and input the plain execution accepts.",
  ["programs","inputs"],"all programs and inputs",
  "needs all programs; the crates do not build offline",
  ["co-circom/circom-mpc-vm/src/mpc_vm.rs","co-noir/co-acvm/src/solver.rs","co-noir/co-brillig/src/brillig_vm.rs"],
  [("instruction semantics","co-circom/circom-mpc-vm/src/mpc_vm.rs"),("ACVM solver","co-noir/co-acvm/src/solver.rs")])
p("C34","A collaborative UltraHonk proof equals the plain proof",
  "For every circuit and witness the collaboratively computed UltraHonk relations, sumcheck univariates, commitments and openings reconstruct to those of the plain prover with the same randomness, so honest proofs verify.",
  ["programs","inputs"],"all circuits, witnesses and randomness",
  "the crates do not build offline",
  ["co-noir/co-ultrahonk/src","co-noir/ultrahonk/src","co-noir/co-noir-common/src/polynomials/polynomial.rs"],
  [("relations","co-noir/co-ultrahonk/src/co_decider/relations"),("polynomials","co-noir/co-noir-common/src/polynomials")])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
