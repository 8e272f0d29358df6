#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the text is readable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=observe,hook_needed=hook)))

p("C01","Every honestly cast ballot is accepted",
"For every election configuration (inclusive candidate range within 16 bits, any supported curve) and every candidate number in that range, the ballot an honest voter casts is accepted by the vote collector. This holds both when the ballot is handed over directly and after it has been JSON-encoded and decoded again under the same public parameters, whatever random values the voter drew. Casting reaches every candidate of the range, the first and the last included.",
["inputs","configurations"],"all candidates x configurations (lo,hi,curve) x voter randomness",
"The root package's only test does not compile, so no test runs a ballot end to end; a test could only sample a few candidates.",
["voter.go","server.go","elgamal.go","marshal.go","main.go"],
[("castVote composes ElGamal, two range proofs and the equality proof","voter.go"),("verifyVote shifts the commitments back and checks all three proofs","server.go")],
["verdict of the collector on a cast ballot","decoded ballot"])

p("C02","A ballot for an invalid candidate is never accepted",
"No ballot is accepted whose ciphertext encrypts a number outside the configured candidate range, whatever values the voter feeds into the encryption and proof procedures. In particular a ballot is rejected when its lower-bound and upper-bound proofs are about different numbers, or about a number other than the encrypted one.",
["inputs","configurations"],"all 16-bit choices and all assignments of (encrypted, lower, upper, claimed) numbers from a boundary alphabet, for several ranges; plus named forgery strategies",
"No test covers the collector; the interesting numbers sit at wrap-around and off-by-one positions relative to the configured range.",
["server.go","voter.go","voteproof/voteproof.go","bulletproofs/bp.go"],
[("range proofs on x-lo and hi-x","voter.go"),("commitment shift","server.go"),("cross-group equality proof","voteproof/voteproof.go")],
["verdict of the collector"])

p("C03","Ballots are tamper-evident",
"Replacing any single component of an accepted ballot (either ciphertext half, or any commitment, challenge or response of the three proofs) by a different value makes the collector reject it. Combining components of two different accepted ballots, or exchanging the lower-bound and upper-bound proofs, is rejected as well.",
["inputs"],"every component x a mutation alphabet, all pairs of component groups, and all crossovers of two honest ballots; scalars are compared modulo the group order",
"No test ever feeds the collector a modified ballot.",
["server.go","voteproof/voteproof.go","bulletproofs/bp.go","bulletproofs/bip.go"],
[("verification equations and recomputed challenges","voteproof/voteproof.go, bulletproofs/bp.go, bulletproofs/bip.go")],
["verdict of the collector"])

p("C04","The collector judges by its own parameters, not the ballot's",
"The collector's verdict rests only on the public parameters it was given: parameters, generators, bounds or group descriptions carried inside a received ballot document can never turn a ballot that would be rejected into an accepted one. A ballot made under different public parameters (another range, other generators, another key, another challenge length) is rejected.",
["inputs","configurations"],"invalid ballots x every substitution of the parameters carried by the ballot; all ordered pairs of different configurations",
"Tests always verify under the prover's own parameters.",
["server.go","marshal.go","bulletproofs/marshal.go","voteproof/marshal.go","bulletproofs/bp.go"],
[("collector parameters passed to decode and verify","server.go, marshal.go")],
["verdict of the collector"])

p("C05","Range proofs are complete",
"For every supported range [0,2^n) (n = 1, 2, 4, 8, 16, 32), every group, and every secret in the range, the range proof produced for the secret verifies, and its commitment opens to the secret with the returned blinding value. This holds for every sequence of random draws, extreme draws included.",
["inputs","configurations"],"all secrets for n <= 16, bit-pattern boundary sets for n = 32, x random draws with bounded deviations to 0 / 1 / order-1",
"Tests prove two values (0 and 3) of one range on one group.",
["bulletproofs/bp.go","bulletproofs/bip.go","util/util.go","bulletproofs/util.go","bulletproofs/vector.go"],
[("bit decomposition and vector commitments","bulletproofs/bp.go"),("inner product argument","bulletproofs/bip.go")],
["range-proof verdict","commitment opening"])

p("C06","Range proofs are sound",
"A range proof verifies only if its commitment was made to an integer in [0,2^n): proving a value outside the range with the library yields a proof that is rejected, and no malicious combination of commitments and responses that leaves the committed value outside the range is accepted. Changing any component of a valid range proof to a different value, or mixing components of two valid proofs, makes verification fail.",
["inputs"],"out-of-range values x n; component mutations and crossovers; forgery strategies (decoupled inner product, prover-chosen generators, correlated challenges, commitment chosen last)",
"Tests try three out-of-range values with the honest prover and never a dishonest one.",
["bulletproofs/bp.go","bulletproofs/bip.go","bulletproofs/util.go"],
[("polynomial identity check, commitment check and inner-product check","bulletproofs/bp.go"),("challenge hashing","bulletproofs/util.go")],
["range-proof verdict"])

p("C07","The inner-product argument accepts exactly true inner products",
"For vectors of any power-of-two length, an inner-product proof for (a, b, c) verifies when c is the inner product of a and b modulo the group order, and does not verify when c differs from it. Changing any component of a valid inner-product proof, or the commitment it refers to, makes verification fail.",
["inputs"],"all vectors over a small alphabet for lengths 1, 2, 4, bounded deviations from a base vector for 8..32, x all wrong c from an alphabet, x component mutations",
"One test proves one length-4 vector pair.",
["bulletproofs/bip.go","bulletproofs/vector.go","bulletproofs/util.go"],
[("recursive halving with challenge folding","bulletproofs/bip.go")],
["inner-product verdict"])

p("C08","Aggregated range proofs are complete and sound",
"An aggregated range proof over m values (m dividing n) verifies whenever every value lies in [0,2^(n/m)) and its commitments open to the values with the returned blinding values. It does not verify when any one value is outside that range, when a commitment is replaced or reordered, or when any other component is changed; a number of values that does not divide n is refused with an error.",
["inputs","configurations"],"all value tuples for small n, all (n,m) with boundary tuples otherwise, out-of-range at each position, component mutations and commitment permutations",
"The one existing test of the aggregated proof uses a single pair (and fails at the pinned commit).",
["bulletproofs/multibp.go"],[("aggregated vector commitment and slices of powers of z","bulletproofs/multibp.go")],
["aggregated verdict"])

p("C09","Equality proofs are complete and never leave the no-leak window",
"For every secret of the configured length, all blinding values and every random draw, proving that a ciphertext and two commitments hold the same secret ends with a transcript that verifies against them. The emitted masked response always lies in the half-open window from 2^(secret+challenge length) to 2^(secret+challenge+abort length), and a draw that would leave the window is discarded and redrawn rather than emitted.",
["inputs","histories"],"toy parameters: every nonce draw x every secret (complete); full-size parameters: draws forced to each window edge, abort chains up to a bound",
"The package has no tests; the abort path is taken with probability 2^-15 at real sizes.",
["voteproof/voteproof.go"],[("abort loop","voteproof/voteproof.go")],["transcript and its verdict","value of the masked response"])

p("C10","Equality proofs are sound",
"A transcript verifies only if the ciphertext and both commitments hold one and the same secret under the given parameters: it is rejected when the secrets differ in any position, when the masked response lies outside the window (either edge, to the unit), when the challenge is not the one derived from the transcript, or when any component of the statement or the transcript is changed.",
["inputs"],"all assignments of secrets from an alphabet to the positions, window edges +-1, every component x mutation alphabet, compensated multi-component mutations",
"The package has no tests.",
["voteproof/voteproof.go"],[("window check, challenge recomputation and four verification equations","voteproof/voteproof.go")],["verdict"])

p("C11","Challenges bind the whole transcript and statement",
"In every non-interactive proof, the challenges depend on every message sent before them and on the statement being proved: two runs that differ in any earlier commitment or in the statement get different challenges. Distinct challenges of one proof are derived independently (never equal to one another), and the equality-proof challenge uses its full configured length.",
["inputs","fault_sequences"],"every group operation of the prover perturbed in turn (single faults), every random draw perturbed in turn, every witness component changed",
"Challenges are internal to one prove call; completeness tests pass even if a message is left out of the hash on both sides.",
["bulletproofs/util.go","bulletproofs/bp.go","bulletproofs/bip.go","voteproof/voteproof.go"],
[("Fiat-Shamir hashing","bulletproofs/util.go, bulletproofs/bip.go, voteproof/voteproof.go")],["challenges recovered from the emitted proof"])

p("C12","Every blinding value is fresh, independent and unpredictable",
"Each blinding value and nonce used in a ciphertext or proof comes from its own draw of the system randomness over its full range; none is constant, shared, or derivable from another value of the same or an earlier proof. If the randomness source fails at any draw, no ballot or proof is produced.",
["inputs","fault_sequences"],"every random draw perturbed in turn; every draw failing in turn; streams enumerated for range coverage",
"Proofs with reused or missing blinding verify just as well, so tests cannot notice.",
["bulletproofs/bp.go","bulletproofs/multibp.go","voteproof/voteproof.go","elgamal.go"],
[("crypto/rand draws","bulletproofs/bp.go, voteproof/voteproof.go, elgamal.go")],["blinding values recovered in the ideal group","behaviour under a failing random source"])

p("C13","Every group obeys the group laws",
"Each offered group behaves as a cyclic group of its stated prime order: addition, subtraction, negation, scaling by any integer (negative, zero, or beyond the order), scaling the generator, copying, and the equality and identity tests agree with arithmetic on discrete logarithms modulo the order. Operations return their receiver, accept a receiver that is also an operand, and leave the other operands unchanged.",
["inputs","histories"],"all operation sequences up to a depth over registers with aliasing and a scalar alphabet, on all five groups; small prime-order groups completely",
"Tests use random elements, where identity, doubling, inverse pairs and aliasing never occur.",
["group/p256.go","group/p384.go","group/ristretto255.go","group/p256k1.go","group/modsafeprime.go"],
[("wrappers over CIRCL, zkrp and math/big","group/*.go")],["element equality, identity, encodings"])

p("C14","Encoding and decoding are lossless",
"For every element of every offered group, decoding its binary or JSON encoding yields an equal element, also into a receiver that held something else before, and different elements have different encodings. JSON-encoding a range proof, equality proof, ciphertext or ballot and decoding it under the same parameters restores every component.",
["inputs","histories"],"elements with every coordinate-length pattern (leading zero bytes in x, y or both), identity, small and negated multiples, hashed points, on all groups; proofs over each group",
"Random elements have a leading zero byte with probability 1/128 and two with 1/32768.",
["group/p256.go","group/p384.go","group/ristretto255.go","group/p256k1.go","group/modsafeprime.go","bulletproofs/marshal.go","voteproof/marshal.go","marshal.go"],
[("marshal/unmarshal pairs","group/*.go, bulletproofs/marshal.go, voteproof/marshal.go, marshal.go")],["decoded value"])

p("C15","Malformed input is refused: no crash, no bogus element, no acceptance",
"Decoding bytes that do not encode an element of the group returns an error and never yields a value outside the group. SetBytes, which reports no error, yields an element that depends on the bytes alone, not on what the receiver held. A ballot document with missing, mistyped, truncated, oversized or non-member parts is reported as a decoding error or rejected by the collector: it is never accepted and never crashes it. (Parameters that a document carries along are not part of the ballot; faults there may be ignored, but never crash the collector.)",
["inputs"],"every path of the ballot document x a replacement alphabet (single faults, list-length faults), every truncation class, element-encoding fault alphabet on all groups",
"Tests only decode what the code itself encoded.",
["marshal.go","server.go","bulletproofs/marshal.go","voteproof/marshal.go","group/*.go","bulletproofs/bp.go","bulletproofs/bip.go","voteproof/voteproof.go"],
[("error returns of decoders, shape checks in verifiers","marshal.go, bulletproofs/marshal.go, voteproof/marshal.go")],["error, verdict or panic"])

p("C16","Public parameters are deterministic, independent and validated",
"Generating range-proof parameters twice yields the same values, and the generators in use (base, blinding, both vectors, inner-product) are all different, none the identity, with no linear relation known from their construction. Only the supported ranges 2^1, 2^2, 2^4, 2^8, 2^16 and 2^32 are accepted, and equality-proof parameters are accepted exactly when the secret and challenge lengths leave at least one bit below the declared group order length and the challenge (a positive number of whole bytes, at most 256 bits) can be produced; anything else is an error. The election set-up is deterministic and consistent: its groups have prime order, both proof systems share the commitment bases, and bounds and lengths agree with the candidate range.",
["inputs","configurations"],"all range ends in [-70000,70000], all powers of two +-1 and the 64-bit extremes; a full grid of equality-proof lengths; all generators of every group and size",
"Tests call setup with one valid range.",
["bulletproofs/bp.go","bulletproofs/bip.go","bulletproofs/util.go","voteproof/voteproof.go","group/*.go","main.go"],
[("hash-to-group seeds","bulletproofs/bp.go, bulletproofs/bip.go"),("parameter checks","bulletproofs/bp.go, voteproof/voteproof.go")],["returned parameters or error"])

p("C17","Voters and collectors do not interfere, and inputs stay untouched",
"Proving, casting, verifying and decoding give the same result whatever ran before them in the process and whatever runs concurrently on the same shared parameters, proofs and groups. None of them modifies its arguments, and verifying the same proof or ballot again gives the same verdict.",
["schedules","histories"],"all interleavings of two operations with one preemption before any statement of the repository's code (two preemptions on a grid of points); all operation sequences up to a depth, each in a fresh process",
"Tests run one operation at a time, once.",
["bulletproofs/*.go","voteproof/voteproof.go","group/*.go","voter.go","server.go"],
[("absence of shared mutable state; fresh receivers for results","all packages")],["results and snapshots of the arguments"])

p("C18","Vector and integer helpers compute their documented functions",
"The exported vector, scalar and decomposition helpers return exactly the documented modular results (in canonical form where they reduce), report an error for operands of different length where they have an error result, and do not modify their operands. Decomposition into base u recombines to the input whenever it fits the requested number of digits, and a Pedersen commitment is the stated combination of its inputs.",
["inputs"],"all operand vectors up to length 3 over an integer alphabet (negative, zero, modulus +-1, multi-word) x moduli; all x < 4096 x bases x lengths",
"Tests evaluate one vector pair each.",
["bulletproofs/vector.go","bulletproofs/util.go","util/util.go"],
[("component-wise modular arithmetic","bulletproofs/vector.go, bulletproofs/util.go, util/util.go")],["returned values"])

p("C19","Ballot encryption is correct and randomised",
"For every choice and key, decrypting an encrypted vote with the matching private key yields the group element that encodes the choice, and the returned randomness is the one used. The randomness ranges over exactly 1 to order-1, each value equally often over all random draws, so two draws that differ give different ciphertexts.",
["inputs"],"all 16-bit choices; on toy safe-prime groups every random draw x every key x choices (complete)",
"No test covers encryption.",
["elgamal.go","group/modsafeprime.go"],[("lifted ElGamal","elgamal.go")],["ciphertext, returned randomness"])

p("C20","Proofs and ballots give nothing away about the vote",
"What a prover publishes depends only on the statement, not on which secret it was made with: over all random draws, a range proof, an aggregated range proof or an equality proof made with one secret is exactly as likely as with any other secret that fits the same commitments (challenges that are zero modulo the order set aside). Every response is published in reduced form, and a ballot document contains neither the vote nor a blinding value nor an unblinded group element.",
["inputs","histories"],"every random tape x every secret that fits the statement, on cyclic groups of order 2, 3 and 5 (complete); full-size proofs and ballots of every kind for reduction and verbatim secrets",
"Leaking proofs verify just as well; only the distribution over all random draws tells.",
["bulletproofs/bp.go","bulletproofs/multibp.go","voteproof/voteproof.go","voter.go"],[("blinding of responses","bulletproofs/bp.go, bulletproofs/multibp.go, voteproof/voteproof.go"),("rejection of masked responses outside the window","voteproof/voteproof.go")],["JSON encoding of the proof or ballot"])

p("C21","Elements of different groups never mix",
"Using an element of another group as an operand (adding, subtracting, negating, scaling, copying, comparing) is refused with a panic: it is never computed with as if it belonged to the receiver's group and never compared as equal, and receiver and operands stay as they were. Elements of two group objects that describe the same group (the same curve, or the same modulus and generator) combine freely, whatever the objects are called.",
["inputs"],"all ordered pairs of group objects x operations x placements of the foreign operands x operand and receiver values",
"No test combines elements of different groups.",
["group/p256.go","group/p384.go","group/ristretto255.go","group/p256k1.go","group/modsafeprime.go"],
[("check of operands","group/*.go")],["panic or result, receiver and operands afterwards"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,x["id"]
