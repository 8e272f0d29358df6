#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
N={
"C01":("exhaustive enumeration of candidates x configurations x forced draws on the real code over an ideal group","All candidates of the listed configurations (strided in the quick tier above 2000), every draw forced to its extremes; direct and JSON hand-over; replayed on the real groups."),
"C02":("exhaustive enumeration of dishonest voters' value assignments and forgery strategies, judged on the ideal group","Accept implies the number read from the ciphertext is in range, for every assignment of the alphabet; adversaries outside the families are not covered."),
"C03":("exhaustive enumeration of component mutations and crossovers of accepted ballots","Every component, every replacement of the alphabet, pairs of components, all crossovers."),
"C04":("exhaustive enumeration of parameter substitutions in ballots x configurations","Every parameter carried by a ballot substituted, alone and jointly; all ordered pairs of configurations."),
"C05":("exhaustive enumeration of secrets x draw deviations on the real prover and verifier over an ideal group","All secrets up to 16 bits; bit patterns for 32 bits; draws forced to extremes."),
"C06":("exhaustive enumeration of out-of-range provers, mutations, crossovers and forgery strategies; acceptance judged on the ideal group","Accept implies the committed value is in range, for every explored transcript."),
"C07":("exhaustive enumeration of vectors x claims x mutations of the inner-product argument","Complete over the small alphabet for lengths 1, 2, 4; bounded deviations for longer vectors."),
"C08":("exhaustive enumeration of value tuples, shapes, mutations and permutations of aggregated proofs","Complete tuples for at most 8 bits in total, boundary tuples beyond."),
"C09":("exhaustive enumeration of nonces x secrets (toy sizes: complete state space; full size: window edges and abort chains)","Complete for toy parameters; edges to the unit at full size."),
"C10":("exhaustive enumeration of secret assignments, window edges and transcript mutations; judged on the ideal group","Accept implies one common secret, response in the window and the derived challenge, over the families enumerated."),
"C11":("single-fault enumeration: every group operation and draw of the prover perturbed in turn, challenges compared","Every message before a challenge influences it; no two challenges coincide."),
"C12":("fault enumeration over every random draw (perturbed, failing) with dependence analysis of the blinders on the ideal group","Each blinder depends on exactly its own draw; any failing draw yields no ballot or proof."),
"C13":("explicit-state exploration of operation sequences of a register machine with aliasing on every group, against reference arithmetic","All programs to the depth bound from the listed registers; small safe-prime groups completely."),
"C14":("exhaustive enumeration of elements (all coordinate-length patterns) x encodings x receivers, and of proofs and ballots","Decoding the encoding restores the value, over the enumerated elements."),
"C15":("exhaustive single-fault enumeration over every path of the ballot document and over element encodings","Error or rejection, never a crash or a non-member, for every explored fault."),
"C16":("exhaustive enumeration of set-up inputs; rank of the generators on the ideal group","Accepted exactly the documented inputs over the explored grid; deterministic; independent generators."),
"C17":("stateless schedule exploration of the real code (preemption before every statement) and all operation histories to a depth in fresh processes","All schedules of two operations with one preemption (two, strided); sequences of two operations (thorough: three) in fresh processes; race detector as an additional pass."),
"C18":("exhaustive enumeration of operand vectors and integers against reference arithmetic","All operands up to the length bound over the alphabet."),
"C19":("complete enumeration of choices, keys and draws on toy safe-prime groups; all 16-bit choices on an ideal group","Complete for the toy groups; all choices at full size."),
"C20":("complete enumeration of random tapes x secrets over cyclic groups of tiny order: the multisets of published transcripts are compared","Complete for orders 2, 3, 5 (thorough: 7) and ranges of 1, 2, 4 bits (thorough: 8), single and aggregated, and for toy equality proofs; at full size, reduction of responses and absence of verbatim secrets."),
"C21":("exhaustive enumeration of ordered pairs of group objects x operations x operand placements x values","Every operation of the interface that takes elements; five group implementations, safe-prime groups that share modulus, generator or name."),
}
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
assert sorted(props)==sorted(N)
m={"version":1,"setup_cmd":"bash setup.sh","checks":[{"property":p,"quick_cmd":f"bash run.sh {p}","thorough_cmd":f"VERIF_TIER=thorough bash run.sh {p}",
 "technique":"model checking: "+N[p][0],"level":"model_checking","level_note":N[p][1]+" Trusts: the ideal-group model (bound to the code by C13 and by replayed traces), the Go toolchain."} for p in sorted(N)],
 "not_applicable":[],"notes":"No hooks in /repo: the harness is added to the build with go build -overlay. A check's replay: bash run.sh <ID> '<case key>'."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
