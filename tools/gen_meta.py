#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json from the table below (only ids
that have a check in lib/registry.py, plus NOT_APPLICABLE)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry
S = "proof_of_space/src/"
T = "proof_of_storage/src/"
FFT = "symbolic execution of the real code over a symbolic prime field, decided by z3 (QF_FF/QF_BV)"
SXT = "symbolic execution of the real code's LLVM IR (own executor), decided by z3 (QF_BV/QF_UFBV); counterexamples replayed natively"


def p(id, title, statement, over, text, why, files, mech, tech=FFT, note="", observe=()):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                                             "observe_at": list(observe)}), tech, note


PROPS = [
 p("C01", "A marked plot answers exactly the challenges that have a preimage",
   "After preparing and marking a plot, and whatever the delay function's values are, a challenge y is answered exactly when some x of the plot's range has a delay-function output whose n low bits are y, and the answer is such an x. This holds for neighbouring and byte-straddling cells, colliding outputs, the first and last cell, and when an old file was in the way.",
   ["inputs", "histories"], "all delay-function tables (small n) or arbitrary values at several x (larger n), all challenges", "The only test of the protocol takes hours, is not in the stable set, and compares nothing but the proof check.",
   [S + "proof_of_space/prover.rs", S + "proof_of_space/convert.rs"], [("prepare_space, mark_space, response_1", S + "proof_of_space/prover.rs")], SXT,
   "Bounded plot sizes and number of arbitrary table entries; file system modelled in memory."),
 p("C02", "Responses are read faithfully from the plot",
   "For every plot content and challenge list, the prover answers in order exactly the challenges whose cell is marked, up to the built-in response count, with the n-bit value stored in the challenged cell and the challenge's position; the returned hash is the list hash of exactly these answers. Answering never changes the plot.",
   ["inputs"], "all plot contents, all challenges within the bounds", "No test calls it on a known plot.",
   [S + "proof_of_space/prover.rs", S + "proof_of_space/convert.rs"], [("response_1", S + "proof_of_space/prover.rs")], SXT,
   "Bounded number of challenges per query; file system modelled in memory."),
 p("C03", "A prepared plot is exactly the declared space, all zero",
   "Preparing a plot for n creates a file that holds 2^n cells of n+1 bits, rounded up to whole bytes, every byte zero, whatever was stored under that name before.",
   ["inputs", "histories"], "all old files within the bounds, all byte positions", "No test looks at the prepared file.",
   [S + "proof_of_space/prover.rs"], [("prepare_space", S + "proof_of_space/prover.rs")], SXT, "For the listed n including the built-in 20."),
 p("C04", "Bit, byte and integer conversions are exact inverses",
   "Bytes become bits least significant first and back without loss; bit lists that do not fill a byte are padded with zeros; bit lists and integers convert both ways without loss, integers being cut to the requested number of bits.",
   ["inputs"], "all values of the listed lengths", "Each test converts one two-bit list.",
   [S + "proof_of_space/convert.rs"], [("bytes_to_bits, bits_to_bytes, bits_to_usize, usize_to_bits", S + "proof_of_space/convert.rs")], SXT, "For the listed lengths."),
 p("C05", "Challenges are in range and unrestricted",
   "Whatever the random draws, exactly the requested number of challenges is created, each below 2^N; and no value is excluded: every small challenge list can be drawn and any two bits of the challenges can take any values.",
   ["inputs"], "all outcomes of the random draws", "No test looks at challenges; a stuck or repeated bit is invisible in samples that are not compared.",
   [S + "proof_of_space/verifier.rs"], [("create_challenges", S + "proof_of_space/verifier.rs")], SXT, "Possibility, not distribution, is decided."),
 p("C14", "The verifier accepts only a checked proof of distinct challenges",
   "When verification succeeds, the given proof was checked under the given key with exactly key, m, the challenge each response index names in order, and the hash as public inputs, the check said true, every index names a challenge, and no challenge is counted twice. A full honest response with a valid proof is accepted.",
   ["inputs"], "all challenges, index lists within the bounds, keys, hashes and proof-check verdicts", "The protocol test never feeds a wrong index, repeated index or bad proof.",
   [S + "proof_of_space/verifier.rs"], [("verify", S + "proof_of_space/verifier.rs")], SXT, "Groth16 idealised."),
 p("C06", "MiMC delay functions compute their defined Feistel permutation",
   "For every pair of field inputs and every list of round constants, the cubic delay function returns the left half after 322 rounds of (L,R) -> (R + (L + c_i)^3, L), and the quintic one the left half after 10 rounds with exponent 5. The result depends on nothing else.",
   ["inputs"], "all field elements xl, xr and all constants", "The tests time random inputs and compare nothing with an independent definition.",
   [S + "mimc/mimc_df.rs"], [("mimc3_df", S + "mimc/mimc_df.rs"), ("mimc5_df", S + "mimc/mimc_df.rs")],
   note="Bounded: built-in round counts, all field values. Oracle: independent definition in lib/checks_ff.py (Ref)."),
 p("C07", "MiMC hashes compute their defined value, also for lists",
   "For every key, constants and input, the MiMC-5 (10 rounds) and MiMC-7 (91 rounds) hash is the iterated power of state+key+constant (no constant in the first round) with the key added at the end. The hash of a list starts from the key and, per element in order, adds the element and its hash under the running value; the empty list gives the key.",
   ["inputs"], "all field inputs and lists up to the stated length", "The tests only time random inputs.",
   [S + "mimc/mimc_hash.rs"], [("mimc5_hash, mimc7_hash, multi_mimc5_hash, multi_mimc7_hash", S + "mimc/mimc_hash.rs")],
   note="Bounded list length. Oracle: independent definition."),
 p("C08", "Delay-function circuits admit only the true output",
   "Any assignment that satisfies the constraints of the cubic or quintic delay-function circuit has as its only public value the delay function of the secret inputs it contains. No choice of the remaining witness values can publish another output.",
   ["inputs"], "all assignments of all circuit variables, all constants", "Tests only prove honest witnesses; a missing constraint is invisible to them.",
   [S + "circuit/mimc3_df_circuit.rs", S + "circuit/mimc5_df_circuit.rs"], [("generate_constraints", S + "circuit/mimc5_df_circuit.rs")],
   note="Soundness of the constraint system itself (Groth16's own soundness is assumed). A sat answer is replayed as a forged witness on the real circuit."),
 p("C09", "Hash circuits admit only the true list hash",
   "Any assignment that satisfies the constraints of the MiMC-5 or MiMC-7 list-hash circuit has as its only public value the hash of the key and inputs it contains. The chaining between elements cannot be broken by witness values.",
   ["inputs"], "all assignments of all circuit variables, lists up to the stated length", "Tests only prove honest witnesses of one input.",
   [S + "circuit/mimc5_hash_circuit.rs", S + "circuit/mimc7_hash_circuit.rs"], [("generate_constraints", S + "circuit/mimc5_hash_circuit.rs")],
   note="Constraint-system soundness, bounded list length."),
 p("C10", "The exponentiation circuit admits only g to the given bits",
   "Any assignment that satisfies the constraints of the exponentiation circuit has exponent bits that are 0 or 1, and its only public value is the base raised to the number these bits spell (least significant first).",
   ["inputs"], "all assignments of all circuit variables", "Tests only prove honest witnesses.",
   [S + "circuit/pow_circuit.rs"], [("generate_constraints", S + "circuit/pow_circuit.rs")], note="Constraint-system soundness at the built-in 20 bits."),
 p("C11", "The equality circuit admits only the low bits of x2 as x1",
   "Any assignment that satisfies the equality circuit for difficulty d publishes (x1, x2) with x1 equal to the d least significant bits of the canonical representative of x2. Alternative bit expansions of x2 are rejected.",
   ["inputs"], "all assignments of all circuit variables, for each difficulty checked", "Tests only prove honest witnesses.",
   [S + "circuit/equal_circuit.rs", S + "circuit/canonical.rs"], [("generate_constraints", S + "circuit/equal_circuit.rs"), ("enforce_canonical", S + "circuit/canonical.rs")],
   note="Constraint-system soundness for the listed difficulties."),
 p("C12", "The proof-of-space circuit admits only true responses",
   "Any assignment satisfying the proof-of-space circuit contains secrets x_i such that every public response y_i is the low N bits of the canonical value of the delay function of (key + x_i, m), with the public key and m, and the public hash is the list hash of exactly those x_i under the key.",
   ["inputs"], "all assignments of all circuit variables", "Tests only prove honest witnesses; the protocol test is not even part of the stable set.",
   [S + "circuit/pospace_circuit.rs", S + "circuit/canonical.rs"], [("generate_constraints", S + "circuit/pospace_circuit.rs")],
   note="Constraint-system soundness for the stated numbers of responses; the range of the x_i is not part of the statement."),
 p("C13", "Honest provers satisfy every circuit, with setup and proof in step",
   "For every honest input, each circuit's own witness satisfies all of its constraints, publishes the true values in the documented order, and the constraint system does not depend on the witness: parameters made without a witness fit every later proof.",
   ["inputs"], "all field inputs; bit-valued inputs over boundary, single-bit and seeded patterns", "Tests prove a few random witnesses per circuit.",
   [S + "circuit/mimc3_df_circuit.rs", S + "circuit/mimc5_df_circuit.rs", S + "circuit/mimc5_hash_circuit.rs", S + "circuit/mimc7_hash_circuit.rs", S + "circuit/pow_circuit.rs", S + "circuit/equal_circuit.rs", S + "circuit/pospace_circuit.rs"],
   [("generate_constraints", S + "circuit/")], note="Symbolic in all field inputs; inputs that the code turns into bits are covered per pattern."),
 p("C15", "Prover and verifier agree on the statement; rejected proofs are refused",
   "The proof produced for a full set of responses is for exactly the public inputs the verifier checks: key, m, the challenged values picked by the response indices in order, and the hash, under the same parameters. Verification succeeds when the proof check says true, and does not succeed when it says false or errs.",
   ["inputs"], "all key, m, secrets and hash values; the response index patterns checked", "The protocol test is not in the stable set and never feeds a bad proof.",
   [S + "proof_of_space/prover.rs", S + "proof_of_space/verifier.rs"], [("construct_circuit, response_2", S + "proof_of_space/prover.rs"), ("verify", S + "proof_of_space/verifier.rs")],
   note="Groth16 idealised in the symbolic run, real in replays."),
 p("C16", "Dependency rules give existing, distinct, reproducible dependencies",
   "For every index, count and number of blocks or units, the dependency rules never fail and list only existing others, each once, at most as many as asked for; long dependencies are on earlier blocks only. Long rule 1 is the distances 1, 3, 5, ..., rules 2 and 3 are 2, 3, 5, 9, ... (rule 3: index/10 of them) while the block exists; short rule 1 alternates -1, +1, -3, +3, ... skipping what does not exist, short rule 2 is -2, +1, -5, +7, -17, ... up to the first that does not exist. The random rules depend only on their arguments, are ascending, never empty for a later block, and can reach every index.",
   ["inputs"], "all indices, counts and hash values within the bounds", "No stable test covers the storage crate; its own tests print the rules or time them.",
   [T + "proof_of_storage/depend.rs"], [("long_depend, short_depend, long_mode_random, short_depend_random", T + "proof_of_storage/depend.rs")], SXT, "Bounded counts and sizes; hash arbitrary in 1-4 bytes."),
 p("C17", "Padding, splitting and modular helpers lose nothing",
   "Padding a file to units and compressing it back gives the same bytes, whatever files were in the way; splitting into units and joining is lossless and in order; reads return exactly the asked range; xor of byte strings is bytewise over the longer one; adding and then subtracting any byte string modulo p gives back every value below p, in the same length, and sums are the reduced sum.",
   ["inputs"], "all contents within the bounds", "No stable test covers them.",
   [T + "proof_of_storage/common.rs", T + "proof_of_storage/prover.rs"], [("to_units, com_units, vecu8_xor, read_file, modadd, modsub", T + "proof_of_storage/common.rs"), ("copy_and_pad, copy_and_compress", T + "proof_of_storage/prover.rs")], SXT,
   "Small primes exhaustively, the built-in ones with few arbitrary bytes."),
 p("C18", "The delay function is a permutation and its inverse undoes it",
   "For every value below the prime modulus (3 modulo 4), and any number of rounds, the inverse of the delay function undoes it and the other way round, including 0; results stay below the modulus; both big-integer implementations agree; the quadratic character they use is right for every odd prime; on byte strings the length is kept and short results are padded.",
   ["inputs"], "all values modulo the listed primes", "The tests try random values of one modulus each and are not in the stable set.",
   [T + "vde/rug_sloth.rs", T + "vde/sloth.rs", T + "vde/rug_vde.rs"], [("sloth, sloth_inv, legendre", T + "vde/rug_sloth.rs"), ("sloth, sloth_inv, legendre", T + "vde/sloth.rs"), ("vde, vde_inv", T + "vde/rug_vde.rs")], SXT,
   "Primes up to 251; the built-in 512- to 2048-bit primes are out of the solver's reach."),
 p("C19", "Unsealing a sealed file gives the original data",
   "For every file content, initial value and parameter set (block and unit counts, sealing rounds, random or deterministic long and short dependencies, number of dependencies), padding and sealing a file and later unsealing and compressing it, possibly in another process, gives back exactly the original bytes; the sealed file has the padded length.",
   ["inputs", "histories"], "all contents, hash functions and permutations, for the parameter sets listed", "The only test needs a large prepared file and is not in the stable set; it runs one parameter set on one random file.",
   [T + "proof_of_storage/prover.rs"], [("seal, unseal, copy_and_pad, copy_and_compress", T + "proof_of_storage/prover.rs")], SXT,
   "Small units and modulus 2^16; delay function an arbitrary permutation."),
 p("C20", "Sealing binds every unit to its dependencies as defined",
   "The sealed form of each unit is, per sealing round, the delay function of the unit plus the hash of: the same unit of each long-dependency block (sealed), each short-dependency unit of its block (current form), and for the first unit the previous block's id (first block: the initial value). Random dependencies are derived from the previous block's id and the previous unit. Each block's id is the hash of its sealed bytes; the ids are returned in order.",
   ["inputs"], "all contents, hash functions and permutations, for the parameter sets listed", "Nothing compares sealed data with a definition; a dropped dependency round-trips just as well.",
   [T + "proof_of_storage/prover.rs", T + "proof_of_storage/common.rs"], [("seal", T + "proof_of_storage/prover.rs")], SXT,
   "Oracle: independent definition in the harness (reference)."),
 p("C21", "The verifier's partial unsealing restores exactly the asked blocks",
   "For every sealed file, the verifier's unsealing of a range of blocks, of one block at a time, sequential or parallel, gives the original data of exactly these blocks in order; the comparison with the original accepts it, and does not accept when any byte of the original of these blocks differs.",
   ["inputs", "histories"], "all contents, hash functions and permutations, for the parameter sets listed; all single-byte changes", "Not in the stable tests, and never run with changed data.",
   [T + "proof_of_storage/verifier.rs"], [("batch_unseal_prepare, single_unseal_prepare, batch_unseal, batch_unseal_parallel, batch_unseal_and_verify, batch_verify", T + "proof_of_storage/verifier.rs")], SXT,
   "Ranges of whole blocks; thread pool jobs run one after the other in any order."),
 p("C22", "The Merkle root commits to the whole file and proofs are checked",
   "Two files of the same length have the same root exactly when they are equal, with one leaf per block from the first to the last; building from blocks gives the same tree; the proof for any set of leaves is accepted with the true root and leaves, and is not accepted with a changed leaf or root. The last protocol step accepts equal files and does not accept when an opened leaf or the root differs.",
   ["inputs"], "all file contents within the bounds, all subsets of up to five leaves", "Not in the stable tests, and never run with changed data.",
   [T + "proof_of_storage/merkle_tree.rs", T + "proof_of_storage/postorage.rs"], [("generate_merkle_tree_from_file, generate_merkle_tree_from_data, generate_merkle_proof, verify_merkle_proof", T + "proof_of_storage/merkle_tree.rs"), ("merkle_tree_proof", T + "proof_of_storage/postorage.rs")], SXT,
   "SHA-256 taken as collision-free; up to 9 leaves."),
 p("C23", "Storage challenges are distinct, in range and unrestricted",
   "Whatever the random draws, exactly the asked number of challenges is returned, all within the half-open range, ascending and without repetition, and every such list can occur. A random file has exactly the asked length, replacing an older one, and any content.",
   ["inputs"], "all outcomes of the random draws within the bounds", "No test looks at them.",
   [T + "proof_of_storage/verifier.rs"], [("create_challenges, create_random_file", T + "proof_of_storage/verifier.rs")], SXT, "Possibility, not distribution, is decided; at most one repeated draw."),
 p("C24", "Parameters fit together and public data survives saving",
   "The modulus chosen for a padded unit length has that many bits and is 3 modulo 4, the initial value is 128 unrestricted bytes; the built-in parameters consist of whole units and blocks with one byte of padding per unit and the size asked for. Loading saved public data gives back the same modulus and initial value, also over an older file.",
   ["inputs"], "all initial values within the bounds", "No test compares them.",
   [T + "proof_of_storage/postorage.rs", T + "proof_of_storage/common.rs"], [("prepare_params, save_data, load_data", T + "proof_of_storage/postorage.rs"), ("gen_posdata", T + "proof_of_storage/common.rs")], SXT, "For the listed sizes."),
 p("C25", "The storage protocol runs through: what the provider seals, anyone can check and the owner gets back",
   "Driving the protocol as a whole: sealing and unsealing a file with freshly drawn parameters leaves the original untouched and produces an identical copy; what is saved next to a sealed file (modulus, initial value) is enough to unseal it later; the check of single sealed blocks against the original accepts an honest provider, with one or several workers, and fails if the original and the sealed data disagree in any byte it looks at; the Merkle step after unsealing succeeds. Older files under the same names do not matter.",
   ["inputs", "histories", "schedules"], "all data, drawn values, hash functions and permutations, older files, job orders within the bounds", "The end-to-end tests are not in the stable set (they need gigabytes and hours) and the drivers return nothing to compare.",
   [T + "proof_of_storage/postorage.rs", T + "proof_of_storage/prover.rs", T + "proof_of_storage/verifier.rs"], [("seal_and_unseal, test_unseal_single_and_verify, merkle_tree_proof, test_postorage", T + "proof_of_storage/postorage.rs")], SXT,
   "Two-byte units; hash and delay function are an arbitrary function and an arbitrary permutation."),
]
NA = []


def main():
    hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
    commits = [l.split()[0] for l in hook if l.split(" ", 1)[1].startswith("verif:")]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, _, _ in sorted(PROPS, key=lambda x: x[0]["id"]):
            if d["id"] in registry.CHECKS or d["id"] in [n["property"] for n in NA]:
                f.write(json.dumps(d) + "\n")
    checks = []
    for d, tech, note in sorted(PROPS, key=lambda x: x[0]["id"]):
        if d["id"] in registry.CHECKS:
            c = "python3-vt run.py %s" % d["id"]
            checks.append({"property": d["id"], "quick_cmd": c, "thorough_cmd": "VERIF_TIER=thorough " + c,
                           "technique": tech, "level": registry.CHECKS[d["id"]].level, "level_note": note})
    m = {"version": 1, "setup_cmd": "python3-vt -c 'import sys; sys.path.insert(0, \"lib\"); import registry'",
         "hooks": {"guard": "cfg(verif)", "enable": "RUSTFLAGS=--cfg verif", "source_commits": commits},
         "checks": checks, "not_applicable": NA,
         "notes": "Each check regenerates its encoding from /repo's working tree under /verif/build (ignored by git)."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
