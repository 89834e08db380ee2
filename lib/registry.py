"""property id -> how it is decided"""
import common


class FF:
    """symbolic field execution + QF_FF / QF_BV queries"""
    level = "other"

    def __init__(self, fn, functions, bounds, assumptions=()):
        self.fn, self.functions, self.bounds = fn, functions, bounds
        self.assumptions = list(assumptions) + [
            "z3 (z3-new) QF_FF / QF_BV verdicts; rustc; arkworks' ark-relations executed as is",
            "the symbolic field stands for BLS12-381's scalar field: ring and field axioms, integer value only where the code leaves the field"]

    def run(self, pid):
        import checks_ff
        common.build_symrun()
        getattr(checks_ff, self.fn)(pid)
        checks_ff.finish()
        return {"not_decided": checks_ff.NOTES} if checks_ff.NOTES else {}

    def coverage(self, c):
        import ffenc
        st = ffenc.STATS
        sl = sorted(st.samples, key=lambda q: -q["solver_s"])
        d = {"explanation": "every value of the symbolic inputs within the bounds was decided by the solver: the repository's functions are compiled unmodified against a symbolic field, the resulting expressions and constraint matrices are encoded, and the negated property was put to z3",
             "functions_encoded": self.functions, "bounds": self.bounds[common.TIER], "queries": st.queries,
             "verdicts": dict(st.verdicts), "solver_s": round(st.time, 2), "samples": sl[:4] + sl[-4:],
             "summary": "queries=%d verdicts=%s solver=%.1fs" % (st.queries, st.verdicts, st.time)}
        d.update(c)
        return d


class SX:
    """symbolic execution of the compiled code (LLVM IR) + QF_BV / QF_UFBV queries"""
    level = "other"

    def __init__(self, which, quick, thorough, functions, bounds, assumptions=()):
        self.which, self.sets, self.functions, self.bounds = which, {"quick": quick, "thorough": quick + thorough}, functions, bounds
        self.assumptions = list(assumptions) + [
            "rustc's LLVM IR at opt-level 2 with overflow checks; engine/symex' semantics of it; z3 (z3-new) QF_BV / QF_UFBV verdicts",
            "files are an in-memory model (one process, no I/O errors, no short reads), the clock stands still"]
        self.results, self.notes = [], []

    def run(self, pid):
        import xrun
        secs, total = {"quick": (420, 600), "thorough": (3000, None)}[common.TIER]
        hit = []

        def found(r):
            ok, text = xrun.replay(self.which, r["fn"], r)
            if ok:
                hit.append(("%s: %s" % (r["fn"], "; ".join(r["never"][:3]) + " cannot occur" if r["status"] == "impossible" else r["msg"]), text))
            return ok
        self.results = xrun.run(self.which, self.sets[common.TIER], secs, total=total, found=found)
        if hit:
            raise common.Violation(*hit[0])
        for r in self.results:
            if r["status"] in ("violation", "impossible"):
                self.notes.append("%s: the solver's counterexample (%s) was not confirmed by the native replay" % (r["fn"], r.get("msg")))
            elif r["status"] != "ok":
                self.notes.append("%s: %s" % (r["fn"], str(r.get("reason"))[:300]))
            elif not r["paths"]:
                self.notes.append("%s: no run reaches the end of the harness" % r["fn"])
        if not any(r["status"] == "ok" and r["paths"] for r in self.results):
            raise common.CheckError("; ".join(self.notes)[:3000])
        return {"not_decided": self.notes} if self.notes else {}

    def coverage(self, c):
        import re
        done = [r for r in self.results if "queries" in r]
        tot = lambda k: sum(r[k] for r in done)
        fns = set()
        for r in done:
            for f in r.get("functions", []):
                if re.search(r"14proof_of_space|16proof_of_storage", f) and "verif_harness" not in f:
                    fns.add(f)
        d = {"explanation": "every value of the symbolic inputs (challenges, delay-function outputs, file contents, draws) within the bounds was decided: the repository's functions, compiled to LLVM IR from the working tree, are executed symbolically; branches and assertions whose value the term simplifier does not settle go to z3",
             "functions_encoded": self.functions, "symbols_executed": sorted(fns)[:60], "bounds": self.bounds[common.TIER]}
        if done:
            d.update({"queries": tot("queries"), "verdicts": {"sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown")},
                      "assertions": tot("checks"), "assertions_settled_by_simplification": tot("trivial"), "paths": tot("paths"),
                      "forks": tot("forks"), "merges": tot("merges"), "instructions": tot("insts"), "solver_s": round(tot("solver_s"), 2),
                      "samples": [{k: r[k] for k in ("fn", "status", "queries", "checks", "paths", "solver_s", "wall_s")} for r in done],
                      "summary": "harnesses=%d queries=%d assertions=%d solver=%.1fs%s" % (len(done), tot("queries"), tot("checks"), tot("solver_s"), " not_decided=%d" % len(self.notes) if self.notes else "")})
        d.update(c)
        return d


def H(p, names):
    return ["h_%s_%s" % (p, n) for n in names.split()]


S = "proof_of_space/src/"
T = "proof_of_storage/src/"
SEAL = ["the delay function is an arbitrary permutation of the residues per number of rounds (that it is one: C18), blake3 an arbitrary function, rug::Integer is engine/xshims/bigz with a power of two as modulus (primes: C17)"]
CHECKS = {
    "C06": FF("check_df_native", [S + "mimc/mimc_df.rs: mimc3_df, mimc5_df"],
              {"quick": "all inputs and constants, 322 / 10 rounds (the built-in counts)",
               "thorough": "all inputs and constants, 322 / 10 rounds (the built-in counts)"}),
    "C07": FF("check_hash_native", [S + "mimc/mimc_hash.rs: mimc5_hash, mimc7_hash, multi_mimc5_hash, multi_mimc7_hash"],
              {"quick": "all field inputs; lists of 0..8, 16, 33, 50, 64 (mimc5) and 0..4, 9, 20 (mimc7) elements",
               "thorough": "all field inputs; lists of 0..65 (mimc5) and 0..33 (mimc7) elements"}),
    "C08": FF("check_df_circuit", [S + "circuit/mimc3_df_circuit.rs, mimc5_df_circuit.rs: generate_constraints"],
              {"quick": "all assignments of all variables, 322 / 10 rounds", "thorough": "all assignments of all variables, 322 / 10 rounds"}),
    "C09": FF("check_hash_circuit", [S + "circuit/mimc5_hash_circuit.rs, mimc7_hash_circuit.rs: generate_constraints"],
              {"quick": "all assignments; lists of 1..6 and 50 (mimc5), 1..3 and 8 (mimc7) inputs", "thorough": "all assignments; lists of 1..20 and 50 (mimc5), 1..12 (mimc7) inputs"}),
    "C10": FF("check_pow_circuit", [S + "circuit/pow_circuit.rs: generate_constraints"],
              {"quick": "all assignments, 20 exponent bits (built-in size)", "thorough": "all assignments, 20 exponent bits (built-in size)"}),
    "C11": FF("check_equal_circuit", [S + "circuit/equal_circuit.rs, canonical.rs: generate_constraints"],
              {"quick": "all assignments; 24 difficulties between 1 and 256", "thorough": "all assignments; every difficulty 1..256"}),
    "C12": FF("check_pospace_circuit", [S + "circuit/pospace_circuit.rs, canonical.rs: generate_constraints"],
              {"quick": "all assignments; 1, 2 and the built-in 50 responses, N and round counts as built in", "thorough": "all assignments; 1..8 and 50 responses"}),
    "C13": FF("check_complete", [S + "circuit/*.rs: generate_constraints in setup and prove mode"],
              {"quick": "all field inputs; hash lists of 1..4, 50 (mimc5) and 1..3 (mimc7), proof of space up to 50 responses; bit-pattern inputs (pow exponents, equal x2, delay function outputs) taken from boundary, single-bit and seeded values", "thorough": "the same with longer lists and more bit patterns"}),
    "C15": FF("check_wire", [S + "proof_of_space/prover.rs: construct_circuit, response_2", S + "proof_of_space/verifier.rs: verify", S + "circuit/pospace_circuit.rs"],
              {"quick": "the built-in number of responses (50), all key, m, x, x_hash values; response index patterns with stride 1 and 2; the three verdicts of the proof check", "thorough": "the same"},
              ["Groth16 itself is replaced by an ideal proof system in the symbolic run; the real one is used in replays"]),
    "C01": SX("space", H("c01", "n18 n16 n14 n13 n12 n11 n10 n10_mid n9 n8 n7 n6 n5 n5_mid n3 n2 n1"), H("c01", "builtin n17 n15 n4"),
              [S + "proof_of_space/prover.rs: prepare_space, mark_space, response_1", S + "proof_of_space/convert.rs"],
              {"quick": "n = 1, 2, 3: every delay-function table (all values at all x), 2-3 arbitrary challenges, an arbitrary old file in the way; n = 5..14, 16, 18: arbitrary values at up to three x (highest, and mid-range for n = 5, 10), the other x spread over eight fixed cells, 1-2 arbitrary challenges",
               "thorough": "the same plus n = 4 (when decided), 15, 17 and the built-in 20"},
              ["the delay function is an arbitrary function of x (its definition is C06); products of field elements are uninterpreted"]),
    "C02": SX("space", H("c02", "ns one two res res5 cap cap_first cap_second cap_late cap_last cap_many"), H("c02", "three"),
              [S + "proof_of_space/prover.rs: response_1", S + "proof_of_space/convert.rs"],
              {"quick": "every plot content; one arbitrary challenge for every n = 1..20, two arbitrary challenges at n = 20, three and four with fixed residues modulo 8; three answerable challenges more than RESPONSE_COUNT at fixed positions, with six patterns of unanswerable ones between them",
               "thorough": "the same plus three arbitrary challenges at n = 20 (when decided)"},
              ["products of field elements are uninterpreted (the hash itself is C07)"]),
    "C03": SX("space", H("c03", "builtin n0 n1 n2 n3 n4 n5 n8 n10 n13 n16"), [],
              [S + "proof_of_space/prover.rs: prepare_space"],
              {"quick": "n = 0..5, 8, 10, 13, 16 and the built-in 20; no old file or an old file of arbitrary content (arbitrary length for n <= 4, longer than the plot otherwise); every byte position",
               "thorough": "the same"}),
    "C04": SX("space", H("c04", "usize bytes bytes_big bits bits_big"), [],
              [S + "proof_of_space/convert.rs: bytes_to_bits, bits_to_bytes, bits_to_usize, usize_to_bits"],
              {"quick": "every content of byte lists of length 0..5, 8, 16, 31, of bit lists of length 0..40, 63..65, 127, 256; every 64-bit integer with 1..63 bits", "thorough": "the same"}),
    "C05": SX("space", H("c05", "range builtin all_small all_five pairs"), [],
              [S + "proof_of_space/verifier.rs: create_challenges"],
              {"quick": "every outcome of the random draws; 0..5 challenges and the built-in 100 of up to 20 bits (count, range); every value of one 5-bit and of two 3-bit challenges, every value of every two bits of two 20-bit challenges is possible", "thorough": "the same"},
              ["a draw from the random generator is an arbitrary value of the range asked for"]),
    "C14": SX("space", H("c14", "only only_full accepts"), [],
              [S + "proof_of_space/verifier.rs: verify"],
              {"quick": "every key, m, hash, challenge value; index lists of length 0..4 with arbitrary indices (also out of range and repeated) into 4 challenges; 50 of 100 with one arbitrary index, and 50 of 100 ascending; all three verdicts of the proof check", "thorough": "the same"},
              ["Groth16 is an ideal check with an arbitrary verdict"]),
    "C16": SX("storage", H("dep", "long1 long1_far long2 long2_far long2_many long3 long3_far long_other short1 short2 short_far short_other tables rl_mid rl_small rl_many rl_many2 rl_mid_many rl_big rl_big_many rl_builtin rs_builtin rs_builtin64 rl_reach rl_reach_mid rl_reach_big rs_small rs_many rs_many2 rs_mid rs_mid_many rs_big rs_big_many rs_reach rs_reach_mid rs_reach_big order"), [],
              [T + "proof_of_storage/depend.rs: long_depend, short_depend, create_long_depend, create_short_depend, long_mode_random, short_depend_random"],
              {"quick": "deterministic rules: every index below 40-70 with every count below 6-8, arbitrary 40-bit indices with fixed counts, counts up to 100 at fixed indices, 1..12 units with every index and count below 5-6, 64 and 1000 units; random rules: every value of the hash bytes (1-4 of the 16 arbitrary and distinct per call, the rest zero), 3..9 blocks with every index, 1000 and 100000 blocks at the last indices, counts 1..20, and the built-in 256 blocks with 26 and 64 / 4096 units with 10",
               "thorough": "the same"},
              ["blake3 is an arbitrary function of its input of which 1-4 bytes are arbitrary (bound)"]),
    "C17": SX("storage", H("bytes", "units xor read pad") + H("mod", "small two longer three leading value wide wrap64 wrap512"), H("mod", "p64"),
              [T + "proof_of_storage/common.rs: to_units, com_units, vecu8_xor, read_file, modadd, modsub", T + "proof_of_storage/prover.rs: copy_and_pad, copy_and_compress"],
              {"quick": "all byte contents; 0..3 units of 1..3 bytes, operands of 0..3 bytes, files of 6 bytes; modular helpers: every 1-byte value and 2-byte addend modulo 251, every 2-byte value and addend modulo 65519, every 3-byte value with every 1-byte addend modulo 16777213, 64-byte units with leading zero bytes; 256-, 512- and 1024-bit primes with four to eight arbitrary bytes and no wrap-around, and 256 by 256 pairs around the 64- and 512-bit primes",
               "thorough": "the same plus every 8-byte value and addend modulo the 64-bit prime with at most one value with leading zero bytes"},
              ["rug::Integer is replaced by engine/xshims/bigz (sign, magnitude in 64-bit limbs)"]),
    "C18": SX("storage", H("vde", "rug31 rug23 big31 big23 rug19 rug11 rug7 rug3 rug103 rug251 big19 big11 big7 big3 big103 big251 agree7 agree19 agree31 legendre3 legendre5 legendre7 legendre13 legendre17 legendre19 legendre23 legendre29 legendre31 modpow7 modpow23 bytes1 bytes2 bytes3 bytes_t0 bytes_t3"), H("vde", "rug7_t3 rug11_t2 big7_t3"),
              [T + "vde/rug_sloth.rs, vde/sloth.rs: legendre, single_sloth, sloth, single_sloth_inv, sloth_inv", T + "vde/rug_vde.rs: vde, vde_inv", T + "vde/compare_modpow.rs: fast_modpow"],
              {"quick": "every value modulo the primes 3, 7, 11, 19, 23, 31 (value symbolic), 103, 251 (case split), one round; both implementations, two rounds, modulo 7, 19, 31; 0, 1 and 3 rounds on byte strings of 1..3 bytes; the quadratic character modulo every odd prime up to 31 except 11 (5, 13, 17, 29 are 1 modulo 4); powers below 12",
               "thorough": "the same plus two and three rounds modulo 7 and 11"},
              ["rug::Integer and num_bigint::BigInt are replaced by engine/xshims/bigz; the built-in 64- to 2048-bit primes are out of the solver's reach"]),
    "C19": SX("sealing", H("round", "both units2 blocks rounds rule3 units units_short rule12 nine mixed2 tiny rule1 rule2 mixed wide eleven twelve thirty many more unitsmany twice twicemany"), H("round", "rounds3"),
              [T + "proof_of_storage/prover.rs: copy_and_pad, seal, unseal, copy_and_compress", T + "proof_of_storage/depend.rs", T + "proof_of_storage/common.rs", T + "vde/rug_vde.rs"],
              {"quick": "every data content, initial value, hash function and permutation; 1..12 blocks of 1..4 units, one or two sealing rounds, random rules and deterministic rules 1, 2, 3 / 1, 2; 2-byte units modulo 2^16 (one case 3-byte units modulo 2^24), 2 arbitrary hash bytes, up to 9 values with leading zero bytes (0 or 1 in the larger cases); large cases (12..300 blocks, 300 units, 25 blocks of 6 units in two rounds) with the last 1..12 bytes arbitrary, the rest and the hash and permutation on known values fixed",
               "thorough": "the same plus three sealing rounds"}, SEAL),
    "C20": SX("sealing", H("spec", "rule1 units2 rule3 rule12 nine blocks both units rule2 twelve thirty many more unitsmany twice twicemany"), [],
              [T + "proof_of_storage/prover.rs: copy_and_pad, seal", T + "proof_of_storage/common.rs", T + "proof_of_storage/depend.rs", T + "vde/rug_vde.rs"],
              {"quick": "every data content, initial value, hash function and permutation; 1..12 blocks of 1..4 units, one or two sealing rounds, random and deterministic rules; 2-byte units modulo 2^16, 2 arbitrary hash bytes, at most one value with leading zero bytes; large cases (12..300 blocks, 300 units, 25 blocks of 6 units in two rounds) with the last 1..12 bytes arbitrary, the rest and the hash and permutation on known values fixed", "thorough": "the same"}, SEAL),
    "C21": SX("sealing", H("batch", "both tail rounds rule12 rule1 rule2 twelve more unitsmany twicemany") + H("par", "both rule12 tail rule1 twelve ten more unitsmany twicemany") + H("single", "both rule1 rule2 twelve more twicemany") + H("verify", "changed honest honest_rule honest_large changed_rule"), [],
              [T + "proof_of_storage/verifier.rs: batch_unseal_prepare, single_unseal_prepare, batch_unseal, batch_unseal_parallel, batch_unseal_and_verify, batch_verify", T + "proof_of_storage/prover.rs: seal"],
              {"quick": "every data content, initial value, hash function and permutation; 2..6 blocks of 1..4 units, whole files and tails of them, one or two sealing rounds, random and deterministic rules; one byte of the original at any position changed to any value; large cases (12..300 blocks, 300 units, 25 blocks of 6 units in two rounds) with the last 1..12 bytes arbitrary, the rest and the hash and permutation on known values fixed", "thorough": "the same"},
              SEAL + ["jobs of the thread pool run to completion one after the other, in every order (more than four jobs: any one first, the others forwards or backwards)"]),
    "C22": SX("storage", H("tree", "flow0 flow1 flow2 flow3 cover1_1 cover2_1 cover3_1 cover4_1 cover5_1 cover4_2 cover6_2 cover6_3 cover5_2 cover7_3 cover9_1 cover16_2 cover24_8 data open1 open2 open3 open4 open5 open7 open8 wrong1 wrong2 wrong3 wrong4 wrong5"), [],
              [T + "proof_of_storage/merkle_tree.rs", T + "proof_of_storage/postorage.rs: merkle_tree_proof"],
              {"quick": "every file content; 1..9 leaves of 1..8 bytes; every non-empty subset of up to 5 leaves and every single one of 7 or 8 opened; one opened leaf or the root changed in its first byte to any value; the last protocol step on 4 leaves with one byte changed",
               "thorough": "the same"},
              ["SHA-256 is an injective function of its input (collision-free); rs_merkle itself is executed"]),
    "C23": SX("storage", H("chal", "1 2 3 all file"), [],
              [T + "proof_of_storage/verifier.rs: create_challenges, create_random_file"],
              {"quick": "1..3 challenges from ranges of at most 5 starting below 4, every outcome of the draws with at most one more draw than challenges; every pair out of 4; files of 0, 1, 5 bytes over no or an arbitrary old file", "thorough": "the same"},
              ["a draw from the random generator is an arbitrary value of the range asked for"]),
    "C24": SX("storage", H("pub", "params saved over"), [],
              [T + "proof_of_storage/postorage.rs: prepare_params, save_data, load_data", T + "proof_of_storage/common.rs: gen_posdata"],
              {"quick": "padded units of 64, 128, 256 bytes; data sizes 1, 4, 16, 64; every initial value of 5 bytes saved with three moduli, over no file, an arbitrary old file, and an older saved one", "thorough": "the same"},
              ["a draw from the random generator is an arbitrary value of the range asked for; serde and bincode are executed as they are"]),
    "C25": SX("sealing", H("drv", "both rule later later_rule single single_random single_par changed changed_par all all_logged all_single all_par"), [],
              [T + "proof_of_storage/postorage.rs: seal_and_unseal, test_unseal_single_and_verify, merkle_tree_proof, test_postorage, prepare_params, save_data, load_data", T + "proof_of_storage/prover.rs", T + "proof_of_storage/verifier.rs", T + "proof_of_storage/merkle_tree.rs"],
              {"quick": "every data content, drawn value, hash function and permutation; 2..11 blocks of 1..2 units, one or two sealing rounds, random and deterministic rules; no older files, or arbitrary ones under the names of the sealed, unsealed and public data; logging on and off; one byte of the first ten blocks of the original at any position changed to any value; 1..3 workers, any job first", "thorough": "the same"},
              SEAL + ["jobs of the thread pool run to completion one after the other (more than four jobs: any one first, the others forwards or backwards)", "the moduli are 2^16 (which one is chosen: C24)"]),
}
