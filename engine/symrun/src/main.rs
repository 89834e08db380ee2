//! Executes the repository's own functions and circuits on the symbolic field
//! and prints what they did (expression DAG, constraint matrices, witness
//! expressions, path conditions) as JSON for the SMT encoder.
use ark_ff::{BigInteger, BigInteger256};
use ark_groth16::{script_verdict, synth, Synth, LOG};
use proof_of_space::circuit::*;
use proof_of_space::mimc::{mimc_df::*, mimc_hash::*};
use proof_of_space::proof_of_space::pospace::{N, RESPONSE_COUNT};
use std::panic::{catch_unwind, AssertUnwindSafe};
use symfield::*;

fn syms(p: &str, n: usize) -> Vec<SymF> {
    (0..n).map(|i| sym(&format!("{}{}", p, i))).collect()
}
fn row(r: &[(u32, usize)]) -> String {
    let v: Vec<String> = r.iter().map(|(c, i)| format!("[{},{}]", c, i)).collect();
    format!("[{}]", v.join(","))
}
fn rows(r: &[Vec<(u32, usize)>]) -> String {
    let v: Vec<String> = r.iter().map(|x| row(x)).collect();
    format!("[{}]", v.join(","))
}
fn synth_json(s: &Synth) -> String {
    format!(
        "{{\"ninst\":{},\"nwit\":{},\"a\":{},\"b\":{},\"c\":{},\"inst\":{:?},\"wit\":{:?}}}",
        s.mats.ninst,
        s.mats.nwit,
        rows(&s.mats.a),
        rows(&s.mats.b),
        rows(&s.mats.c),
        s.inst,
        s.wit
    )
}
/// Explore every outcome of every field comparison the code makes.
/// Breadth first: few deviations from the generic outcome come first.
fn explore<F: Fn() -> String>(seed: u64, f: F) -> String {
    let mut todo: std::collections::VecDeque<Vec<bool>> = [vec![]].into();
    let max: usize = std::env::var("SYM_PATHS").ok().and_then(|s| s.parse().ok()).unwrap_or(64);
    let mut out: Vec<String> = vec![];
    let mut limit = false;
    while let Some(p) = todo.pop_front() {
        if out.len() >= max {
            limit = true;
            break;
        }
        let n = p.len();
        reset(seed, p);
        let r = catch_unwind(AssertUnwindSafe(|| f()));
        let ds = decisions();
        let (ok, body) = match r {
            Ok(s) => (true, s),
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                (false, format!("{:?}", m))
            }
        };
        for k in n..ds.len() {
            let mut q: Vec<bool> = ds[..k].iter().map(|d| d.eq).collect();
            q.push(!ds[k].eq);
            todo.push_back(q);
        }
        let dj: Vec<String> =
            ds.iter().map(|d| format!("[{},{},{}]", d.a, d.b, d.eq)).collect();
        let cj: Vec<String> =
            escapes().iter().map(|(n, v)| format!("[{},\"{}\"]", n, dec(v))).collect();
        out.push(format!(
            "{{\"ok\":{},\"decisions\":[{}],\"escapes\":[{}],\"body\":{}}}",
            ok,
            dj.join(","),
            cj.join(","),
            body
        ));
    }
    format!("{{\"limit\":{},\"paths\":[{}]}}", limit, out.join(","))
}
fn some(v: &[SymF]) -> Vec<Option<SymF>> {
    v.iter().map(|x| Some(*x)).collect()
}
fn both<C, D>(setup: C, prove: D) -> String
where
    C: ark_relations::r1cs::ConstraintSynthesizer<SymF>,
    D: ark_relations::r1cs::ConstraintSynthesizer<SymF>,
{
    let s = synth(setup, true).expect("setup synthesis");
    let p = synth(prove, false).expect("prove synthesis");
    format!("{{\"setup\":{},\"prove\":{}}}", synth_json(&s), synth_json(&p))
}
fn parse_hex(s: &str) -> RealFr {
    let s = s.trim_start_matches("0x");
    let s = format!("{:0>64}", s);
    let mut l = [0u64; 4];
    for i in 0..4 {
        l[3 - i] = u64::from_str_radix(&s[16 * i..16 * i + 16], 16).unwrap();
    }
    RealFr::from(BigInteger256::new(l))
}
fn pattern_bits(v: &str, n: usize) -> Vec<Option<u8>> {
    let b: BigInteger256 = parse_hex(v).into();
    let bits = b.to_bits_le();
    (0..n).map(|i| Some(if i < bits.len() && bits[i] { 1 } else { 0 })).collect()
}
fn low_bits(v: RealFr, n: usize) -> RealFr {
    let b: BigInteger256 = v.into();
    let bits = b.to_bits_le();
    RealFr::from(BigInteger256::from_bits_le(&bits[..n]))
}

/// One scenario = one line of arguments.
fn scenario(a: &[&str], seed: u64) -> String {
    let num = |i: usize| a[i].parse::<usize>().unwrap();
    match a[0] {
        "info" => format!(
            "{{\"modulus\":\"{}\",\"N\":{},\"RESPONSE_COUNT\":{},\"MIMC3_DF_ROUNDS\":{},\"MIMC5_DF_ROUNDS\":{},\"MIMC5_HASH_ROUNDS\":{},\"MIMC7_HASH_ROUNDS\":{},\"POW_SIZE\":{},\"EQUAL_SIZE\":{}}}",
            modulus_hex(), N, RESPONSE_COUNT, MIMC3_DF_ROUNDS, MIMC5_DF_ROUNDS, MIMC5_HASH_ROUNDS, MIMC7_HASH_ROUNDS,
            pow_circuit::INPUT_SIZE, equal_circuit::INPUT_SIZE
        ),
        "mimc3_df" => explore(seed, || mimc3_df(sym("xl"), sym("xr"), &syms("c", MIMC3_DF_ROUNDS)).0.to_string()),
        "mimc5_df" => explore(seed, || mimc5_df(sym("xl"), sym("xr"), &syms("c", MIMC5_DF_ROUNDS)).0.to_string()),
        "mimc5_hash" => explore(seed, || mimc5_hash(sym("x0"), sym("key"), &syms("h", MIMC5_HASH_ROUNDS)).0.to_string()),
        "mimc7_hash" => explore(seed, || mimc7_hash(sym("x0"), sym("key"), &syms("h", MIMC7_HASH_ROUNDS)).0.to_string()),
        "multi_mimc5_hash" => explore(seed, || multi_mimc5_hash(&syms("x", num(1)), sym("key"), &syms("h", MIMC5_HASH_ROUNDS)).0.to_string()),
        "multi_mimc7_hash" => explore(seed, || multi_mimc7_hash(&syms("x", num(1)), sym("key"), &syms("h", MIMC7_HASH_ROUNDS)).0.to_string()),
        // mimc?_df with a wrong number of constants: must refuse
        "mimc5_df_len" => explore(seed, || mimc5_df(sym("xl"), sym("xr"), &syms("c", num(1))).0.to_string()),
        "mimc3_df_len" => explore(seed, || mimc3_df(sym("xl"), sym("xr"), &syms("c", num(1))).0.to_string()),
        "df3" => explore(seed, || {
            let c = syms("c", MIMC3_DF_ROUNDS);
            both(
                mimc3_df_circuit::MiMC3DFDemo::verif_new(None, None, &c),
                mimc3_df_circuit::MiMC3DFDemo::verif_new(Some(sym("xl")), Some(sym("xr")), &c),
            )
        }),
        "df5" => explore(seed, || {
            let c = syms("c", MIMC5_DF_ROUNDS);
            both(
                mimc5_df_circuit::MiMC5DFDemo::verif_new(None, None, &c),
                mimc5_df_circuit::MiMC5DFDemo::verif_new(Some(sym("xl")), Some(sym("xr")), &c),
            )
        }),
        "h5" => explore(seed, || {
            let h = syms("h", MIMC5_HASH_ROUNDS);
            let x = some(&syms("x", num(1)));
            let none = vec![None; num(1)];
            both(
                mimc5_hash_circuit::MiMC5HashDemo::verif_new(&none, None, &h),
                mimc5_hash_circuit::MiMC5HashDemo::verif_new(&x, Some(sym("key")), &h),
            )
        }),
        "h7" => explore(seed, || {
            let h = syms("h", MIMC7_HASH_ROUNDS);
            let x = some(&syms("x", num(1)));
            let none = vec![None; num(1)];
            both(
                mimc7_hash_circuit::MiMC7HashDemo::verif_new(&none, None, &h),
                mimc7_hash_circuit::MiMC7HashDemo::verif_new(&x, Some(sym("key")), &h),
            )
        }),
        // pow <exponent, hex>
        "pow" => explore(seed, || {
            let none = vec![None; pow_circuit::INPUT_SIZE];
            let bits = pattern_bits(a[1], pow_circuit::INPUT_SIZE);
            both(
                pow_circuit::PowDemo::<SymF> { g: None, x_bits: &none },
                pow_circuit::PowDemo { g: Some(sym("g")), x_bits: &bits },
            )
        }),
        // equal <difficulty> <x2, hex>
        "equal" => explore(seed, || {
            let none = vec![None; equal_circuit::INPUT_SIZE];
            let bits = pattern_bits(a[2], equal_circuit::INPUT_SIZE);
            let x2 = parse_hex(a[2]);
            let x1 = low_bits(x2, num(1));
            both(
                equal_circuit::EqualDemo::<SymF> { x1: None, x2: None, x_bits: &none, difficulty: num(1) },
                equal_circuit::EqualDemo { x1: Some(constant(x1)), x2: Some(constant(x2)), x_bits: &bits, difficulty: num(1) },
            )
        }),
        // pospace <L> <y0 hex> <y1 hex> ...: DF outputs assumed to be these
        "pospace" => explore(seed, || {
            let l = num(1);
            let ys: Vec<RealFr> = (0..l).map(|i| parse_hex(a[2 + i])).collect();
            set_escape_script(ys.clone());
            let c = syms("c", MIMC5_DF_ROUNDS);
            let h = syms("h", MIMC5_HASH_ROUNDS);
            let xs = syms("x", l);
            let x = some(&xs);
            let yn: Vec<Option<SymF>> = ys.iter().map(|y| Some(constant(low_bits(*y, N)))).collect();
            let none = vec![None; l];
            let x_hash = multi_mimc5_hash(&xs, sym("key"), &h);
            both(
                pospace_circuit::PospaceDemo { key: None, x: &none, m: None, df_constants: &c, yn: &none, x_hash: None, hash_constants: &h },
                pospace_circuit::PospaceDemo { key: Some(sym("key")), x: &x, m: Some(sym("m")), df_constants: &c, yn: &yn, x_hash: Some(x_hash), hash_constants: &h },
            )
        }),
        // wire <verdict 0|1|2> <stride> <L>: the whole second round on symbolic values
        "wire" => explore(seed, || {
            use proof_of_space::proof_of_space::{prover::*, verifier::*};
            let (stride, l) = (num(2), num(3));
            let ys: Vec<RealFr> = (0..l).map(|i| mix(seed, i as u64)).collect();
            set_escape_script(ys.clone());
            script_verdict(num(1) as u8);
            let c = syms("c", MIMC5_DF_ROUNDS);
            let h = syms("h", MIMC5_HASH_ROUNDS);
            let xs = syms("x", l);
            let idx: Vec<usize> = (0..l).map(|i| i * stride + (stride - 1)).collect();
            let mut ch: Vec<usize> = (0..l * stride).map(|i| 700_000 + i).collect();
            for i in 0..l {
                let b: BigInteger256 = low_bits(ys[i], N).into();
                ch[idx[i]] = b.0[0] as usize;
            }
            let params = construct_circuit(&c, &h);
            let (pvk, proof) = response_2(params, sym("key"), &xs, sym("m"), &c, &ch, &idx, sym("xh"), &h);
            let accepted = catch_unwind(AssertUnwindSafe(|| verify(pvk, proof, sym("key"), sym("m"), &ch, &idx, sym("xh")))).is_ok();
            let log = LOG.with(|l| l.borrow().clone());
            let s: Vec<String> = log.setups.iter().map(synth_json).collect();
            let p: Vec<String> = log.proofs.iter().map(|(k, x)| format!("[{},{}]", k, synth_json(x))).collect();
            let v: Vec<String> = log.verifies.iter().map(|(a, b, i)| format!("[{},{},{:?}]", a, b, i)).collect();
            let yn: Vec<usize> = idx.iter().map(|i| ch[*i]).collect();
            format!("{{\"setups\":[{}],\"proofs\":[{}],\"verifies\":[{}],\"accepted\":{},\"yn\":{:?}}}", s.join(","), p.join(","), v.join(","), accepted, yn)
        }),
        x => panic!("unknown scenario {}", x),
    }
}
fn mix(seed: u64, i: u64) -> RealFr {
    use ark_ff::Field;
    RealFr::from(0x9E3779B97F4A7C15u64 ^ seed.wrapping_mul(77) ^ i).pow([17u64]) + RealFr::from(i)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = args[1].parse().unwrap();
    // each remaining argument is one scenario, words separated by ','
    println!("{{");
    reset(seed, vec![]);
    for s in &args[2..] {
        let words: Vec<&str> = s.split(',').collect();
        let body = scenario(&words, seed);
        println!("\"{}\":{},", s, body);
    }
    println!("\"nodes\":{}}}", dump_nodes());
}
