//! Harnesses over the repository's plot, challenge and verification code.
//! Each `h_*` function is run by the symbolic executor with arbitrary
//! `ndlib` values, and natively with the values of a counterexample.
#![allow(static_mut_refs)]
use crate::mimc::mimc_df::{mimc5_df, MIMC5_DF_ROUNDS};
use crate::mimc::mimc_hash::{multi_mimc5_hash, MIMC5_HASH_ROUNDS};
use crate::proof_of_space::convert::*;
use crate::proof_of_space::pospace::{CHALLENGE_COUNT, N, RESPONSE_COUNT};
use crate::proof_of_space::prover::*;
use crate::proof_of_space::verifier::*;
use ark_bls12_381::Fr;
use ndlib as nd;
use vstd::fs;

macro_rules! harnesses {
    ($($name:ident => $e:expr;)*) => {
        $( #[cfg_attr(symex, no_mangle)] pub fn $name() { $e; } )*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
harnesses! {
    h_c04_bytes => { for n in 0..=5 { conv_bytes(n) } };
    h_c04_bytes_big => { for n in [8, 16, 31] { conv_bytes(n) } };
    h_c04_bits => { for n in 0..=40 { conv_bits(n) } };
    h_c04_bits_big => { for n in [63, 64, 65, 127, 256] { conv_bits(n) } };
    h_c04_usize => { for n in 1..=63 { conv_usize(n) } };
    h_c03_n0 => prepare(0);
    h_c03_n1 => prepare(1);
    h_c03_n2 => prepare(2);
    h_c03_n3 => prepare(3);
    h_c03_n4 => prepare(4);
    h_c03_n5 => prepare(5);
    h_c03_n8 => prepare(8);
    h_c03_n10 => prepare(10);
    h_c03_n13 => prepare(13);
    h_c03_n16 => prepare(16);
    h_c03_builtin => prepare(N);
    h_c01_n1 => marked(1, 0, 3);
    h_c01_n2 => marked(2, 0, 3);
    h_c01_n3 => marked(3, 0, 2);
    h_c01_n4 => marked(4, 0, 1);
    h_c01_n5 => sparse(5, &[31, 30, 29], 2, 0);
    h_c01_n5_mid => sparse(5, &[9, 20], 1, 0);
    h_c01_n6 => sparse(6, &[63, 62], 1, 1);
    h_c01_n7 => sparse(7, &[127, 126], 2, 0);
    h_c01_n8 => sparse(8, &[255, 254], 1, 1);
    h_c01_n9 => sparse(9, &[511, 510], 1, 1);
    h_c01_n10 => sparse(10, &[1023], 1, 1);
    h_c01_n10_mid => sparse(10, &[512, 301], 1, 1);
    h_c01_n11 => sparse(11, &[2047], 1, 1);
    h_c01_n12 => sparse(12, &[4095], 1, 1);
    h_c01_n13 => sparse(13, &[8191], 1, 1);
    h_c01_n14 => sparse(14, &[16383], 1, 1);
    h_c01_n15 => sparse(15, &[32767], 1, 1);
    h_c01_n17 => sparse(17, &[(1 << 17) - 1], 1, 1);
    h_c01_n16 => sparse(16, &[65535], 1, 1);
    h_c01_n18 => sparse(18, &[(1 << 18) - 1], 1, 1);
    h_c01_builtin => sparse(N, &[(1 << N) - 1], 1, 1);
    h_c02_one => respond(1);
    h_c02_two => respond(2);
    h_c02_three => respond(3);
    h_c02_cap => respond_cap(&[]);
    h_c02_cap_first => respond_cap(&[0, 1]);
    h_c02_cap_second => respond_cap(&[1]);
    h_c02_cap_late => respond_cap(&[2, 30, RESPONSE_COUNT + 1]);
    h_c02_cap_last => respond_cap(&[RESPONSE_COUNT - 1]);
    h_c02_cap_many => respond_cap(&[0, 2, 4, 6, 8, 10, 20, 21, 22, 40, 41, 49, 50, 51, 52]);
    h_c02_ns => { let n = 1 + nd::split(nd::below(N) as u64) as usize; respond_n(n, &[8]) };
    h_c02_res => respond_n(N, &[0, 5, 7]);
    h_c02_res5 => respond_n(N, &[3, 3, 6, 1]);
    h_c05_range => challenges_range();
    h_c05_all_small => challenges_all(2, 3);
    h_c05_all_five => challenges_all(1, 5);
    h_c05_pairs => challenges_pairs(2, N);
    h_c05_builtin => { let c = create_challenges(CHALLENGE_COUNT, N);
        nd::check(c.len() == CHALLENGE_COUNT, "as many challenges as asked for");
        for x in &c { nd::check(*x < 1 << N, "challenges are below 2^N"); } };
    h_c14_only => verify_only();
    h_c14_only_full => verify_only_full();
    h_c14_accepts => verify_accepts();
}

// ------------------------------------------------------------ conversions
//@ c04
fn conv_bytes(len: usize) {
    let mut v: Vec<u8> = Vec::with_capacity(len);
    for _ in 0..len { v.push(nd::u8()); }
    let bits = bytes_to_bits(&v);
    nd::check(bits.len() == 8 * len, "bytes_to_bits: eight bits per byte");
    for i in 0..8 * len {
        nd::check(bits[i] == ((v[i / 8] >> (i % 8)) & 1 == 1), "bytes_to_bits: least significant bit first");
    }
    let back = bits_to_bytes(&bits);
    nd::check(back.len() == len, "bits_to_bytes(bytes_to_bits(v)): length of v");
    for i in 0..len { nd::check(back[i] == v[i], "bits_to_bytes(bytes_to_bits(v)) = v"); }
}
fn conv_bits(len: usize) {
    let mut v: Vec<bool> = Vec::with_capacity(len);
    for _ in 0..len { v.push(nd::bool()); }
    let b = bits_to_bytes(&v);
    nd::check(b.len() == (len + 7) / 8, "bits_to_bytes: length");
    for i in 0..8 * b.len() {
        let want = i < len && v[i];
        nd::check(((b[i / 8] >> (i % 8)) & 1 == 1) == want, "bits_to_bytes: least significant bit first, padded with 0");
    }
    if len <= 63 {
        let x = bits_to_usize(&v);
        for i in 0..64 {
            let want = i < len && v[i];
            nd::check(((x >> i) & 1 == 1) == want, "bits_to_usize: least significant bit first");
        }
    }
}
fn conv_usize(n: usize) {
    let x = nd::usize();
    let b = usize_to_bits(x, n);
    nd::check(b.len() == n, "usize_to_bits: length");
    for i in 0..n { nd::check(b[i] == ((x >> i) & 1 == 1), "usize_to_bits: least significant bit first"); }
    let y = bits_to_usize(&b);
    nd::check(y == x & ((1usize << n) - 1), "bits_to_usize(usize_to_bits(x, n)) = x mod 2^n");
}

// ------------------------------------------------------------ prepare_space
//@ c01 c02 c03
fn plot_size(n: usize) -> usize { ((n + 1) * (1 << n) + 7) / 8 }
//@ c03
fn prepare(n: usize) {
    let size = plot_size(n);
    let exists = nd::bool();
    let id = if exists {
        let len = if n <= 4 { nd::split(nd::below(size + 3) as u64) as usize } else { size + 2 };
        fs::arbitrary("plot", len)
    } else {
        fs::find(b"plot")
    };
    let r = prepare_space("plot", n);
    nd::check(r.is_ok(), "prepare_space succeeds");
    nd::check(fs::ino(id).exists, "prepare_space creates the plot file");
    nd::check(fs::ino(id).len == size, "the plot holds 2^n cells of n+1 bits");
    let i = nd::below(size);
    nd::check(fs::byte(id, i) == 0, "prepare_space: every byte is zero");
}

// ------------------------------------------- prepare, mark, answer challenges
//@ c01 c02
fn consts(n: usize, salt: u64) -> Vec<Fr> {
    (0..n).map(|i| Fr(salt + 17 * i as u64)).collect()
}
//@ c01
/// the delay function's values at x >= free_from are arbitrary
fn plot(n: usize, free_from: usize) -> (Fr, Fr, Vec<Fr>, Vec<usize>) {
    let key = Fr(1_000_003);
    let m = Fr(77_777_777);
    let dfc = consts(MIMC5_DF_ROUNDS, 900_001);
    let count = 1usize << n;
    let mut ys = Vec::with_capacity(count);
    for x in 0..count {
        let d = mimc5_df(Fr(x as u64) + key, m, &dfc);
        // the bits above n are fixed and must not matter
        let y = if x >= free_from { nd::bits(n) as usize } else { (x.wrapping_mul(2654435761) >> 7) & (count - 1) };
        kfield::set_int(d, (y | (d.0 as usize) << n) as u64);
        ys.push(y);
    }
    (key, m, dfc, ys)
}
fn marked(n: usize, free_from: usize, nchal: usize) {
    let (key, m, dfc, ys) = plot(n, free_from);
    fs::arbitrary("plot", plot_size(n) + 2);
    prepare_space("plot", n).unwrap();
    mark_space("plot", key, m, &dfc, n);
    let hc = consts(MIMC5_HASH_ROUNDS, 500_009);
    let mut ch = Vec::with_capacity(nchal);
    for _ in 0..nchal { ch.push(nd::bits(n) as usize); }
    let (xs, idx, h) = response_1("plot", &ch, key, &hc, n);
    nd::check(xs.len() == idx.len(), "one index per response");
    let mut k = 0;
    for i in 0..nchal {
        let mut has = false;
        for x in 0..ys.len() { has |= ys[x] == ch[i]; }
        let answered = k < idx.len() && idx[k] == i;
        nd::check(answered == has, "a challenge is answered exactly when it has a preimage");
        if answered {
            let x = xs[k].0 as usize;
            nd::check(x < ys.len(), "the answer is in range");
            let mut good = false;
            for z in 0..ys.len() { good |= z == x && ys[z] == ch[i]; }
            nd::check(good, "the answer is a preimage of the challenge");
            k += 1;
        }
    }
    nd::check(k == idx.len(), "no surplus answers");
    nd::check(h == multi_mimc5_hash(&xs, key, &hc), "x_hash is the hash of the answers");
}

/// the same on larger plots: the delay function's values at the x in `free`
/// are arbitrary, the other x share eight cells
fn sparse(n: usize, free: &[usize], nchal: usize, split: usize) {
    let key = Fr(1_000_003);
    let m = Fr(77_777_777);
    let dfc = consts(MIMC5_DF_ROUNDS, 900_001);
    let count = 1usize << n;
    let top = count - 1;
    let cells = [0, 1, top, top - 1, count / 2, count / 2 - 1, 0x5a5a5 & top, 0x36c93 & top];
    let fy: Vec<usize> = free.iter().map(|_| nd::bits(n) as usize).collect();
    let y_of = |x: usize| {
        let mut y = cells[x & 7];
        for i in 0..free.len() { if x == free[i] { y = fy[i] } }
        y
    };
    for x in 0..count {
        let d = mimc5_df(Fr(x as u64) + key, m, &dfc);
        // the bits above n are fixed and must not matter
        let v = (y_of(x) | (d.0 as usize) << n) as u64;
        if split > 0 && free.contains(&x) { kfield::set_free(d, v) } else { kfield::set_int(d, v) }
    }
    prepare_space("plot", n).unwrap();
    mark_space("plot", key, m, &dfc, n);
    let hc = consts(MIMC5_HASH_ROUNDS, 500_009);
    let mut ch = Vec::with_capacity(nchal);
    for _ in 0..nchal {
        let c = nd::bits(n);
        ch.push(if split > 0 { (c & !7 | nd::split(c & 7)) as usize } else { c as usize });
    }
    let (xs, idx, h) = response_1("plot", &ch, key, &hc, n);
    nd::check(xs.len() == idx.len(), "one index per response");
    let mut k = 0;
    for i in 0..nchal {
        let mut has = false;
        for c in cells { has |= c == ch[i]; }
        for y in &fy { has |= *y == ch[i]; }
        let answered = k < idx.len() && idx[k] == i;
        nd::check(answered == has, "a challenge is answered exactly when it has a preimage");
        if answered {
            let x = xs[k].0 as usize;
            nd::check(x < count && y_of(x) == ch[i], "the answer is a preimage of the challenge");
            k += 1;
        }
    }
    nd::check(k == idx.len(), "no surplus answers");
    nd::check(h == multi_mimc5_hash(&xs, key, &hc), "x_hash is the hash of the answers");
}

// ------------------------------------------------ responses on arbitrary plots
//@ c02
fn cell(id: usize, n: usize, y: usize) -> (bool, usize) {
    let mut x = 0usize;
    let mut flag = false;
    for j in 0..=n {
        let at = (n + 1) * y + j;
        let b = (fs::byte(id, at / 8) >> (at % 8)) & 1;
        if j < n { x |= (b as usize) << j } else { flag = b == 1 }
    }
    (flag, x)
}
/// residues: the challenge modulo eight, 8 = any
fn respond_n(n: usize, residues: &[usize]) {
    let nchal = residues.len();
    let id = fs::arbitrary("plot", plot_size(n));
    let key = Fr(1_000_003);
    let hc = consts(MIMC5_HASH_ROUNDS, 500_009);
    let mut ch = Vec::with_capacity(nchal);
    for i in 0..nchal {
        if n < 3 {
            ch.push(nd::split(nd::bits(n)) as usize);
            continue;
        }
        let lo = if residues[i] < 8 { residues[i] } else { nd::split(nd::bits(3)) as usize };
        ch.push((nd::bits(n - 3) as usize) << 3 | lo);
    }
    let (xs, idx, h) = response_1("plot", &ch, key, &hc, n);
    nd::check(xs.len() == idx.len(), "one index per response");
    let mut k = 0;
    for i in 0..nchal {
        let (f, x) = cell(id, n, ch[i]);
        let answered = k < idx.len() && idx[k] == i;
        nd::check(answered == f, "a challenge is answered exactly when its cell is marked, in order");
        if answered {
            nd::check(xs[k] == Fr(x as u64), "the response is the value stored in the challenged cell");
            k += 1;
        }
    }
    nd::check(k == idx.len(), "no surplus answers");
    nd::check(h == multi_mimc5_hash(&xs, key, &hc), "x_hash is the hash of the answers");
    nd::check(fs::writes() == 0, "answering leaves the plot alone");
}
fn respond(nchal: usize) { respond_n(N, &[8, 8, 8][..nchal]) }
/// more answerable challenges than RESPONSE_COUNT, some positions unmarked
fn respond_cap(unmarked: &[usize]) {
    let n = N;
    let id = fs::arbitrary("plot", plot_size(n));
    let key = Fr(1_000_003);
    let hc = consts(MIMC5_HASH_ROUNDS, 500_009);
    let nchal = RESPONSE_COUNT + 3 + unmarked.len();
    let ch: Vec<usize> = (0..nchal).map(|i| (i * 40503 + 11) & ((1 << n) - 1)).collect();
    for i in 0..nchal { nd::assume(cell(id, n, ch[i]).0 != unmarked.contains(&i)); }
    let (xs, idx, h) = response_1("plot", &ch, key, &hc, n);
    nd::check(idx.len() == RESPONSE_COUNT && xs.len() == RESPONSE_COUNT, "exactly RESPONSE_COUNT answers");
    let mut i = 0;
    for k in 0..RESPONSE_COUNT {
        while unmarked.contains(&i) { i += 1; }
        let x = Fr(cell(id, n, ch[i]).1 as u64);
        nd::check(idx[k] == i, "the first RESPONSE_COUNT answerable challenges are answered");
        nd::check(xs[k] == x, "the response is the value stored in the challenged cell");
        i += 1;
    }
    nd::check(h == multi_mimc5_hash(&xs, key, &hc), "x_hash is the hash of the answers");
}

// ---------------------------------------------------------------- challenges
//@ c05
fn challenges_range() {
    for (n, end) in [(0, 5), (1, 1), (3, 20), (5, 8)] {
        let c = create_challenges(n, end);
        nd::check(c.len() == n, "as many challenges as asked for");
        for x in &c { nd::check(*x < 1 << end, "challenges are below 2^N"); }
    }
}
/// every combination of small challenges can be drawn
fn challenges_all(n: usize, end: usize) {
    let c = create_challenges(n, end);
    let mut all = 0usize;
    for i in 0..n { all |= c[i] << (end * i); }
    for t in 0..1usize << (n * end) {
        let mut m = *b"challenges with value 00000 are drawn";
        put(&mut m[22..27], t);
        nd::possible(all == t, std::str::from_utf8(&m).unwrap_or(""));
    }
}
fn put(d: &mut [u8], mut t: usize) {
    for i in (0..d.len()).rev() {
        d[i] = b'0' + (t % 10) as u8;
        t /= 10;
    }
}
/// any two bits of the challenges can take any values
fn challenges_pairs(n: usize, end: usize) {
    let c = create_challenges(n, end);
    for i in 0..n * end {
        for j in i + 1..n * end {
            let (p, q) = ((c[i / end] >> (i % end)) & 1, (c[j / end] >> (j % end)) & 1);
            for t in 0..4 {
                let mut m = *b"challenge bits 000 and 000 as 0";
                put(&mut m[15..18], i);
                put(&mut m[23..26], j);
                put(&mut m[30..31], t);
                nd::possible(p == t & 1 && q == t >> 1, std::str::from_utf8(&m).unwrap_or(""));
            }
        }
    }
}

// -------------------------------------------------------------- verification
//@ c14
use ark_groth16 as g;
fn key_proof() -> (g::PreparedVerifyingKey<ark_bls12_381::Bls12_381>, g::Proof<ark_bls12_381::Bls12_381>) {
    (g::PreparedVerifyingKey { vk: g::VerifyingKey(41, Default::default()) }, g::Proof(42, Default::default()))
}
fn asked(key: Fr, m: Fr, ch: &Vec<usize>, idx: &Vec<usize>, h: Fr) {
    unsafe {
        nd::check(g::CALLS >= 1, "acceptance without a proof check");
        nd::check(g::VERDICT == 0, "a proof is accepted only if the proof check says true");
        nd::check(g::VK == 41 && g::PROOF == 42, "the given key and proof are checked");
        nd::check(g::NINPUTS == idx.len() + 3, "public inputs: key, m, one value per response, hash");
        nd::check(g::INPUTS[0] == key.0 && g::INPUTS[1] == m.0, "key and m come first");
        for i in 0..idx.len() {
            nd::check(idx[i] < ch.len(), "every index names a challenge");
            nd::check(g::INPUTS[2 + i] == ch[idx[i]] as u64, "the value of the challenge an index names");
            for j in 0..i { nd::check(idx[i] != idx[j], "a challenge counts once"); }
        }
        nd::check(g::INPUTS[2 + idx.len()] == h.0, "the hash comes last");
    }
}
/// whatever verify accepts was checked as stated
fn verify_only() {
    let (pvk, proof) = key_proof();
    let (key, m, h) = (Fr(nd::u64()), Fr(nd::u64()), Fr(nd::u64()));
    let ch: Vec<usize> = (0..4).map(|_| nd::usize()).collect();
    let k = nd::split(nd::below(5) as u64) as usize;
    let idx: Vec<usize> = (0..k).map(|_| nd::below(6)).collect();
    unsafe { g::VERDICT = nd::split(nd::below(3) as u64) as u8; }
    nd::panic_ok(true);
    verify(pvk, proof, key, m, &ch, &idx, h);
    asked(key, m, &ch, &idx, h);
}
/// the same with as many responses as the protocol asks for
fn verify_only_full() {
    let (pvk, proof) = key_proof();
    let (key, m, h) = (Fr(nd::u64()), Fr(nd::u64()), Fr(nd::u64()));
    let ch: Vec<usize> = (0..CHALLENGE_COUNT).map(|_| nd::bits(N) as usize).collect();
    let p = nd::split(nd::below(3) as u64) as usize * (RESPONSE_COUNT / 2 - 1);
    let idx: Vec<usize> = (0..RESPONSE_COUNT).map(|i| if i == p { nd::below(CHALLENGE_COUNT + 2) } else { CHALLENGE_COUNT * i / RESPONSE_COUNT }).collect();
    unsafe { g::VERDICT = nd::split(nd::below(3) as u64) as u8; }
    nd::panic_ok(true);
    verify(pvk, proof, key, m, &ch, &idx, h);
    asked(key, m, &ch, &idx, h);
}
/// an honest full response with a valid proof is accepted
fn verify_accepts() {
    let (pvk, proof) = key_proof();
    let (key, m, h) = (Fr(nd::u64()), Fr(nd::u64()), Fr(nd::u64()));
    let ch: Vec<usize> = (0..CHALLENGE_COUNT).map(|_| nd::bits(N) as usize).collect();
    let w = CHALLENGE_COUNT / RESPONSE_COUNT;
    let idx: Vec<usize> = (0..RESPONSE_COUNT).map(|i| w * i + if w > 1 { nd::bits(1) as usize } else { 0 }).collect();
    unsafe { g::VERDICT = 0; }
    verify(pvk, proof, key, m, &ch, &idx, h);
    asked(key, m, &ch, &idx, h);
}
