//! Queries to z3 over a pipe: one self-contained script per query.
use crate::expr::*;
use crate::ir::Bin;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

pub enum Ans {
    Sat(Model),
    Unsat,
    Unknown,
}
#[derive(Clone, Default)]
pub struct Model {
    pub vars: FxMap<u128, u128>,
    /// (symbol, argument, argument or 0) -> value; 0 elsewhere
    pub ufs: FxMap<(u128, u128, u128), u128>,
}
pub struct Solver {
    cmd: String,
    p: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub slowest: f64,
    pub cache_hits: u64,
    pub timeout_ms: u64,
    cache: FxMap<Vec<E>, bool>,
    models: Vec<Model>,
    deps: FxMap<E, Rc<Vec<u64>>>,
    pub dump: Option<String>,
}
impl Solver {
    pub fn new(cmd: &str, timeout_ms: u64) -> Self {
        Solver { cmd: cmd.into(), p: None, queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, slowest: 0.0, cache_hits: 0, timeout_ms, cache: Default::default(), models: vec![], deps: Default::default(), dump: None }
    }
    /// variables (even) and function symbols (odd) a term depends on
    pub fn deps(&mut self, p: &Pool, e: E) -> Rc<Vec<u64>> {
        if let Some(d) = self.deps.get(&e) {
            return d.clone();
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.deps.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = p.n[x as usize];
            let kids: Vec<E> = [n.a, n.b, n.c].into_iter().filter(|&k| k != NONE).collect();
            let todo: Vec<E> = kids.iter().copied().filter(|k| !self.deps.contains_key(k)).collect();
            if !todo.is_empty() {
                stack.extend(todo);
                continue;
            }
            stack.pop();
            let mut s: Vec<u64> = vec![];
            let mut single: Option<Rc<Vec<u64>>> = None;
            for k in &kids {
                let d = &self.deps[k];
                if d.is_empty() {
                    continue;
                }
                match &single {
                    None if s.is_empty() => {
                        single = Some(d.clone());
                    }
                    Some(o) if Rc::ptr_eq(o, d) => {}
                    Some(o) => {
                        s = merge(o, d);
                        single = None;
                    }
                    None => s = merge(&s, d),
                }
            }
            match n.op {
                K::Var => s.push(n.k as u64 * 2),
                K::Uf => {
                    if let Some(o) = single.take() {
                        s = o.to_vec();
                    }
                    s = merge(&s, &vec![n.k as u64 * 2 + 1]);
                }
                _ => {}
            }
            let r = single.unwrap_or_else(|| Rc::new(s));
            self.deps.insert(x, r);
        }
        self.deps[&e].clone()
    }
    fn slice(&mut self, p: &Pool, pc: &[E], goal: &[E]) -> Vec<E> {
        let mut set: FxSet<u64> = Default::default();
        for &g in goal {
            set.extend(self.deps(p, g).iter());
        }
        let ds: Vec<Rc<Vec<u64>>> = pc.iter().map(|&c| self.deps(p, c)).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !used[i] && ds[i].iter().any(|v| set.contains(v)) {
                    used[i] = true;
                    ch = true;
                    set.extend(ds[i].iter());
                }
            }
            if !ch {
                break;
            }
        }
        let mut r: Vec<E> = (0..pc.len()).filter(|&i| used[i]).map(|i| pc[i]).collect();
        r.extend(goal);
        r.sort();
        r.dedup();
        r
    }
    /// satisfiability of pc and goal, knowing that pc alone is satisfiable
    pub fn check(&mut self, p: &Pool, pc: &[E], goal: &[E]) -> Option<bool> {
        for &g in goal {
            if p.cv(g) == Some(0) {
                return Some(false);
            }
        }
        let q = self.slice(p, pc, goal);
        if let Some(&r) = self.cache.get(&q) {
            self.cache_hits += 1;
            return Some(r);
        }
        for k in (0..self.models.len()).rev() {
            let mut memo = Default::default();
            let m = &self.models[k];
            if q.iter().all(|&e| p.eval(e, m, &mut memo) == Some(1)) {
                self.cache_hits += 1;
                self.cache.insert(q, true);
                return Some(true);
            }
        }
        match self.query(p, &q) {
            Ans::Sat(m) => {
                self.cache.insert(q, true);
                if self.models.len() > 24 {
                    self.models.remove(0);
                }
                self.models.push(m);
                Some(true)
            }
            Ans::Unsat => {
                self.cache.insert(q, false);
                Some(false)
            }
            Ans::Unknown => None,
        }
    }
    pub fn script(&self, p: &Pool, q: &[E]) -> (String, Vec<E>, Vec<E>) {
        let mut out = String::new();
        let mut done: FxSet<E> = Default::default();
        let (mut vars, mut ufs) = (vec![], vec![]);
        let mut syms: FxSet<u128> = Default::default();
        let mut stack: Vec<E> = q.to_vec();
        let mut order = vec![];
        while let Some(&x) = stack.last() {
            if done.contains(&x) {
                stack.pop();
                continue;
            }
            let n = p.n[x as usize];
            let mut ready = true;
            for k in [n.a, n.b, n.c] {
                if k != NONE && !done.contains(&k) {
                    stack.push(k);
                    ready = false;
                }
            }
            if ready {
                stack.pop();
                done.insert(x);
                order.push(x);
            }
        }
        for x in order {
            let n = p.n[x as usize];
            match n.op {
                K::Const => continue,
                K::Var => {
                    out += &format!("(declare-const e{} {})\n", x, sort(n.w));
                    vars.push(x);
                    continue;
                }
                K::Uf => {
                    if syms.insert(n.k) {
                        let args = if n.b == NONE { sort(p.w(n.a)) } else { format!("{} {}", sort(p.w(n.a)), sort(p.w(n.b))) };
                        out += &format!("(declare-fun f{} ({}) {})\n", n.k, args, sort(n.w));
                    }
                    ufs.push(x);
                }
                _ => {}
            }
            out += &format!("(define-fun e{} () {} {})\n", x, sort(n.w), term(p, x));
        }
        for &e in q {
            out += &format!("(assert {})\n", rf(p, e));
        }
        (out, vars, ufs)
    }
    pub fn query(&mut self, p: &Pool, q: &[E]) -> Ans {
        self.queries += 1;
        let t0 = Instant::now();
        let (s, vars, ufs) = self.script(p, q);
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{}/q{}.smt2", d, self.queries), format!("{}(check-sat)\n", s));
        }
        let r = self.send(&s, p, &vars, &ufs);
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.slowest {
            self.slowest = dt;
        }
        match r {
            Some(Ans::Sat(m)) => {
                self.sat += 1;
                Ans::Sat(m)
            }
            Some(Ans::Unsat) => {
                self.unsat += 1;
                Ans::Unsat
            }
            _ => {
                self.unknown += 1;
                Ans::Unknown
            }
        }
    }
    fn send(&mut self, s: &str, p: &Pool, vars: &[E], ufs: &[E]) -> Option<Ans> {
        if self.p.is_none() {
            let mut c = Command::new(&self.cmd).arg("-in").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
            let i = c.stdin.take()?;
            let o = BufReader::new(c.stdout.take()?);
            self.p = Some((c, i, o));
        }
        let tmo = self.timeout_ms;
        let (_, i, o) = self.p.as_mut().unwrap();
        let r = (|| -> Option<Ans> {
            i.write_all(format!("(reset)\n(set-option :timeout {})\n{}", tmo, if ufs.is_empty() { "(set-logic QF_BV)\n" } else { "" }).as_bytes()).ok()?;
            i.write_all(s.as_bytes()).ok()?;
            i.write_all(b"(check-sat)\n").ok()?;
            i.flush().ok()?;
            let mut l = String::new();
            o.read_line(&mut l).ok()?;
            match l.trim() {
                "unsat" => Some(Ans::Unsat),
                "sat" => {
                    let mut m = Model::default();
                    let mut get = |i: &mut ChildStdin, o: &mut BufReader<ChildStdout>, e: E| -> Option<u128> {
                        if let Some(k) = p.cv(e) {
                            return Some(k);
                        }
                        i.write_all(format!("(get-value (e{}))\n", e).as_bytes()).ok()?;
                        i.flush().ok()?;
                        let mut l = String::new();
                        o.read_line(&mut l).ok()?;
                        let v = l.trim().trim_end_matches(')').rsplit(' ').next()?.to_string();
                        pv(&v)
                    };
                    for &v in vars {
                        let x = get(i, o, v)?;
                        m.vars.insert(p.n[v as usize].k, x);
                    }
                    for &u in ufs {
                        let n = p.n[u as usize];
                        let a = get(i, o, n.a)?;
                        let x = get(i, o, u)?;
                        let b = if n.b == NONE { 0 } else { get(i, o, n.b)? };
                        m.ufs.insert((n.k, a, b), x);
                    }
                    Some(Ans::Sat(m))
                }
                "unknown" | "timeout" => Some(Ans::Unknown),
                other => {
                    eprintln!("solver said: {}", other);
                    None
                }
            }
        })();
        if r.is_none() {
            if let Some((mut c, _, _)) = self.p.take() {
                let _ = c.kill();
                let _ = c.wait();
            }
        }
        r
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        if let Some((mut c, _, _)) = self.p.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}
fn merge(a: &[u64], b: &[u64]) -> Vec<u64> {
    let (mut i, mut j) = (0, 0);
    let mut r = Vec::with_capacity(a.len() + b.len());
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i] < b[j]) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j] < a[i] {
            r.push(b[j]);
            j += 1;
        } else {
            r.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    r
}
fn pv(v: &str) -> Option<u128> {
    if v == "true" {
        Some(1)
    } else if v == "false" {
        Some(0)
    } else if let Some(h) = v.strip_prefix("#x") {
        u128::from_str_radix(h, 16).ok()
    } else if let Some(b) = v.strip_prefix("#b") {
        u128::from_str_radix(b, 2).ok()
    } else {
        None
    }
}
fn sort(w: u32) -> String {
    if w == 1 {
        "Bool".into()
    } else {
        format!("(_ BitVec {})", w)
    }
}
fn cst(k: u128, w: u32) -> String {
    if w == 1 {
        (if k == 1 { "true" } else { "false" }).into()
    } else {
        format!("(_ bv{} {})", k, w)
    }
}
fn rf(p: &Pool, e: E) -> String {
    match p.cv(e) {
        Some(k) => cst(k, p.w(e)),
        None => format!("e{}", e),
    }
}
/// as a bit vector even when one bit wide
fn bv(p: &Pool, e: E) -> String {
    if p.w(e) == 1 {
        format!("(ite {} #b1 #b0)", rf(p, e))
    } else {
        rf(p, e)
    }
}
fn term(p: &Pool, e: E) -> String {
    let n = p.n[e as usize];
    let r = |x| rf(p, x);
    match n.op {
        K::Const | K::Var => r(e),
        K::Uf => {
            if n.b == NONE {
                format!("(f{} {})", n.k, r(n.a))
            } else {
                format!("(f{} {} {})", n.k, r(n.a), r(n.b))
            }
        }
        K::Ite => format!("(ite {} {} {})", r(n.a), r(n.b), r(n.c)),
        K::Eq => format!("(= {} {})", r(n.a), r(n.b)),
        K::Ult => {
            if p.w(n.a) == 1 {
                format!("(and (not {}) {})", r(n.a), r(n.b))
            } else {
                format!("(bvult {} {})", r(n.a), r(n.b))
            }
        }
        K::Slt => {
            if p.w(n.a) == 1 {
                format!("(and {} (not {}))", r(n.a), r(n.b))
            } else {
                format!("(bvslt {} {})", r(n.a), r(n.b))
            }
        }
        K::ZExt => {
            let aw = p.w(n.a);
            if aw == 1 {
                format!("(ite {} {} {})", r(n.a), cst(1, n.w), cst(0, n.w))
            } else {
                format!("((_ zero_extend {}) {})", n.w - aw, r(n.a))
            }
        }
        K::SExt => {
            let aw = p.w(n.a);
            if aw == 1 {
                format!("(ite {} (bvnot {}) {})", r(n.a), cst(0, n.w), cst(0, n.w))
            } else {
                format!("((_ sign_extend {}) {})", n.w - aw, r(n.a))
            }
        }
        K::Extract => {
            let hi = n.k as u32 + n.w - 1;
            if n.w == 1 {
                format!("(= ((_ extract {} {}) {}) #b1)", hi, n.k, bv(p, n.a))
            } else {
                format!("((_ extract {} {}) {})", hi, n.k, r(n.a))
            }
        }
        K::Concat => format!("(concat {} {})", bv(p, n.a), bv(p, n.b)),
        K::B(b) => {
            if n.w == 1 {
                let o = match b {
                    Bin::Add | Bin::Sub | Bin::Xor => "xor",
                    Bin::And | Bin::Mul => "and",
                    Bin::Or => "or",
                    _ => {
                        return format!("(= #b1 ({} {} {}))", bop(b), bv(p, n.a), bv(p, n.b));
                    }
                };
                return format!("({} {} {})", o, r(n.a), r(n.b));
            }
            format!("({} {} {})", bop(b), r(n.a), r(n.b))
        }
    }
}
fn bop(b: Bin) -> &'static str {
    match b {
        Bin::Add => "bvadd",
        Bin::Sub => "bvsub",
        Bin::Mul => "bvmul",
        Bin::UDiv => "bvudiv",
        Bin::URem => "bvurem",
        Bin::SDiv => "bvsdiv",
        Bin::SRem => "bvsrem",
        Bin::Shl => "bvshl",
        Bin::LShr => "bvlshr",
        Bin::AShr => "bvashr",
        Bin::And => "bvand",
        Bin::Or => "bvor",
        Bin::Xor => "bvxor",
    }
}
