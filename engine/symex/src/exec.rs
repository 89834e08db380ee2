//! The symbolic executor: concrete where it can be, terms where it must,
//! forks on undecided branches and merges at the post-dominator.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    C(u128),
    S(E),
    A(Rc<Vec<Val>>),
}
use Val::*;

#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    sym: BTreeMap<u32, (E, u8)>,
}
#[derive(Clone)]
pub struct Frame {
    f: &'static Func,
    blk: usize,
    ip: usize,
    prev: usize,
    regs: Vec<Val>,
    dst: Option<usize>,
    sp: u64,
}
/// a byte array outside the address space (file content)
#[derive(Clone, PartialEq)]
pub struct Arr {
    /// 0: zero filled, otherwise the symbol of its arbitrary content
    sym: u32,
    conc: Rc<FxMap<u64, Val>>,
    /// (guard, index, value), newest last, on top of `conc`
    top: Rc<Vec<(Option<E>, Val, Val)>>,
}
#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Rc<BTreeMap<u64, Rc<Obj>>>,
    pc: Vec<E>,
    pins: Rc<FxMap<E, u128>>,
    /// objects allocated so far, per kind of object (see alloc)
    heap: Rc<BTreeMap<u64, u64>>,
    sp: u64,
    tape: Vec<(E, u32)>,
    arrs: Vec<Arr>,
    maps: Rc<BTreeMap<(u64, u64), Val>>,
    panic_ok: bool,
    ev: u8,
    paused: usize,
    /// the path condition from this length on may be unsatisfiable
    unsure: Option<usize>,
}
#[derive(Clone, Copy)]
struct Stop {
    depth: usize,
    block: Option<usize>,
}
pub enum Fatal {
    Violation { msg: String, tape: Vec<(u128, u32)>, ufs: Vec<(u128, u128, u128)>, at: String },
    NoAnswer(String),
}
enum Flow {
    Go,
    Fork(Vec<State>),
    /// not merged again below the enclosing merge point
    Keep(Vec<State>),
    Dead,
}
pub struct Exec {
    pub m: Module,
    pub p: Pool,
    pub s: Solver,
    globals: BTreeMap<u64, Rc<Obj>>,
    pub insts: u64,
    pub max_insts: u64,
    pub max_paths: u64,
    pub paths: u64,
    pub panics: u64,
    pub forks: u64,
    pub merges: u64,
    pub unmerged: u64,
    pub checks: u64,
    pub trivial: u64,
    pub undecided: Vec<String>,
    /// runs given up (the others are still looked at)
    kinds: BTreeMap<(u64, u64), u64>,
    pub lost: Vec<String>,
    /// values for the first draws (debugging)
    pub fix: Vec<Option<u128>>,
    pub marks: BTreeSet<String>,
    pub used: BTreeSet<Rc<str>>,
    pub allow_panic: Vec<String>,
    pub deadline: std::time::Instant,
    pub trace: bool,
    pub max_mux: u64,
    pub nounmerge: bool,
    pub why: BTreeMap<String, u64>,
    /// situations that must be able to occur
    pub poss: BTreeMap<String, bool>,
    pub prof: Option<FxMap<usize, (&'static str, u64)>>,
}
type R<T> = Result<T, Fatal>;
fn na<T>(s: impl Into<String>) -> R<T> {
    Err(Fatal::NoAnswer(s.into()))
}
const STACK: u64 = 0x7000_0000_0000;
const HEAP: u64 = 0x1_0000_0000;

impl Obj {
    fn new(n: u64) -> Obj {
        Obj { data: vec![0; n as usize], sym: BTreeMap::new() }
    }
}

fn doubt(st: &mut State) {
    if st.unsure.is_none() {
        st.unsure = Some(st.pc.len());
    }
}
impl Exec {
    pub fn new(m: Module, s: Solver) -> Exec {
        Exec {
            m,
            p: Pool::new(),
            s,
            globals: Default::default(),
            insts: 0,
            max_insts: 4_000_000_000,
            max_paths: 2_000_000,
            paths: 0,
            panics: 0,
            forks: 0,
            merges: 0,
            unmerged: 0,
            checks: 0,
            trivial: 0,
            undecided: vec![],
            lost: vec![],
            kinds: Default::default(),
            fix: std::env::var("SYMEX_FIX").map(|s| s.split(',').map(|x| x.parse().ok()).collect()).unwrap_or_default(),
            marks: Default::default(),
            used: Default::default(),
            allow_panic: vec![],
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
            trace: false,
            max_mux: 20000,
            nounmerge: false,
            why: Default::default(),
            poss: Default::default(),
            prof: std::env::var("SYMEX_PROF").ok().map(|_| Default::default()),
        }
    }
    pub fn start(&mut self, f: &str) -> R<()> {
        let mut st = State {
            frames: vec![],
            mem: Rc::new(BTreeMap::new()),
            pc: vec![],
            pins: Rc::new(Default::default()),
            heap: Default::default(),
            sp: STACK,
            tape: vec![],
            arrs: vec![],
            maps: Rc::new(Default::default()),
            panic_ok: false,
            ev: 0,
            paused: 0,
            unsure: None,
        };
        self.push_frame(&mut st, f, vec![], None)?;
        let mut stops = vec![];
        self.run(st, &mut stops)?;
        Ok(())
    }
    fn push_frame(&mut self, st: &mut State, name: &str, args: Vec<Val>, dst: Option<usize>) -> R<()> {
        let f = self.m.func(name).map_err(Fatal::NoAnswer)?;
        if !self.used.contains(&f.name) {
            self.used.insert(f.name.clone());
        }
        if st.frames.len() > 400 {
            return na("call depth");
        }
        let mut regs = vec![C(0); f.nregs];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.params.len() {
                regs[f.params[i]] = a;
            }
        }
        st.frames.push(Frame { f, blk: 0, ip: 0, prev: 0, regs, dst, sp: st.sp });
        Ok(())
    }
    // ------------------------------------------------------------- values
    fn cst(c: &Cst) -> Val {
        match c {
            Cst::I(x) => C(*x),
            Cst::Agg(v) => A(Rc::new(v.iter().map(Self::cst).collect())),
        }
    }
    #[inline]
    fn ev(&self, st: &State, o: &Op) -> Val {
        match o {
            Op::C(c) => Self::cst(c),
            Op::R(r) => {
                let v = &st.frames.last().unwrap().regs[*r];
                match v {
                    S(e) => {
                        if let Some(k) = st.pins.get(e) {
                            return C(*k);
                        }
                        v.clone()
                    }
                    _ => v.clone(),
                }
            }
        }
    }
    fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            C(k) => self.p.c(*k, w),
            S(e) => *e,
            A(_) => panic!("aggregate as term"),
        }
    }
    fn v(&self, e: E) -> Val {
        match self.p.cv(e) {
            Some(k) => C(k),
            None => S(e),
        }
    }
    fn bin(&mut self, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (C(x), C(y)) = (a, b) {
            return match fold(op, *x, *y, w) {
                Some(v) => Ok(C(v)),
                None => na("division by zero"),
            };
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.p.bin(op, x, y);
        Ok(self.v(r))
    }
    fn icmp(&mut self, pd: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (C(x), C(y)) = (a, b) {
            let (sx, sy) = (sext(*x, w), sext(*y, w));
            return C(match pd {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            } as u128);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let p = &mut self.p;
        let r = match pd {
            Pred::Eq => p.eq(x, y),
            Pred::Ne => {
                let q = p.eq(x, y);
                p.not(q)
            }
            Pred::Ult => p.ult(x, y),
            Pred::Ugt => p.ult(y, x),
            Pred::Uge => {
                let q = p.ult(x, y);
                p.not(q)
            }
            Pred::Ule => {
                let q = p.ult(y, x);
                p.not(q)
            }
            Pred::Slt => p.slt(x, y),
            Pred::Sgt => p.slt(y, x),
            Pred::Sge => {
                let q = p.slt(x, y);
                p.not(q)
            }
            Pred::Sle => {
                let q = p.slt(y, x);
                p.not(q)
            }
        };
        self.v(r)
    }
    fn ite(&mut self, c: E, w: u32, a: &Val, b: &Val) -> Val {
        if a == b {
            return a.clone();
        }
        match (a, b) {
            (A(x), A(y)) => {
                let mut v = vec![];
                for i in 0..x.len() {
                    let r = self.ite_any(c, &x[i], &y[i]);
                    v.push(r);
                }
                A(Rc::new(v))
            }
            _ => {
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.p.ite(c, x, y);
                self.v(r)
            }
        }
    }
    /// width unknown: taken from the symbolic side, else 64 (or 1 for 0/1 inside pairs is harmless)
    fn ite_any(&mut self, c: E, a: &Val, b: &Val) -> Val {
        let w = match (a, b) {
            (S(e), _) | (_, S(e)) => self.p.w(*e),
            _ => 64,
        };
        self.ite(c, w, a, b)
    }
    // ------------------------------------------------------------- memory
    fn global_at(&mut self, a: u64) -> Option<(u64, Rc<Obj>)> {
        let (&base, name) = self.m.by_addr.range(..=a).next_back()?;
        if let Some(o) = self.globals.get(&base) {
            return Some((base, o.clone()));
        }
        let name = name.clone();
        if self.m.header.contains_key(name.as_str()) {
            return None;
        }
        let b = self.m.global_bytes(&name)?;
        let o = Rc::new(Obj { data: b, sym: BTreeMap::new() });
        self.globals.insert(base, o.clone());
        Some((base, o))
    }
    fn find(&mut self, st: &State, a: u64) -> Option<(u64, Rc<Obj>)> {
        if let Some((&b, o)) = st.mem.range(..=a).next_back() {
            if a < b + o.data.len() as u64 || (a == b && o.data.is_empty()) {
                return Some((b, o.clone()));
            }
        }
        if a < HEAP {
            let (b, o) = self.global_at(a)?;
            if a < b + o.data.len() as u64 {
                return Some((b, o));
            }
        }
        None
    }
    fn alloc(&mut self, st: &mut State, n: u64, al: u64) -> u64 {
        // every size has a region of its own, so that objects of two states
        // never overlap in part when the states are merged
        let al = al.max(16);
        let k = self.kinds.len() as u64;
        let k = *self.kinds.entry((n, al)).or_insert(k);
        let i = Rc::make_mut(&mut st.heap).entry(k).or_insert(0);
        let a = HEAP + (k << 32) + *i * ((n + 16 + al - 1) / al * al);
        *i += 1;
        if a + n >= HEAP + ((k + 1) << 32) || a + n >= STACK {
            panic!("out of addresses");
        }
        Rc::make_mut(&mut st.mem).insert(a, Rc::new(Obj::new(n)));
        a
    }
    fn load_c(&mut self, st: &State, a: u64, n: u64) -> R<Val> {
        let (b, o) = match self.find(st, a) {
            Some(x) => x,
            None => return na(format!("load from {:#x} outside any object in {}", a, self.whr(st))),
        };
        let off = (a - b) as usize;
        if off + n as usize > o.data.len() {
            return na(format!("load past the end of an object in {}", self.whr(st)));
        }
        Ok(self.load_o(&o, off, n as usize))
    }
    fn load_o(&mut self, o: &Obj, off: usize, n: usize) -> Val {
        if o.sym.is_empty() || o.sym.range(off as u32..(off + n) as u32).next().is_none() {
            let mut x = 0u128;
            for k in (0..n).rev() {
                x = (x << 8) | o.data[off + k] as u128;
            }
            return C(x);
        }
        if let Some(&(e, 0)) = o.sym.get(&(off as u32)) {
            if self.p.w(e) as usize == 8 * n && (1..n).all(|k| o.sym.get(&((off + k) as u32)) == Some(&(e, k as u8))) {
                return S(e);
            }
        }
        let mut acc: Option<E> = None;
        for k in (0..n).rev() {
            let b = match o.sym.get(&((off + k) as u32)) {
                Some(&(e, i)) => self.p.extract(e, 8 * i as u32, 8),
                None => self.p.c(o.data[off + k] as u128, 8),
            };
            acc = Some(match acc {
                None => b,
                Some(h) => self.p.concat(h, b),
            });
        }
        self.v(acc.unwrap())
    }
    fn store_o(&mut self, o: &mut Obj, off: usize, n: usize, v: &Val) {
        match v {
            C(x) => {
                for k in 0..n {
                    o.data[off + k] = (x >> (8 * k)) as u8;
                }
                if !o.sym.is_empty() {
                    for k in 0..n {
                        o.sym.remove(&((off + k) as u32));
                    }
                }
            }
            S(e) => {
                let e = self.p.zext(*e, 8 * n as u32);
                if n == 1 {
                    // a byte that is a slice of a wider term keeps that identity
                    let nd = self.p.n[e as usize];
                    if nd.op == K::Extract && nd.k % 8 == 0 && self.p.w(nd.a) % 8 == 0 {
                        o.sym.insert(off as u32, (nd.a, (nd.k / 8) as u8));
                        return;
                    }
                }
                for k in 0..n {
                    o.sym.insert((off + k) as u32, (e, k as u8));
                }
            }
            A(_) => unreachable!(),
        }
    }
    fn store_c(&mut self, st: &mut State, a: u64, n: u64, v: &Val) -> R<()> {
        let (b, _) = match self.find(st, a) {
            Some((b, o)) => {
                if a - b + n > o.data.len() as u64 {
                    return na(format!("store past the end of an object in {}", self.whr(st)));
                }
                if !st.mem.contains_key(&b) {
                    Rc::make_mut(&mut st.mem).insert(b, o);
                } else {
                    drop(o);
                }
                (b, 0)
            }
            None => return na(format!("store to {:#x} outside any object in {}", a, self.whr(st))),
        };
        let mem = Rc::make_mut(&mut st.mem);
        let rc = mem.get_mut(&b).unwrap();
        // move the object out so that self can be borrowed for term building
        match v {
            C(_) => {
                let o = Rc::make_mut(rc);
                let off = (a - b) as usize;
                if let C(x) = v {
                    for k in 0..n as usize {
                        o.data[off + k] = (x >> (8 * k)) as u8;
                    }
                    if !o.sym.is_empty() {
                        for k in 0..n as usize {
                            o.sym.remove(&((off + k) as u32));
                        }
                    }
                }
            }
            _ => {
                let mut o = std::mem::replace(rc, Rc::new(Obj::new(0)));
                self.store_o(Rc::make_mut(&mut o), (a - b) as usize, n as usize, v);
                *Rc::make_mut(&mut st.mem).get_mut(&b).unwrap() = o;
            }
        }
        Ok(())
    }
    /// concrete addresses a symbolic one can take within the bounds of its object(s)
    fn cands(&mut self, st: &State, e: E, n: u64) -> R<Vec<u64>> {
        let mut leaves = vec![];
        if self.leaves(e, &mut leaves, 64) {
            leaves.sort();
            leaves.dedup();
            let mut out = vec![];
            for l in leaves {
                if self.find(st, l as u64).is_some() {
                    out.push(l as u64);
                }
            }
            if !out.is_empty() {
                return Ok(out);
            }
        }
        let inf = self.p.i[e as usize];
        let tz = (!(inf.kz)).trailing_zeros().min(12);
        let stride = 1u64 << tz;
        let (lo, hi) = (inf.lo as u64, inf.hi as u64);
        let mut objs: Vec<(u64, u64)> = vec![];
        match self.find(st, lo) {
            Some((b, o)) if hi <= b + o.data.len() as u64 => objs.push((b, b + o.data.len() as u64)),
            _ => {
                // objects the address can point into
                let mut q: Vec<E> = st.pc.clone();
                loop {
                    let ev = match self.some_value_opt(&q, e)? {
                        Some(v) => v,
                        None => break,
                    };
                    let (b, o) = match self.find(st, ev as u64) {
                        Some(x) => x,
                        None => return na(format!("symbolic address {:#x} outside any object in {}", ev, self.whr(st))),
                    };
                    let end = b + o.data.len() as u64;
                    objs.push((b, end));
                    if objs.len() > 40 {
                        return na(format!("symbolic address into too many objects in {}", self.whr(st)));
                    }
                    let w = self.p.w(e);
                    let (bl, en) = (self.p.c(b as u128, w), self.p.c(end as u128, w));
                    let l = self.p.ult(e, bl);
                    let h = {
                        let q = self.p.ult(e, en);
                        self.p.not(q)
                    };
                    let bad = self.p.or(l, h);
                    if self.p.cv(bad) == Some(0) {
                        break;
                    }
                    q.push(bad);
                }
                objs.sort();
            }
        }
        let mut v = vec![];
        for (b, end) in objs {
            let r = inf.ko as u64 & (stride - 1);
            let mut a = lo.max(b);
            a = (a - r + stride - 1) / stride * stride + r;
            while a <= hi && a + n <= end {
                if (a as u128 & inf.kz) == 0 && (a as u128 & inf.ko) == inf.ko {
                    v.push(a);
                }
                a += stride;
                if v.len() as u64 > self.max_mux {
                    return na(format!("symbolic address with too many values in {}", self.whr(st)));
                }
            }
        }
        Ok(v)
    }
    fn some_value_opt(&mut self, pc: &[E], e: E) -> R<Option<u128>> {
        let mut q: Vec<E> = pc.to_vec();
        // mention e so that its variables are in the model
        let w = self.p.w(e);
        let z = self.p.c(0, w);
        let x = self.p.eq(e, z);
        let nx = self.p.not(x);
        let any = self.p.or(x, nx);
        q.push(any);
        match self.s.query(&self.p, &q) {
            Ans::Sat(m) => {
                let mut memo = Default::default();
                match self.p.eval(e, &m, &mut memo) {
                    Some(v) => Ok(Some(v)),
                    None => na("address depends on uninterpreted values"),
                }
            }
            Ans::Unsat => Ok(None),
            _ => na("no model for an address"),
        }
    }
    fn leaves(&self, e: E, out: &mut Vec<u128>, max: usize) -> bool {
        if out.len() > max {
            return false;
        }
        let n = self.p.n[e as usize];
        match n.op {
            K::Const => {
                out.push(n.k);
                true
            }
            K::Ite => self.leaves(n.b, out, max) && self.leaves(n.c, out, max),
            K::ZExt => self.leaves(n.a, out, max),
            K::B(b) => {
                let (mut x, mut y) = (vec![], vec![]);
                if self.leaves(n.a, &mut x, max) && self.leaves(n.b, &mut y, max) && x.len() * y.len() <= max {
                    for i in &x {
                        for j in &y {
                            match fold(b, *i, *j, n.w) {
                                Some(v) => out.push(v),
                                None => return false,
                            }
                        }
                    }
                    out.len() <= max
                } else {
                    false
                }
            }
            _ => false,
        }
    }
    fn load(&mut self, st: &State, a: &Val, ty: &Ty) -> R<Val> {
        if ty.is_agg() {
            let mut v = vec![];
            for i in 0..ty.nelem() {
                let et = ty.elem(i);
                let off = C(ty.field_off(i) as u128);
                let ai = self.bin(Bin::Add, 64, a, &off)?;
                v.push(self.load(st, &ai, &et)?);
            }
            return Ok(A(Rc::new(v)));
        }
        let n = ty.store_size();
        let r = match a {
            C(x) => self.load_c(st, *x as u64, n)?,
            S(e) => {
                let cs = self.cands(st, *e, n)?;
                if cs.is_empty() {
                    return na("no candidate address");
                }
                self.mux(st, *e, &cs, n)?
            }
            A(_) => return na("aggregate address"),
        };
        let w = ty.width();
        if (w as u64) < 8 * n {
            return Ok(match r {
                C(x) => C(mask(x, w)),
                S(e) => {
                    let x = self.p.extract(e, 0, w);
                    self.v(x)
                }
                x => x,
            });
        }
        Ok(r)
    }
    /// balanced selection over candidate addresses
    fn mux(&mut self, st: &State, e: E, cs: &[u64], n: u64) -> R<Val> {
        let mut vals = vec![];
        for &a in cs {
            vals.push(self.load_c(st, a, n)?);
        }
        Ok(self.mux_rec(e, cs, &vals, 8 * n as u32))
    }
    fn mux_rec(&mut self, e: E, cs: &[u64], vals: &[Val], w: u32) -> Val {
        if vals.iter().all(|v| *v == vals[0]) {
            return vals[0].clone();
        }
        let h = cs.len() / 2;
        let l = self.mux_rec(e, &cs[..h], &vals[..h], w);
        let r = self.mux_rec(e, &cs[h..], &vals[h..], w);
        let k = self.p.c(cs[h] as u128, self.p.w(e));
        let c = self.p.ult(e, k);
        self.ite(c, w, &l, &r)
    }
    fn store(&mut self, st: &mut State, a: &Val, ty: &Ty, v: &Val) -> R<()> {
        if let A(x) = v {
            let x = x.clone();
            for i in 0..ty.nelem() {
                let et = ty.elem(i);
                let off = C(ty.field_off(i) as u128);
                let ai = self.bin(Bin::Add, 64, a, &off)?;
                self.store(st, &ai, &et, &x[i as usize])?;
            }
            return Ok(());
        }
        let n = ty.store_size();
        match a {
            C(x) => self.store_c(st, *x as u64, n, v),
            S(e) => {
                let cs = self.cands(st, *e, n)?;
                for c in cs {
                    let k = self.p.c(c as u128, 64);
                    let g = self.p.eq(*e, k);
                    if self.p.cv(g) == Some(0) {
                        continue;
                    }
                    let old = self.load_c(st, c, n)?;
                    let nv = self.ite(g, 8 * n as u32, &self.widen(v, n), &old);
                    self.store_c(st, c, n, &nv)?;
                }
                Ok(())
            }
            A(_) => na("aggregate address"),
        }
    }
    fn widen(&self, v: &Val, _n: u64) -> Val {
        v.clone()
    }
    fn whr(&self, st: &State) -> String {
        st.frames.iter().rev().take(3).map(|f| f.f.name.to_string()).collect::<Vec<_>>().join(" < ")
    }
    // ------------------------------------------------------------- forking
    fn add_pc(&mut self, st: &mut State, c: E) {
        if self.p.cv(c) == Some(1) {
            return;
        }
        st.pc.push(c);
        let pins = Rc::make_mut(&mut st.pins);
        pins.insert(c, 1);
        let n = self.p.not(c);
        pins.insert(n, 0);
        // x == constant
        let nd = self.p.n[c as usize];
        if nd.op == K::Eq {
            if let Some(k) = self.p.cv(nd.b) {
                pins.insert(nd.a, k);
            }
        }
        if nd.op == K::B(Bin::And) && nd.w == 1 {
            pins.insert(nd.a, 1);
            pins.insert(nd.b, 1);
        }
    }
    fn pin(&mut self, st: &mut State, c: E, v: u128) {
        let pins = Rc::make_mut(&mut st.pins);
        pins.insert(c, v);
        if self.p.w(c) == 1 {
            let n = self.p.not(c);
            Rc::make_mut(&mut st.pins).insert(n, 1 - v);
        }
    }
    /// (can be true, can be false)
    fn sides(&mut self, st: &mut State, c: E) -> (bool, bool) {
        let n = self.p.not(c);
        let t = self.s.check(&self.p, &st.pc, &[c]);
        if t == Some(false) && st.unsure.is_none() {
            return (false, true);
        }
        let f = self.s.check(&self.p, &st.pc, &[n]);
        if t.is_none() || f.is_none() {
            doubt(st);
        }
        (t.unwrap_or(true), f.unwrap_or(true))
    }
    fn split(&mut self, st: &State, e: E, max: usize) -> R<Vec<State>> {
        self.forks += 1;
        let mut out = vec![];
        let mut pc = st.pc.clone();
        loop {
            if self.s.check(&self.p, &pc, &[self.p_true()]) == Some(false) {
                break;
            }
            // feasibility of the remainder
            let v = {
                let mut q = pc.clone();
                q.sort();
                q.dedup();
                let w = self.p.w(e);
                let z = self.p.c(0, w);
                let x = self.p.eq(e, z);
                let nx = self.p.not(x);
                let any = self.p.or(x, nx);
                q.push(any);
                match self.s.query(&self.p, &q) {
                    Ans::Sat(m) => {
                        let mut memo = Default::default();
                        match self.p.eval(e, &m, &mut memo) {
                            Some(v) => v,
                            None => return na("split on uninterpreted value"),
                        }
                    }
                    Ans::Unsat => break,
                    Ans::Unknown => return na("split: solver gave up"),
                }
            };
            let k = self.p.c(v, self.p.w(e));
            let q = self.p.eq(e, k);
            let mut s = st.clone();
            self.add_pc(&mut s, q);
            self.pin(&mut s, e, v);
            out.push(s);
            if out.len() > max {
                // the values found are still looked at
                let m = format!("more than {} values at a split in {}", max, self.whr(st));
                self.lost.push(m);
                break;
            }
            let nq = self.p.not(q);
            pc.push(nq);
        }
        Ok(out)
    }
    fn p_true(&self) -> E {
        // the constant true is created in every pool use before splits
        0
    }
    fn enter(&mut self, st: &mut State, to: usize) {
        let n = st.frames.len() - 1;
        let (f, from) = {
            let fr = &st.frames[n];
            (fr.f, fr.blk)
        };
        let phis = &f.blocks[to].phis;
        if !phis.is_empty() {
            let mut vals = Vec::with_capacity(phis.len());
            for (d, srcs) in phis {
                let o = srcs.iter().find(|x| x.0 == from).map(|x| &x.1);
                let v = match o {
                    Some(o) => self.ev(st, o),
                    None => C(0),
                };
                vals.push((*d, v));
            }
            let fr = &mut st.frames[n];
            for (d, v) in vals {
                fr.regs[d] = v;
            }
        }
        let fr = &mut st.frames[n];
        fr.prev = from;
        fr.blk = to;
        fr.ip = 0;
        st.ev = 1;
    }
    fn run(&mut self, st: State, stops: &mut Vec<Stop>) -> R<Vec<State>> {
        let mut out = vec![];
        let mut work = vec![st];
        while let Some(mut st) = work.pop() {
            loop {
                if st.ev != 0 {
                    let d = if st.ev == 1 { st.frames.len() } else { st.frames.len() + 1 };
                    let blk = if st.ev == 1 { Some(st.frames.last().unwrap().blk) } else { None };
                    if let Some(k) = stops.iter().rposition(|s| s.depth == d && s.block == blk) {
                        st.paused = k;
                        out.push(st);
                        break;
                    }
                    st.ev = 0;
                }
                let flow = match self.step(&mut st) {
                    Err(Fatal::NoAnswer(m)) => {
                        if st.unsure.is_some() && self.s.check(&self.p, &[], &st.pc.clone()) == Some(false) {
                            break;
                        }
                        self.lost.push(m);
                        if self.lost.len() > 100 || self.insts > self.max_insts || self.paths > self.max_paths || std::time::Instant::now() > self.deadline {
                            return Err(Fatal::NoAnswer(self.lost[0].clone()));
                        }
                        break;
                    }
                    r => r?,
                };
                match flow {
                    Flow::Go => {}
                    Flow::Dead => break,
                    Flow::Keep(states) => {
                        work.extend(states.into_iter().rev());
                        break;
                    }
                    Flow::Fork(states) => {
                        // the block of the fork is that of st (unchanged)
                        let d = st.frames.len();
                        let fr = st.frames.last().unwrap();
                        let f = fr.f;
                        let stop = Stop { depth: d, block: f.ipdom[fr.blk] };
                        drop(st);
                        stops.push(stop);
                        let lvl = stops.len() - 1;
                        let mut here = vec![];
                        for s in states {
                            for r in self.run(s, stops)? {
                                if r.paused == lvl {
                                    here.push(r);
                                } else {
                                    out.push(r);
                                }
                            }
                            here = self.merge_all(here);
                        }
                        stops.pop();
                        // ev stays set so that an outer stop at the same place is seen
                        work.extend(here.into_iter().rev());
                        break;
                    }
                }
            }
        }
        Ok(out)
    }
    fn merge_all(&mut self, mut v: Vec<State>) -> Vec<State> {
        let mut out: Vec<State> = vec![];
        v.reverse();
        while let Some(s) = v.pop() {
            let mut done = false;
            for o in out.iter_mut() {
                if let Some(m) = self.merge(o, &s) {
                    *o = m;
                    done = true;
                    self.merges += 1;
                    break;
                }
            }
            if !done {
                out.push(s);
            }
        }
        if out.len() > 1 {
            self.unmerged += 1;
        }
        out
    }
    fn nomerge(&mut self, why: &str) -> Option<State> {
        *self.why.entry(why.to_string()).or_insert(0) += 1;
        None
    }
    fn merge(&mut self, a: &State, b: &State) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.ev != b.ev || a.panic_ok != b.panic_ok {
            return self.nomerge("shape");
        }
        if a.tape != b.tape {
            return self.nomerge("tape");
        }
        if !(Rc::ptr_eq(&a.maps, &b.maps) || a.maps == b.maps) {
            return self.nomerge("maps");
        }
        for (x, y) in a.frames.iter().zip(&b.frames) {
            if !std::ptr::eq(x.f, y.f) || x.blk != y.blk || x.ip != y.ip || x.dst != y.dst || x.sp != y.sp {
                return self.nomerge("frames");
            }
        }
        if a.sp != b.sp {
            return self.nomerge("sp");
        }
        // objects alive in both must agree in size
        let mut diff = vec![];
        if !Rc::ptr_eq(&a.mem, &b.mem) {
            for (k, o) in a.mem.iter() {
                if let Some(p) = b.mem.get(k) {
                    if Rc::ptr_eq(o, p) {
                        continue;
                    }
                    if o.data.len() != p.data.len() {
                        return self.nomerge("objects");
                    }
                    diff.push(*k);
                }
            }
            // an object of one side must not lie over another one of the other side
            for (x, y) in [(a, b), (b, a)] {
                for (k, o) in x.mem.iter() {
                    if y.mem.contains_key(k) {
                        continue;
                    }
                    if let Some((k2, o2)) = y.mem.range(..k).next_back() {
                        if k2 + o2.data.len() as u64 > *k {
                            return self.nomerge("overlap");
                        }
                    }
                    if let Some((k2, _)) = y.mem.range(k..).next() {
                        if k + o.data.len() as u64 > *k2 {
                            return self.nomerge("overlap");
                        }
                    }
                }
            }
        }
        let mut n = 0;
        while n < a.pc.len() && n < b.pc.len() && a.pc[n] == b.pc[n] {
            n += 1;
        }
        let t = self.p.c(1, 1);
        let mut ca = t;
        for &x in &a.pc[n..] {
            ca = self.p.and(ca, x);
        }
        let mut cb = t;
        for &x in &b.pc[n..] {
            cb = self.p.and(cb, x);
        }
        if a.arrs.len() != b.arrs.len() {
            return self.nomerge("arrays");
        }
        let mut r = a.clone();
        r.pc.truncate(n);
        let or = self.p.or(ca, cb);
        if self.p.cv(or) != Some(1) {
            r.pc.push(or);
        }
        // pins common to both
        if !Rc::ptr_eq(&a.pins, &b.pins) {
            let pins: FxMap<E, u128> = a.pins.iter().filter(|(k, v)| b.pins.get(k) == Some(v)).map(|(k, v)| (*k, *v)).collect();
            r.pins = Rc::new(pins);
        }
        if !Rc::ptr_eq(&a.heap, &b.heap) {
            let mut h = (*a.heap).clone();
            for (k, v) in b.heap.iter() {
                let x = h.entry(*k).or_insert(0);
                *x = (*x).max(*v);
            }
            r.heap = Rc::new(h);
        }
        r.unsure = match (a.unsure, b.unsure) {
            (None, None) => None,
            (x, y) => {
                let u = x.unwrap_or(usize::MAX).min(y.unwrap_or(usize::MAX));
                if u < n || (x.is_some() && y.is_some() && r.pc.len() > n) {
                    Some(u.min(n))
                } else {
                    None
                }
            }
        };
        for i in 0..a.frames.len() {
            for k in 0..a.frames[i].regs.len() {
                let (x, y) = (&a.frames[i].regs[k], &b.frames[i].regs[k]);
                if x != y {
                    if let Some(t) = &a.frames[i].f.regty[k] {
                        let v = self.merge_val(ca, t, x, y);
                        r.frames[i].regs[k] = v;
                    }
                }
            }
        }
        if !Rc::ptr_eq(&a.mem, &b.mem) {
            let mut mem = (*a.mem).clone();
            for (k, o) in b.mem.iter() {
                if !mem.contains_key(k) {
                    mem.insert(*k, o.clone());
                }
            }
            for k in diff {
                let (x, y) = (a.mem[&k].clone(), b.mem[&k].clone());
                let o = self.merge_obj(ca, &x, &y);
                mem.insert(k, Rc::new(o));
            }
            r.mem = Rc::new(mem);
        }
        for i in 0..a.arrs.len() {
            let (x, y) = (&a.arrs[i], &b.arrs[i]);
            if x == y {
                continue;
            }
            if x.sym != y.sym {
                return self.nomerge("arrays");
            }
            let mut top: Vec<(Option<E>, Val, Val)> = vec![];
            let mut conc = x.conc.clone();
            let mut n = 0;
            if Rc::ptr_eq(&x.conc, &y.conc) || x.conc == y.conc {
                while n < x.top.len() && n < y.top.len() && x.top[n] == y.top[n] {
                    top.push(x.top[n].clone());
                    n += 1;
                }
            } else {
                if !x.top.is_empty() || !y.top.is_empty() {
                    return self.nomerge("array stores");
                }
                let mut m: FxMap<u64, Val> = Default::default();
                let mut keys: BTreeSet<u64> = x.conc.keys().copied().collect();
                keys.extend(y.conc.keys());
                for k in keys {
                    let vx = self.arr_base(x, k);
                    let vy = self.arr_base(y, k);
                    let v = self.ite(ca, 8, &vx, &vy);
                    m.insert(k, v);
                }
                conc = Rc::new(m);
            }
            for (src, c) in [(x, ca), (y, cb)] {
                for s in &src.top[n..] {
                    let g = match s.0 {
                        Some(g) => self.p.and(g, c),
                        None => c,
                    };
                    top.push((Some(g), s.1.clone(), s.2.clone()));
                }
            }
            r.arrs[i] = Arr { sym: x.sym, conc, top: Rc::new(top) };
        }
        Some(r)
    }
    fn merge_val(&mut self, c: E, t: &Ty, x: &Val, y: &Val) -> Val {
        match (x, y) {
            (A(p), A(q)) => {
                if p.len() != q.len() {
                    return x.clone();
                }
                let (p, q) = (p.clone(), q.clone());
                let v = (0..p.len()).map(|i| if p[i] == q[i] { p[i].clone() } else { self.merge_val(c, &t.elem(i as u64), &p[i], &q[i]) }).collect();
                A(Rc::new(v))
            }
            // a register defined on one side only is dead here
            (A(_), _) => x.clone(),
            (_, A(_)) => y.clone(),
            _ => {
                let w = t.width();
                if w == 0 || w > 128 {
                    return x.clone();
                }
                // a stale value of the other side is dead here
                for v in [x, y] {
                    match v {
                        S(e) if self.p.w(*e) != w => return x.clone(),
                        C(k) if mask(*k, w) != *k => return x.clone(),
                        _ => {}
                    }
                }
                let (a, b) = (self.e(x, w), self.e(y, w));
                let r = self.p.ite(c, a, b);
                self.v(r)
            }
        }
    }
    fn merge_obj(&mut self, c: E, x: &Obj, y: &Obj) -> Obj {
        let mut o = x.clone();
        let n = x.data.len();
        let same = |k: usize| {
            let (p, q) = (x.sym.get(&(k as u32)), y.sym.get(&(k as u32)));
            p == q && (p.is_some() || x.data[k] == y.data[k])
        };
        let mut k = 0;
        while k < n {
            if same(k) {
                k += 1;
                continue;
            }
            // try the aligned word
            let w0 = k / 8 * 8;
            let mut step = 1;
            if w0 + 8 <= n {
                let cnt = (w0..w0 + 8).filter(|&i| !same(i)).count();
                let nice = |o: &Obj| {
                    let r: Vec<_> = (w0..w0 + 8).map(|i| o.sym.get(&(i as u32))).collect();
                    r.iter().all(|z| z.is_none()) || (r.iter().all(|z| z.is_some()) && (0..8).all(|i| r[i].unwrap().0 == r[0].unwrap().0 && r[i].unwrap().1 as usize == i))
                };
                if cnt > 1 && nice(x) && nice(y) && k == (w0..w0 + 8).find(|&i| !same(i)).unwrap() {
                    let a = self.load_o(x, w0, 8);
                    let b = self.load_o(y, w0, 8);
                    let v = self.ite(c, 64, &a, &b);
                    self.store_o(&mut o, w0, 8, &v);
                    k = w0 + 8;
                    continue;
                }
                step = 1;
            }
            let a = self.load_o(x, k, 1);
            let b = self.load_o(y, k, 1);
            let v = self.ite(c, 8, &a, &b);
            self.store_o(&mut o, k, 1, &v);
            k += step;
        }
        o
    }
    // ------------------------------------------------------------- arrays
    fn arr_base(&mut self, a: &Arr, k: u64) -> Val {
        match a.conc.get(&k) {
            Some(v) => v.clone(),
            None => {
                if a.sym == 0 {
                    C(0)
                } else {
                    let i = self.p.c(k as u128, 64);
                    let e = self.p.uf(a.sym as u128, 8, i, NONE);
                    S(e)
                }
            }
        }
    }
    fn arr_get(&mut self, st: &State, id: usize, idx: &Val) -> R<Val> {
        let a = st.arrs[id].clone();
        let mut r = match idx {
            C(k) => self.arr_base(&a, *k as u64),
            S(e) => {
                let base = if a.sym == 0 {
                    C(0)
                } else {
                    let u = self.p.uf(a.sym as u128, 8, *e, NONE);
                    S(u)
                };
                let inf = self.p.i[*e as usize];
                let mut ks: Vec<u64> = a.conc.keys().copied().filter(|&k| k as u128 >= inf.lo && k as u128 <= inf.hi && (k as u128 & inf.kz) == 0 && (k as u128 & inf.ko) == inf.ko).collect();
                ks.sort();
                if ks.is_empty() {
                    base
                } else {
                    // dense ranges go through a balanced selection
                    let dense = ks.len() as u64 == ks[ks.len() - 1] - ks[0] + 1;
                    let vals: Vec<Val> = ks.iter().map(|k| a.conc[k].clone()).collect();
                    if dense {
                        let m = self.mux_rec(*e, &ks, &vals, 8);
                        let lo = self.p.c(ks[0] as u128, 64);
                        let hi = self.p.c(ks[ks.len() - 1] as u128, 64);
                        let o1 = self.p.ult(*e, lo);
                        let o2 = self.p.ult(hi, *e);
                        let out = self.p.or(o1, o2);
                        self.ite(out, 8, &base, &m)
                    } else {
                        let mut m = base;
                        for (k, v) in ks.iter().zip(&vals) {
                            let kk = self.p.c(*k as u128, 64);
                            let c = self.p.eq(*e, kk);
                            m = self.ite(c, 8, v, &m);
                        }
                        m
                    }
                }
            }
            _ => return na("array index"),
        };
        for (g, i, v) in a.top.iter() {
            let (x, y) = (self.e(i, 64), self.e(idx, 64));
            let mut c = self.p.eq(x, y);
            if let Some(g) = g {
                c = self.p.and(c, *g);
            }
            if self.p.cv(c) == Some(0) {
                continue;
            }
            r = self.ite(c, 8, v, &r);
        }
        Ok(r)
    }
    fn arr_set(&mut self, st: &mut State, id: usize, idx: &Val, v: Val) {
        let a = &mut st.arrs[id];
        match idx {
            C(k) if a.top.is_empty() => {
                Rc::make_mut(&mut a.conc).insert(*k as u64, v);
            }
            _ => {
                // replace a newer unguarded store to the same index
                let top = Rc::make_mut(&mut a.top);
                if let Some(l) = top.last_mut() {
                    if l.0.is_none() && l.1 == *idx {
                        l.2 = v;
                        return;
                    }
                }
                top.push((None, idx.clone(), v));
            }
        }
    }
    // ------------------------------------------------------------- outcomes
    fn violation<T>(&mut self, st: &State, extra: Option<E>, msg: String) -> R<T> {
        let mut q = st.pc.clone();
        if let Some(x) = extra {
            q.push(x);
        }
        q.sort();
        q.dedup();
        let m = match self.s.query(&self.p, &q) {
            Ans::Sat(m) => m,
            Ans::Unsat => {
                // an undecided branch led here
                return na(format!("infeasible path reached: {}", msg));
            }
            Ans::Unknown => return na(format!("solver gave up on: {}", msg)),
        };
        let tape = st.tape.iter().map(|(e, w)| (self.p.cv(*e).unwrap_or_else(|| m.vars.get(&self.p.n[*e as usize].k).copied().unwrap_or(0)), *w)).collect();
        Err(Fatal::Violation { msg, tape, ufs: m.ufs.iter().filter(|x| x.0 .0 < 1 << 20).map(|(k, v)| (k.0, k.1, *v)).collect(), at: self.whr(st) })
    }
    fn panic(&mut self, st: &State, name: &str) -> R<Flow> {
        self.panics += 1;
        if st.panic_ok {
            return Ok(Flow::Dead);
        }
        if st.unsure.is_some() && self.s.check(&self.p, &[], &st.pc.clone()) == Some(false) {
            return Ok(Flow::Dead);
        }
        self.violation(st, None, format!("panic in {} ({})", self.whr(st), name))
    }
    fn string_at(&mut self, st: &State, a: &Val, n: &Val) -> String {
        if let (C(a), C(n)) = (a, n) {
            let mut s = vec![];
            for k in 0..*n as u64 {
                match self.load_c(st, *a as u64 + k, 1) {
                    Ok(C(b)) => s.push(b as u8),
                    _ => s.push(b'?'),
                }
            }
            return String::from_utf8_lossy(&s).to_string();
        }
        "?".into()
    }
    fn set(st: &mut State, d: Option<usize>, v: Val) {
        if let Some(d) = d {
            st.frames.last_mut().unwrap().regs[d] = v;
        }
    }
    fn next(st: &mut State) {
        st.frames.last_mut().unwrap().ip += 1;
    }
    // ------------------------------------------------------------- one step
    fn step(&mut self, st: &mut State) -> R<Flow> {
        self.insts += 1;
        if self.insts & 0xfff == 0 {
            if self.insts > self.max_insts {
                return na("instruction limit");
            }
            if std::time::Instant::now() > self.deadline {
                return na("time limit");
            }
        }
        let (f, blk, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.f, fr.blk, fr.ip)
        };
        if let Some(p) = &mut self.prof {
            p.entry(f as *const Func as usize).or_insert((&f.name, 0)).1 += 1;
        }
        let (dst, inst) = match f.blocks[blk].insts.get(ip) {
            Some(x) => (x.0, &x.1),
            None => return na("fell off a block"),
        };
        match inst {
            Inst::Bin(op, w, a, b) => {
                let (x, y) = (self.ev(st, a), self.ev(st, b));
                let r = self.bin(*op, *w, &x, &y)?;
                Self::set(st, dst, r);
            }
            Inst::VBin(op, ty, a, b) => {
                let (x, y) = (self.ev(st, a), self.ev(st, b));
                if let (A(x), A(y)) = (x, y) {
                    let w = ty.elem(0).width();
                    let mut v = vec![];
                    for i in 0..x.len() {
                        v.push(self.bin(*op, w, &x[i], &y[i])?);
                    }
                    Self::set(st, dst, A(Rc::new(v)));
                } else {
                    return na("vector op");
                }
            }
            Inst::VICmp(pd, ty, a, b) => {
                let (x, y) = (self.ev(st, a), self.ev(st, b));
                if let (A(x), A(y)) = (x, y) {
                    let w = ty.elem(0).width();
                    let mut v = vec![];
                    for i in 0..x.len() {
                        v.push(self.icmp(*pd, w, &x[i], &y[i]));
                    }
                    Self::set(st, dst, A(Rc::new(v)));
                } else {
                    return na("vector op");
                }
            }
            Inst::ICmp(pd, w, a, b) => {
                let (x, y) = (self.ev(st, a), self.ev(st, b));
                let r = self.icmp(*pd, *w, &x, &y);
                Self::set(st, dst, r);
            }
            Inst::FBin(o, d, a, b) => {
                let (x, y) = (self.ev(st, a), self.ev(st, b));
                let r = match (x, y) {
                    (C(x), C(y)) => fbin(*o, *d, x, y),
                    _ => return na("symbolic float"),
                };
                Self::set(st, dst, C(r));
            }
            Inst::FNeg(d, a) => {
                let r = match self.ev(st, a) {
                    C(x) => x ^ if *d { 1u128 << 63 } else { 1u128 << 31 },
                    _ => return na("symbolic float"),
                };
                Self::set(st, dst, C(r));
            }
            Inst::FCmp(p, d, a, b) => {
                let (x, y) = (self.ev(st, a), self.ev(st, b));
                let r = match (x, y) {
                    (C(x), C(y)) => fcmp(p, *d, x, y),
                    _ => return na("symbolic float"),
                };
                Self::set(st, dst, C(r as u128));
            }
            Inst::Cast(k, from, to, a) => {
                let x = self.ev(st, a);
                let r = self.cast(k, from, to, x)?;
                Self::set(st, dst, r);
            }
            Inst::Load(ty, a) => {
                let x = self.ev(st, a);
                let mut r = self.load(st, &x, ty)?;
                if let S(e) = r {
                    if let Some(k) = st.pins.get(&e) {
                        r = C(*k);
                    }
                }
                Self::set(st, dst, r);
            }
            Inst::Store(ty, v, a) => {
                let (v, a) = (self.ev(st, v), self.ev(st, a));
                self.store(st, &a, ty, &v)?;
            }
            Inst::Gep(b, off, dynv) => {
                let mut r = self.ev(st, b);
                if *off != 0 {
                    r = self.bin(Bin::Add, 64, &r, &C(*off as u64 as u128))?;
                }
                for (o, w, sc) in dynv {
                    let i = self.ev(st, o);
                    let i = match i {
                        C(k) => C(mask(sext(k, *w) as u128, 64)),
                        S(e) => {
                            let x = self.p.sext_to(e, 64);
                            self.v(x)
                        }
                        _ => return na("gep"),
                    };
                    let t = self.bin(Bin::Mul, 64, &i, &C(*sc as u128))?;
                    r = self.bin(Bin::Add, 64, &r, &t)?;
                }
                Self::set(st, dst, r);
            }
            Inst::Select(ty, c, a, b) => {
                let c = self.ev(st, c);
                let r = match c {
                    C(k) => self.ev(st, if k & 1 == 1 { a } else { b }),
                    S(e) => {
                        let (x, y) = (self.ev(st, a), self.ev(st, b));
                        if x == y {
                            x
                        } else if *ty == Ty::Ptr || !matches!(ty, Ty::Int(_)) && !ty.is_agg() {
                            self.ite(e, ty.width(), &x, &y)
                        } else if ty.is_agg() {
                            self.ite_ty(e, ty, &x, &y)
                        } else {
                            self.ite(e, ty.width(), &x, &y)
                        }
                    }
                    _ => return na("select"),
                };
                Self::set(st, dst, r);
            }
            Inst::Copy(a) => {
                let r = self.ev(st, a);
                Self::set(st, dst, r);
            }
            Inst::Alloca(n, al) => {
                let al = (*al).max(16);
                let a = (st.sp + al - 1) / al * al;
                st.sp = a + n + 16;
                Rc::make_mut(&mut st.mem).insert(a, Rc::new(Obj::new(*n)));
                Self::set(st, dst, C(a as u128));
            }
            Inst::Extract(a, path) => {
                let mut v = self.ev(st, a);
                for &k in path {
                    v = match v {
                        A(x) => x[k as usize].clone(),
                        _ => return na("extractvalue"),
                    };
                }
                if let S(e) = v {
                    if let Some(k) = st.pins.get(&e) {
                        v = C(*k);
                    }
                }
                Self::set(st, dst, v);
            }
            Inst::Insert(a, b, path) => {
                let (v, x) = (self.ev(st, a), self.ev(st, b));
                fn ins(v: &Val, x: Val, p: &[u64]) -> Option<Val> {
                    if p.is_empty() {
                        return Some(x);
                    }
                    match v {
                        A(r) => {
                            let mut n = (**r).clone();
                            n[p[0] as usize] = ins(&r[p[0] as usize], x, &p[1..])?;
                            Some(A(Rc::new(n)))
                        }
                        _ => None,
                    }
                }
                match ins(&v, x, path) {
                    Some(r) => Self::set(st, dst, r),
                    None => return na("insertvalue"),
                }
            }
            Inst::ExtractElem(a, i) => match (self.ev(st, a), self.ev(st, i)) {
                (A(v), C(k)) => Self::set(st, dst, v[k as usize].clone()),
                _ => return na("extractelement"),
            },
            Inst::InsertElem(a, x, i) => match (self.ev(st, a), self.ev(st, i)) {
                (A(v), C(k)) => {
                    let x = self.ev(st, x);
                    let mut n = (*v).clone();
                    n[k as usize] = x;
                    Self::set(st, dst, A(Rc::new(n)));
                }
                _ => return na("insertelement"),
            },
            Inst::Shuffle(n, a, b, mk) => match (self.ev(st, a), self.ev(st, b)) {
                (A(x), A(y)) => {
                    let v = mk.iter().map(|&k| if k < *n { x[k as usize].clone() } else { y[(k - n) as usize].clone() }).collect();
                    Self::set(st, dst, A(Rc::new(v)));
                }
                _ => return na("shufflevector"),
            },
            Inst::Rmw(o, ty, a, v) => {
                let (a, v) = (self.ev(st, a), self.ev(st, v));
                let old = self.load(st, &a, ty)?;
                let w = ty.width();
                let nv = match o.as_str() {
                    "xchg" => v,
                    "add" => self.bin(Bin::Add, w, &old, &v)?,
                    "sub" => self.bin(Bin::Sub, w, &old, &v)?,
                    "and" => self.bin(Bin::And, w, &old, &v)?,
                    "or" => self.bin(Bin::Or, w, &old, &v)?,
                    "xor" => self.bin(Bin::Xor, w, &old, &v)?,
                    _ => return na(format!("atomicrmw {}", o)),
                };
                self.store(st, &a, ty, &nv)?;
                Self::set(st, dst, old);
            }
            Inst::CmpXchg(ty, a, c, n) => {
                let (a, c, n) = (self.ev(st, a), self.ev(st, c), self.ev(st, n));
                let old = self.load(st, &a, ty)?;
                let q = self.icmp(Pred::Eq, ty.width(), &old, &c);
                let nv = match &q {
                    C(1) => n,
                    C(_) => old.clone(),
                    S(e) => self.ite(*e, ty.width(), &n, &old),
                    _ => return na("cmpxchg"),
                };
                self.store(st, &a, ty, &nv)?;
                Self::set(st, dst, A(Rc::new(vec![old, q])));
            }
            Inst::Br(t) => {
                self.enter(st, *t);
                return Ok(Flow::Go);
            }
            Inst::CondBr(c, a, b) => {
                return match self.ev(st, c) {
                    C(k) => {
                        self.enter(st, if k & 1 == 1 { *a } else { *b });
                        Ok(Flow::Go)
                    }
                    S(e) => {
                        let fr = st.frames.last().unwrap();
                        let light = fr.f.light[fr.blk];
                        let (t, f) = if light > 0 { (true, true) } else { self.sides(st, e) };
                        if !t && !f {
                            return Ok(Flow::Dead);
                        }
                        if !t || !f {
                            self.pin(st, e, t as u128);
                            self.enter(st, if t { *a } else { *b });
                            return Ok(Flow::Go);
                        }
                        self.forks += 1;
                        if self.prof.is_some() {
                            let fr = st.frames.last().unwrap();
                            *self.why.entry(format!("fork {}:{}{}", fr.f.name, fr.blk, if light > 0 { " light" } else { "" })).or_insert(0) += 1;
                        }
                        let mut s1 = st.clone();
                        let mut s2 = st.clone();
                        if light > 0 {
                            doubt(&mut s1);
                            doubt(&mut s2);
                        }
                        self.add_pc(&mut s1, e);
                        self.enter(&mut s1, *a);
                        let n = self.p.not(e);
                        self.add_pc(&mut s2, n);
                        self.enter(&mut s2, *b);
                        Ok(Flow::Fork(vec![s1, s2]))
                    }
                    _ => na("branch"),
                };
            }
            Inst::Switch(w, c, d, v) => {
                return match self.ev(st, c) {
                    C(k) => {
                        let t = v.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d);
                        self.enter(st, t);
                        Ok(Flow::Go)
                    }
                    S(e) => {
                        let mut out = vec![];
                        let mut rest = self.p.c(1, 1);
                        // cases with one target share a state
                        let mut targets: Vec<(usize, E)> = vec![];
                        for (k, t) in v {
                            let kk = self.p.c(*k, *w);
                            let q = self.p.eq(e, kk);
                            let nq = self.p.not(q);
                            rest = self.p.and(rest, nq);
                            match targets.iter_mut().find(|x| x.0 == *t) {
                                Some(x) => x.1 = self.p.or(x.1, q),
                                None => targets.push((*t, q)),
                            }
                        }
                        match targets.iter_mut().find(|x| x.0 == *d) {
                            Some(x) => x.1 = self.p.or(x.1, rest),
                            None => targets.push((*d, rest)),
                        }
                        for (t, q) in targets {
                            let r = self.s.check(&self.p, &st.pc, &[q]);
                            if r == Some(false) {
                                continue;
                            }
                            let mut s = st.clone();
                            if r.is_none() {
                                doubt(&mut s);
                            }
                            self.add_pc(&mut s, q);
                            self.enter(&mut s, t);
                            out.push(s);
                        }
                        self.forks += 1;
                        if out.len() == 1 {
                            *st = out.pop().unwrap();
                            return Ok(Flow::Go);
                        }
                        Ok(Flow::Fork(out))
                    }
                    _ => na("switch"),
                };
            }
            Inst::Ret(o) => {
                let v = o.as_ref().map(|o| self.ev(st, o));
                let fr = st.frames.pop().unwrap();
                if st.sp != fr.sp {
                    let mem = Rc::make_mut(&mut st.mem);
                    let ks: Vec<u64> = mem.range(fr.sp..).map(|x| *x.0).collect();
                    for k in ks {
                        mem.remove(&k);
                    }
                    st.sp = fr.sp;
                }
                if st.frames.is_empty() {
                    self.paths += 1;
                    if self.paths > self.max_paths {
                        return na("path limit");
                    }
                    return Ok(Flow::Dead);
                }
                if let Some(v) = v {
                    Self::set(st, fr.dst, v);
                }
                st.ev = 2;
                return Ok(Flow::Go);
            }
            Inst::Unreachable => return na(format!("unreachable executed in {}", self.whr(st))),
            Inst::Nop => {}
            Inst::Bad(s) => return na(format!("unsupported: {}", s)),
            Inst::Call(cal, args, rt) => {
                let name: Rc<str> = match cal {
                    Callee::Asm => {
                        Self::set(st, dst, C(0));
                        Self::next(st);
                        return Ok(Flow::Go);
                    }
                    Callee::Named(n) => n.clone(),
                    Callee::Ptr(o) => match self.ev(st, o) {
                        C(a) => match self.m.by_addr.get(&(a as u64)) {
                            Some(n) => n.as_str().into(),
                            None => return na(format!("call through {:#x} in {}", a, self.whr(st))),
                        },
                        S(e) => {
                            let v = self.split(st, e, 16)?;
                            return Ok(Flow::Fork(v));
                        }
                        _ => return na("indirect call"),
                    },
                };
                let name = match self.m.alias.get(&*name) {
                    Some(a) => (*a).into(),
                    None => name,
                };
                let mut vals = Vec::with_capacity(args.len());
                for (_, o) in args {
                    vals.push(self.ev(st, o));
                }
                return self.call(st, dst, &name, args, vals, rt);
            }
        }
        Self::next(st);
        Ok(Flow::Go)
    }
    fn ite_ty(&mut self, c: E, ty: &Ty, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (A(x), A(y)) => {
                let v = (0..x.len()).map(|i| self.ite_ty(c, &ty.elem(i as u64), &x[i], &y[i])).collect();
                A(Rc::new(v))
            }
            _ => self.ite(c, ty.width(), a, b),
        }
    }
    fn cast(&mut self, k: &str, from: &Ty, to: &Ty, x: Val) -> R<Val> {
        if let A(v) = &x {
            if k == "bitcast" {
                return self.bitcast(from, to, &x);
            }
            let (fe, te) = (from.elem(0), to.elem(0));
            let v = v.clone();
            let mut out = vec![];
            for e in v.iter() {
                out.push(self.cast(k, &fe, &te, e.clone())?);
            }
            return Ok(A(Rc::new(out)));
        }
        let (fw, tw) = (from.width(), to.width());
        Ok(match k {
            "zext" => match x {
                C(v) => C(v),
                S(e) => S(self.p.zext(e, tw)),
                v => v,
            },
            "sext" => match x {
                C(v) => C(mask(sext(v, fw) as u128, tw)),
                S(e) => {
                    let r = self.p.sext_to(e, tw);
                    self.v(r)
                }
                v => v,
            },
            "trunc" => match x {
                C(v) => C(mask(v, tw)),
                S(e) => {
                    let r = self.p.extract(e, 0, tw);
                    self.v(r)
                }
                v => v,
            },
            "ptrtoint" | "ptrtoaddr" | "inttoptr" => match x {
                C(v) => C(mask(v, tw)),
                S(e) => {
                    let r = if tw <= fw { self.p.extract(e, 0, tw) } else { self.p.zext(e, tw) };
                    self.v(r)
                }
                v => v,
            },
            "bitcast" => {
                if to.is_agg() {
                    return self.bitcast(from, to, &x);
                }
                x
            }
            "uitofp" | "sitofp" => match x {
                C(v) => {
                    let d = *to == Ty::F64;
                    if k == "uitofp" {
                        C(if d { (v as f64).to_bits() as u128 } else { (v as f32).to_bits() as u128 })
                    } else {
                        let s = sext(v, fw);
                        C(if d { (s as f64).to_bits() as u128 } else { (s as f32).to_bits() as u128 })
                    }
                }
                _ => return na("symbolic float"),
            },
            "fptoui" | "fptosi" => match x {
                C(v) => {
                    let f = tof(*from == Ty::F64, v);
                    C(mask(if k == "fptoui" { f as u128 } else { f as i128 as u128 }, tw))
                }
                _ => return na("symbolic float"),
            },
            "fpext" => match x {
                C(v) => C((f32::from_bits(v as u32) as f64).to_bits() as u128),
                _ => return na("symbolic float"),
            },
            "fptrunc" => match x {
                C(v) => C((f64::from_bits(v as u64) as f32).to_bits() as u128),
                _ => return na("symbolic float"),
            },
            _ => return na(format!("cast {}", k)),
        })
    }
    fn bitcast(&mut self, from: &Ty, to: &Ty, x: &Val) -> R<Val> {
        // vector <-> integer / vector through a flat term
        let flat = match x {
            A(v) => {
                let ew = from.elem(0).width();
                let mut acc: Option<E> = None;
                for e in v.iter().rev() {
                    let t = self.e(e, ew);
                    acc = Some(match acc {
                        None => t,
                        Some(h) => {
                            if self.p.w(h) + ew > 128 {
                                return na("wide bitcast");
                            }
                            self.p.concat(h, t)
                        }
                    });
                }
                acc.unwrap()
            }
            v => self.e(v, from.width()),
        };
        if to.is_agg() {
            let ew = to.elem(0).width();
            let mut out = vec![];
            for i in 0..to.nelem() {
                let t = self.p.extract(flat, i as u32 * ew, ew);
                out.push(self.v(t));
            }
            Ok(A(Rc::new(out)))
        } else {
            Ok(self.v(flat))
        }
    }
    // ------------------------------------------------------------- calls
    fn call(&mut self, st: &mut State, dst: Option<usize>, name: &str, args: &[(Ty, Op)], v: Vec<Val>, rt: &Ty) -> R<Flow> {
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, dst, n, args, v, rt);
        }
        if let Some(n) = name.strip_prefix("nd_") {
            return self.nd(st, dst, n, v);
        }
        macro_rules! conc {
            ($v:expr) => {
                match &$v {
                    C(k) => *k as u64,
                    S(e) => {
                        let f = self.split(st, *e, 64)?;
                        return Ok(Flow::Fork(f));
                    }
                    _ => return na("aggregate argument"),
                }
            };
        }
        if name.contains("7___rustc") {
            if name.ends_with("12___rust_alloc") || name.ends_with("19___rust_alloc_zeroed") {
                let (n, al) = (conc!(v[0]), conc!(v[1]));
                if n > 1 << 28 {
                    return na("huge allocation");
                }
                let a = self.alloc(st, n, al);
                Self::set(st, dst, C(a as u128));
                Self::next(st);
                return Ok(Flow::Go);
            }
            if name.ends_with("14___rust_realloc") {
                let (a, old, al, n) = (conc!(v[0]), conc!(v[1]), conc!(v[2]), conc!(v[3]));
                let b = self.alloc(st, n, al);
                let o = match st.mem.get(&a) {
                    Some(o) => o.clone(),
                    None => return na("realloc of unknown object"),
                };
                {
                    let mem = Rc::make_mut(&mut st.mem);
                    mem.remove(&a);
                    let t = Rc::make_mut(mem.get_mut(&b).unwrap());
                    let k = (old.min(n)) as usize;
                    t.data[..k].copy_from_slice(&o.data[..k]);
                    for (i, s) in o.sym.range(..k as u32) {
                        t.sym.insert(*i, *s);
                    }
                }
                Self::set(st, dst, C(b as u128));
                Self::next(st);
                return Ok(Flow::Go);
            }
            if name.ends_with("14___rust_dealloc") {
                let a = conc!(v[0]);
                Rc::make_mut(&mut st.mem).remove(&a);
                Self::next(st);
                return Ok(Flow::Go);
            }
            if name.contains("___rust_no_alloc_shim") {
                Self::next(st);
                return Ok(Flow::Go);
            }
        }
        if name.ends_with("2io5stdio6__print") || name.ends_with("2io5stdio7__eprint") {
            Self::next(st);
            return Ok(Flow::Go);
        }
        if name.contains("3fmt3num3imp") && name.ends_with("4__fmt") && v.len() == 3 {
            if let S(e) = &v[0] {
                // decimal text of a symbolic integer: a marked raw encoding,
                // understood by the stand-in parsers
                let e = self.p.zext(*e, 64);
                let buf = conc!(v[1]);
                let n = conc!(v[2]);
                if n < 10 {
                    return na("short number buffer");
                }
                self.store_c(st, buf, 1, &C(0xff))?;
                self.store_c(st, buf + 1, 1, &C(0x23))?;
                self.store_c(st, buf + 2, 8, &S(e))?;
                Self::set(st, dst, A(Rc::new(vec![C(buf as u128), C(10)])));
                Self::next(st);
                return Ok(Flow::Go);
            }
        }
        match name {
            "memcmp" | "bcmp" => {
                let (a, b, n) = (conc!(v[0]), conc!(v[1]), conc!(v[2]));
                let mut r = self.p.c(0, 32);
                for k in (0..n).rev() {
                    let x = self.load_c(st, a + k, 1)?;
                    let y = self.load_c(st, b + k, 1)?;
                    let (x, y) = (self.e(&x, 8), self.e(&y, 8));
                    let q = self.p.eq(x, y);
                    let l = self.p.ult(x, y);
                    let (m, o) = (self.p.c(u32::MAX as u128, 32), self.p.c(1, 32));
                    let d = self.p.ite(l, m, o);
                    r = self.p.ite(q, r, d);
                }
                let r = self.v(r);
                Self::set(st, dst, r);
                Self::next(st);
                return Ok(Flow::Go);
            }
            "memcpy" | "memmove" | "memset" => {
                let r = v[0].clone();
                let nm = format!("{}.p0.p0.i64", name);
                Self::set(st, dst, r);
                return self.intrinsic(st, None, &nm, args, v, rt);
            }
            "log2" | "log" | "log10" | "exp" | "pow" | "floor" | "ceil" | "sqrt" | "round" => {
                let x: Vec<f64> = match v.iter().map(|z| if let C(k) = z { Some(f64::from_bits(*k as u64)) } else { None }).collect::<Option<Vec<_>>>() {
                    Some(x) => x,
                    None => return na("symbolic float"),
                };
                let r = match name {
                    "log2" => x[0].log2(),
                    "log" => x[0].ln(),
                    "log10" => x[0].log10(),
                    "exp" => x[0].exp(),
                    "pow" => x[0].powf(x[1]),
                    "floor" => x[0].floor(),
                    "ceil" => x[0].ceil(),
                    "sqrt" => x[0].sqrt(),
                    _ => x[0].round(),
                };
                Self::set(st, dst, C(r.to_bits() as u128));
                Self::next(st);
                return Ok(Flow::Go);
            }
            "abort" | "exit" => return self.panic(st, name),
            _ => {}
        }
        if self.m.noreturn(name) {
            return self.panic(st, name);
        }
        if !self.m.defs.contains_key(name) {
            return na(format!("call of undefined function {} in {}", name, self.whr(st)));
        }
        Self::next(st);
        self.push_frame(st, name, v, dst)?;
        Ok(Flow::Go)
    }
    fn nd(&mut self, st: &mut State, dst: Option<usize>, n: &str, v: Vec<Val>) -> R<Flow> {
        macro_rules! fresh {
            ($w:expr) => {{
                let id = st.tape.len() as u128 + 1;
                let e = match self.fix.get(id as usize - 1) {
                    Some(Some(k)) => self.p.c(*k, $w),
                    _ => self.p.var(id << 8 | $w as u128, $w),
                };
                st.tape.push((e, $w));
                e
            }};
        }
        macro_rules! conc {
            ($v:expr) => {
                match &$v {
                    C(k) => *k as u64,
                    S(e) => {
                        let f = self.split(st, *e, 512)?;
                        return Ok(Flow::Fork(f));
                    }
                    _ => return na("aggregate argument"),
                }
            };
        }
        let r = match n {
            "u8" => S(fresh!(8)),
            "u16" => S(fresh!(16)),
            "u32" => S(fresh!(32)),
            "u64" => S(fresh!(64)),
            "bool" => {
                let e = fresh!(8);
                let b = self.p.extract(e, 0, 1);
                S(b)
            }
            "bits" => {
                // nd_bits(w): a value of w bits
                let w = conc!(v[0]) as u32;
                if w == 0 {
                    C(0)
                } else {
                    let e = fresh!(64);
                    let b = self.p.extract(e, 0, w);
                    S(self.p.zext(b, 64))
                }
            }
            "assume" => {
                match &v[0] {
                    C(0) => return Ok(Flow::Dead),
                    C(_) => {}
                    S(e) => match self.s.check(&self.p, &st.pc, &[*e]) {
                        Some(false) => return Ok(Flow::Dead),
                        r => {
                            if r.is_none() {
                                doubt(st);
                            }
                            self.add_pc(st, *e);
                        }
                    },
                    _ => return na("assume"),
                }
                C(0)
            }
            "check" => {
                self.checks += 1;
                match v[0].clone() {
                    C(0) => {
                        let msg = self.string_at(st, &v[1], &v[2]);
                        return self.violation(st, None, msg);
                    }
                    C(_) => {
                        self.trivial += 1;
                    }
                    S(e) => {
                        let ne = self.p.not(e);
                        let r = self.s.check(&self.p, &st.pc, &[ne]);
                        match r {
                            Some(false) => self.pin(st, e, 1),
                            Some(true) => {
                                let msg = self.string_at(st, &v[1], &v[2]);
                                return self.violation(st, Some(ne), msg);
                            }
                            None => {
                                let msg = self.string_at(st, &v[1], &v[2]);
                                self.undecided.push(msg);
                                if self.undecided.len() > 20 {
                                    return na(format!("too many undecided checks: {}", self.undecided[0]));
                                }
                            }
                        }
                    }
                    _ => return na("check"),
                }
                C(0)
            }
            "possible" => {
                let msg = self.string_at(st, &v[1], &v[2]);
                if self.poss.get(&msg) != Some(&true) {
                    let ok = match &v[0] {
                        C(k) => *k & 1 == 1 && (st.unsure.is_none() || self.s.check(&self.p, &[], &st.pc.clone()) == Some(true)),
                        S(e) => {
                            let e = *e;
                            let mut q = vec![e];
                            if st.unsure.is_some() {
                                q.extend(st.pc.iter());
                            }
                            match self.s.check(&self.p, &st.pc, &q) {
                                Some(b) => b,
                                None => {
                                    self.undecided.push(msg.clone());
                                    true
                                }
                            }
                        }
                        _ => return na("possible"),
                    };
                    self.poss.insert(msg, ok);
                }
                C(0)
            }
            "reach" => {
                let s = self.string_at(st, &v[0], &v[1]);
                self.marks.insert(s);
                C(0)
            }
            "panic_ok" => {
                st.panic_ok = conc!(v[0]) != 0;
                C(0)
            }
            "stop" => {
                self.paths += 1;
                return Ok(Flow::Dead);
            }
            "split" => match &v[0] {
                C(k) => C(*k),
                S(e) => {
                    let f = self.split(st, *e, 512)?;
                    return Ok(Flow::Keep(f));
                }
                _ => return na("split"),
            },
            "uf2" => {
                let sym = conc!(v[0]);
                match (&v[1], &v[2]) {
                    (C(a), C(b)) => C(mix(sym, *a as u64, *b as u64) as u128),
                    (a, b) => {
                        let (x, y) = (self.e(a, 64), self.e(b, 64));
                        let (x, y) = if sym < 16 && x > y { (y, x) } else { (x, y) };
                        S(self.p.uf(1 << 20 | sym as u128, 64, x, y))
                    }
                }
            }
            "map_set" => {
                let (m, k) = (conc!(v[0]), conc!(v[1]));
                Rc::make_mut(&mut st.maps).insert((m, k), v[2].clone());
                C(0)
            }
            "map_get" => {
                let m = conc!(v[0]);
                match &v[1] {
                    C(k) => st.maps.get(&(m, *k as u64)).cloned().unwrap_or(v[2].clone()),
                    S(e) => {
                        let mut r = v[2].clone();
                        let ents: Vec<(u64, Val)> = st.maps.range((m, 0)..=(m, u64::MAX)).map(|(k, x)| (k.1, x.clone())).collect();
                        for (k, x) in ents {
                            let kk = self.p.c(k as u128, 64);
                            let q = self.p.eq(*e, kk);
                            if self.p.cv(q) == Some(0) {
                                continue;
                            }
                            r = self.ite(q, 64, &x, &r);
                        }
                        r
                    }
                    _ => return na("map_get"),
                }
            }
            "arr_new" => {
                let kind = conc!(v[0]);
                let sym = if kind == 0 { 0 } else { st.arrs.len() as u32 + 1 };
                st.arrs.push(Arr { sym, conc: Rc::new(Default::default()), top: Rc::new(vec![]) });
                C(st.arrs.len() as u128 - 1)
            }
            "arr_get" => {
                let id = conc!(v[0]) as usize;
                self.arr_get(st, id, &v[1])?
            }
            "arr_set" => {
                let id = conc!(v[0]) as usize;
                self.arr_set(st, id, &v[1].clone(), v[2].clone());
                C(0)
            }
            "known" => C(matches!(v[0], C(_)) as u128),
            "max" => match &v[0] {
                C(k) => C(*k),
                S(e) => C(self.p.upper(*e)),
                _ => return na("max"),
            },
            "same" => {
                let (a, b, k) = (conc!(v[0]), conc!(v[1]), conc!(v[2]));
                let mut r = true;
                for i in 0..k {
                    let x = self.load_c(st, a + i, 1)?;
                    let y = self.load_c(st, b + i, 1)?;
                    let (x, y) = (self.e(&x, 8), self.e(&y, 8));
                    if x != y {
                        r = false;
                        break;
                    }
                }
                // the native run takes the same decision
                let e = self.p.c(r as u128, 8);
                st.tape.push((e, 8));
                C(r as u128)
            }
            "valid" | "certain" => {
                let r = match &v[0] {
                    C(k) => *k & 1 == 1,
                    S(e) => {
                        let ne = self.p.not(*e);
                        self.s.check(&self.p, &st.pc, &[ne]) == Some(false)
                    }
                    _ => false,
                };
                if n == "valid" {
                    let e = self.p.c(r as u128, 8);
                    st.tape.push((e, 8));
                }
                C(r as u128)
            }
            "suppose" => {
                match &v[0] {
                    C(0) => return Ok(Flow::Dead),
                    C(_) => {}
                    S(e) => {
                        let e = *e;
                        self.add_pc(st, e);
                        doubt(st);
                    }
                    _ => return na("suppose"),
                }
                C(0)
            }
            "unsupported" => {
                let may = match &v[0] {
                    C(k) => *k & 1 == 1,
                    S(e) => self.s.check(&self.p, &st.pc, &[*e]) != Some(false),
                    _ => true,
                };
                if may {
                    let m = self.string_at(st, &v[1], &v[2]);
                    return na(format!("unsupported: {} in {}", m, self.whr(st)));
                }
                C(0)
            }
            "log" => {
                eprintln!("log {:?} {}", v[0], match &v[0] { S(e) => format!("{:?}", self.p.n[*e as usize]), _ => String::new() });
                C(0)
            }
            _ => return na(format!("nd_{}", n)),
        };
        Self::set(st, dst, r);
        Self::next(st);
        Ok(Flow::Go)
    }
    fn intrinsic(&mut self, st: &mut State, dst: Option<usize>, n: &str, args: &[(Ty, Op)], v: Vec<Val>, rt: &Ty) -> R<Flow> {
        macro_rules! conc {
            ($v:expr) => {
                match &$v {
                    C(k) => *k as u64,
                    S(e) => {
                        let f = self.split(st, *e, 64)?;
                        return Ok(Flow::Fork(f));
                    }
                    _ => return na("aggregate argument"),
                }
            };
        }
        let w = args.get(0).map(|a| a.0.width()).unwrap_or(0);
        let base = n.split('.').next().unwrap();
        let r = match base {
            "lifetime" | "experimental" | "dbg" | "donothing" | "prefetch" | "var" | "assume" | "sideeffect" | "invariant" | "stackrestore" => C(0),
            "stacksave" => C(0),
            "expect" | "threadlocal" | "launder" | "strip" | "annotation" | "ptr" => v[0].clone(),
            "is" => C(0),
            "objectsize" => C(u64::MAX as u128),
            "trap" | "ubsantrap" | "debugtrap" => return self.panic(st, "trap"),
            "memcpy" | "memmove" => {
                let n = conc!(v[2]);
                if n == 0 {
                    Self::next(st);
                    return Ok(Flow::Go);
                }
                let (d, s) = (conc!(v[0]), conc!(v[1]));
                let (sb, so) = match self.find(st, s) {
                    Some(x) => x,
                    None => return na(format!("memcpy from {:#x} in {}", s, self.whr(st))),
                };
                let off = (s - sb) as usize;
                if off + n as usize > so.data.len() {
                    return na("memcpy past the end of the source");
                }
                let data = so.data[off..off + n as usize].to_vec();
                let sy: Vec<(u32, (E, u8))> = so.sym.range(off as u32..(off as u64 + n) as u32).map(|(k, x)| (*k - off as u32, *x)).collect();
                drop(so);
                let (db, dob) = match self.find(st, d) {
                    Some(x) => x,
                    None => return na("memcpy to nowhere"),
                };
                let doff = (d - db) as usize;
                if doff + n as usize > dob.data.len() {
                    return na("memcpy past the end of the target");
                }
                let mem = Rc::make_mut(&mut st.mem);
                if !mem.contains_key(&db) {
                    mem.insert(db, dob);
                } else {
                    drop(dob);
                }
                let o = Rc::make_mut(mem.get_mut(&db).unwrap());
                o.data[doff..doff + n as usize].copy_from_slice(&data);
                if !o.sym.is_empty() {
                    let ks: Vec<u32> = o.sym.range(doff as u32..(doff as u64 + n) as u32).map(|x| *x.0).collect();
                    for k in ks {
                        o.sym.remove(&k);
                    }
                }
                for (k, x) in sy {
                    o.sym.insert(k + doff as u32, x);
                }
                C(0)
            }
            "memset" => {
                let n = conc!(v[2]);
                let d = conc!(v[0]);
                for k in 0..n {
                    self.store_c(st, d + k, 1, &v[1])?;
                }
                C(0)
            }
            "umax" | "umin" | "smax" | "smin" => {
                let pd = match base {
                    "umax" => Pred::Ugt,
                    "umin" => Pred::Ult,
                    "smax" => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.icmp(pd, w, &v[0], &v[1]);
                match c {
                    C(1) => v[0].clone(),
                    C(_) => v[1].clone(),
                    S(e) => self.ite(e, w, &v[0], &v[1]),
                    _ => return na("minmax"),
                }
            }
            "abs" => {
                let z = C(0);
                let c = self.icmp(Pred::Slt, w, &v[0], &z);
                let ng = self.bin(Bin::Sub, w, &z, &v[0])?;
                match c {
                    C(1) => ng,
                    C(_) => v[0].clone(),
                    S(e) => self.ite(e, w, &ng, &v[0]),
                    _ => return na("abs"),
                }
            }
            "ucmp" | "scmp" => {
                let pd = if base == "ucmp" { Pred::Ult } else { Pred::Slt };
                let rw = rt.width();
                let l = self.icmp(pd, w, &v[0], &v[1]);
                let q = self.icmp(Pred::Eq, w, &v[0], &v[1]);
                let (l, q) = (self.e(&l, 1), self.e(&q, 1));
                let (m, z, o) = (self.p.c(u128::MAX, rw), self.p.c(0, rw), self.p.c(1, rw));
                let t = self.p.ite(q, z, o);
                let t = self.p.ite(l, m, t);
                self.v(t)
            }
            "usub" | "uadd" | "umul" | "sadd" | "ssub" | "smul" => {
                let op = match &base[1..] {
                    "sub" => Bin::Sub,
                    "add" => Bin::Add,
                    _ => Bin::Mul,
                };
                let signed = base.starts_with('s');
                let r = self.bin(op, w, &v[0], &v[1])?;
                if n.contains(".sat.") {
                    if signed {
                        return na("signed saturation");
                    }
                    let c = if op == Bin::Sub { self.icmp(Pred::Ult, w, &v[0], &v[1]) } else { self.icmp(Pred::Ult, w, &r, &v[0]) };
                    let lim = if op == Bin::Sub { C(0) } else { C(mask(u128::MAX, w)) };
                    match c {
                        C(1) => lim,
                        C(_) => r,
                        S(e) => self.ite(e, w, &lim, &r),
                        _ => return na("sat"),
                    }
                } else {
                    let o = if !signed {
                        match op {
                            Bin::Sub => self.icmp(Pred::Ult, w, &v[0], &v[1]),
                            Bin::Add => self.icmp(Pred::Ult, w, &r, &v[0]),
                            _ => self.mul_over(w, &v[0], &v[1], false)?,
                        }
                    } else {
                        match op {
                            Bin::Mul => self.mul_over(w, &v[0], &v[1], true)?,
                            _ => {
                                let (a, b) = (self.e(&v[0], w), self.e(&v[1], w));
                                let (a, b) = (self.p.sext_to(a, w + 1), self.p.sext_to(b, w + 1));
                                let full = self.p.bin(op, a, b);
                                let re = self.e(&r, w);
                                let back = self.p.sext_to(re, w + 1);
                                let q = self.p.eq(full, back);
                                let nq = self.p.not(q);
                                self.v(nq)
                            }
                        }
                    };
                    // interval knowledge for additions that cannot wrap
                    let o = match (&o, op, signed) {
                        (S(_), Bin::Add, false) => {
                            let (a, b) = (self.e(&v[0], w), self.e(&v[1], w));
                            match self.p.i[a as usize].hi.checked_add(self.p.i[b as usize].hi) {
                                Some(h) if h <= mask(u128::MAX, w) => C(0),
                                _ => o,
                            }
                        }
                        _ => o,
                    };
                    A(Rc::new(vec![r, o]))
                }
            }
            "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" => match &v[0] {
                C(x) => C(match base {
                    "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
                    "cttz" => {
                        if *x == 0 {
                            w as u128
                        } else {
                            x.trailing_zeros() as u128
                        }
                    }
                    "ctpop" => x.count_ones() as u128,
                    "bswap" => x.swap_bytes() >> (128 - w),
                    _ => x.reverse_bits() >> (128 - w),
                }),
                S(e) => {
                    let e = *e;
                    match base {
                        "ctpop" => {
                            let mut acc = self.p.c(0, w);
                            for i in 0..w {
                                let b = self.p.extract(e, i, 1);
                                let z = self.p.zext(b, w);
                                acc = self.p.bin(Bin::Add, acc, z);
                            }
                            self.v(acc)
                        }
                        "ctlz" | "cttz" => {
                            let mut acc = self.p.c(w as u128, w);
                            for i in 0..w {
                                let pos = if base == "ctlz" { i } else { w - 1 - i };
                                let b = self.p.extract(e, pos, 1);
                                let k = self.p.c(if base == "ctlz" { w - 1 - pos } else { pos } as u128, w);
                                acc = self.p.ite(b, k, acc);
                            }
                            self.v(acc)
                        }
                        "bswap" => {
                            let mut acc: Option<E> = None;
                            for i in 0..w / 8 {
                                let b = self.p.extract(e, 8 * i, 8);
                                acc = Some(match acc {
                                    None => b,
                                    Some(h) => self.p.concat(h, b),
                                });
                            }
                            self.v(acc.unwrap())
                        }
                        _ => return na("symbolic bitreverse"),
                    }
                }
                _ => return na("vector intrinsic"),
            },
            "fshl" | "fshr" => {
                let s = match &v[2] {
                    C(k) => (*k % w as u128) as u32,
                    _ => return na("symbolic funnel shift"),
                };
                let s = if base == "fshl" { s } else { (w - s) % w };
                if base == "fshr" && (if let C(k) = &v[2] { *k % w as u128 == 0 } else { false }) {
                    v[1].clone()
                } else if s == 0 {
                    v[0].clone()
                } else {
                    let a = self.bin(Bin::Shl, w, &v[0], &C(s as u128))?;
                    let b = self.bin(Bin::LShr, w, &v[1], &C((w - s) as u128))?;
                    self.bin(Bin::Or, w, &a, &b)?
                }
            }
            "fabs" | "floor" | "ceil" | "sqrt" | "log2" | "log" | "log10" | "pow" | "powi" | "exp" | "exp2" | "round" | "trunc" | "rint" | "roundeven" | "minnum" | "maxnum" | "copysign" | "fptoui" | "fptosi" | "fma" | "fmuladd" => {
                let d = args[0].0 == Ty::F64;
                let mut x = vec![];
                for (i, z) in v.iter().enumerate() {
                    match z {
                        C(k) => x.push(if base == "powi" && i == 1 { sext(*k, 32) as f64 } else { tof(d, *k) }),
                        _ => return na("symbolic float"),
                    }
                }
                if base == "fptoui" || base == "fptosi" {
                    let tw = rt.width();
                    let t = x[0];
                    C(mask(
                        if base == "fptoui" {
                            (t as u128).min(mask(u128::MAX, tw))
                        } else {
                            let lim = 1i128 << (tw - 1);
                            (t as i128).clamp(-lim, lim - 1) as u128
                        },
                        tw,
                    ))
                } else {
                    let r = match base {
                        "fabs" => x[0].abs(),
                        "floor" => x[0].floor(),
                        "ceil" => x[0].ceil(),
                        "sqrt" => x[0].sqrt(),
                        "log2" => x[0].log2(),
                        "log" => x[0].ln(),
                        "log10" => x[0].log10(),
                        "pow" => x[0].powf(x[1]),
                        "powi" => x[0].powi(x[1] as i32),
                        "exp" => x[0].exp(),
                        "exp2" => x[0].exp2(),
                        "round" => x[0].round(),
                        "trunc" => x[0].trunc(),
                        "rint" | "roundeven" => x[0].round_ties_even(),
                        "minnum" => x[0].min(x[1]),
                        "maxnum" => x[0].max(x[1]),
                        "copysign" => x[0].copysign(x[1]),
                        _ => x[0].mul_add(x[1], x[2]),
                    };
                    C(fromf(d, r))
                }
            }
            _ => return na(format!("intrinsic {}", n)),
        };
        Self::set(st, dst, r);
        Self::next(st);
        Ok(Flow::Go)
    }
    fn mul_over(&mut self, w: u32, a: &Val, b: &Val, signed: bool) -> R<Val> {
        if let (C(x), C(y)) = (a, b) {
            return Ok(C(if signed {
                let (x, y) = (sext(*x, w), sext(*y, w));
                match x.checked_mul(y) {
                    None => 1,
                    Some(r) => (sext(r as u128, w) != r) as u128,
                }
            } else {
                match x.checked_mul(*y) {
                    None => 1,
                    Some(r) => (mask(r, w) != r) as u128,
                }
            }));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        if !signed {
            if let Some(h) = self.p.i[x as usize].hi.checked_mul(self.p.i[y as usize].hi) {
                if h <= mask(u128::MAX, w) {
                    return Ok(C(0));
                }
            }
        }
        if w > 64 {
            return na("wide symbolic multiplication");
        }
        if signed {
            let (x, y) = (self.p.sext_to(x, 2 * w), self.p.sext_to(y, 2 * w));
            let m = self.p.bin(Bin::Mul, x, y);
            let l = self.p.extract(m, 0, w);
            let back = self.p.sext_to(l, 2 * w);
            let q = self.p.eq(m, back);
            let n = self.p.not(q);
            return Ok(self.v(n));
        }
        let (x, y) = (self.p.zext(x, 2 * w), self.p.zext(y, 2 * w));
        let m = self.p.bin(Bin::Mul, x, y);
        let h = self.p.extract(m, w, w);
        let z = self.p.c(0, w);
        let q = self.p.eq(h, z);
        let n = self.p.not(q);
        Ok(self.v(n))
    }
}
pub fn mix(sym: u64, x: u64, y: u64) -> u64 {
    if sym == 1 {
        return x.wrapping_mul(y);
    }
    let (x, y) = if sym < 16 && x > y { (y, x) } else { (x, y) };
    let mut h = x.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ y.rotate_left(31).wrapping_mul(0xC2B2_AE3D_27D4_EB4F) ^ sym.wrapping_mul(0x1656_67B1_9E37_79F9);
    h ^= h >> 29;
    h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    h ^= h >> 32;
    h
}
fn tof(d: bool, x: u128) -> f64 {
    if d {
        f64::from_bits(x as u64)
    } else {
        f32::from_bits(x as u32) as f64
    }
}
fn fromf(d: bool, x: f64) -> u128 {
    if d {
        x.to_bits() as u128
    } else {
        (x as f32).to_bits() as u128
    }
}
fn fbin(o: char, d: bool, x: u128, y: u128) -> u128 {
    if d {
        let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        (match o {
            'a' => a + b,
            's' => a - b,
            'm' => a * b,
            'd' => a / b,
            _ => a % b,
        })
        .to_bits() as u128
    } else {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        (match o {
            'a' => a + b,
            's' => a - b,
            'm' => a * b,
            'd' => a / b,
            _ => a % b,
        })
        .to_bits() as u128
    }
}
fn fcmp(p: &str, d: bool, x: u128, y: u128) -> bool {
    let (a, b) = (tof(d, x), tof(d, y));
    let un = a.is_nan() || b.is_nan();
    match p {
        "true" => true,
        "false" => false,
        "ord" => !un,
        "uno" => un,
        _ => {
            let r = match &p[1..] {
                "eq" => a == b,
                "ne" => a != b && !un,
                "gt" => a > b,
                "ge" => a >= b,
                "lt" => a < b,
                "le" => a <= b,
                _ => false,
            };
            if p.starts_with('u') {
                un || r
            } else {
                r && !un
            }
        }
    }
}
