//! Textual LLVM IR: module index, lazily parsed functions, globals.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    Void,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Box<Ty>),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.store_size(),
            },
            Ty::Struct(..) => self.size(),
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Vec(..) => self.store_size(),
            _ => {
                let a = self.align();
                (self.store_size() + a - 1) / a * a
            }
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => i * t.size(),
            Ty::Vec(_, t) => i * t.store_size(),
            _ => 0,
        }
    }
    pub fn elem(&self, i: u64) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i as usize].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => Ty::Other,
        }
    }
    pub fn nelem(&self) -> u64 {
        match self {
            Ty::Struct(f, _) => f.len() as u64,
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            _ => 0,
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..))
    }
}

/// a constant operand
#[derive(Clone, Debug)]
pub enum Cst {
    I(u128),
    Agg(Vec<Cst>),
}
#[derive(Clone, Debug)]
pub enum Op {
    R(usize),
    C(Cst),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Named(Rc<str>),
    Ptr(Op),
    Asm,
}
#[derive(Clone, Debug)]
pub enum Inst {
    Bin(Bin, u32, Op, Op),
    VBin(Bin, Ty, Op, Op),
    FBin(char, bool, Op, Op),
    FNeg(bool, Op),
    FCmp(String, bool, Op, Op),
    ICmp(Pred, u32, Op, Op),
    VICmp(Pred, Ty, Op, Op),
    Cast(String, Ty, Ty, Op),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Gep(Op, i64, Vec<(Op, u32, u64)>),
    Select(Ty, Op, Op, Op),
    Copy(Op),
    Alloca(u64, u64),
    Extract(Op, Vec<u64>),
    Insert(Op, Op, Vec<u64>),
    ExtractElem(Op, Op),
    InsertElem(Op, Op, Op),
    Shuffle(u64, Op, Op, Vec<u64>),
    Call(Callee, Vec<(Ty, Op)>, Ty),
    Rmw(String, Ty, Op, Op),
    CmpXchg(Ty, Op, Op, Op),
    Br(usize),
    CondBr(Op, usize, usize),
    Switch(u32, Op, usize, Vec<(u128, usize)>),
    Ret(Option<Op>),
    Unreachable,
    Nop,
    Bad(String),
}
pub struct Block {
    pub name: String,
    pub phis: Vec<(usize, Vec<(usize, Op)>)>,
    pub insts: Vec<(Option<usize>, Inst)>,
}
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<usize>,
    pub nregs: usize,
    /// type per register; None = never used
    pub regty: Vec<Option<Ty>>,
    pub blocks: Vec<Block>,
    /// immediate post-dominator per block; None = function exit
    pub ipdom: Vec<Option<usize>>,
    /// a small acyclic region between the block and its post-dominator, without
    /// calls (2) or with (1)
    pub light: Vec<u8>,
    /// the block can reach a return
    pub exits: Vec<bool>,
}

pub struct Global {
    pub line: String,
    pub addr: u64,
}
pub struct Module {
    pub text: &'static str,
    pub defs: HashMap<&'static str, (usize, usize)>,
    pub header: HashMap<&'static str, &'static str>,
    pub globals: HashMap<&'static str, &'static str>,
    pub alias: HashMap<&'static str, &'static str>,
    pub types: HashMap<&'static str, &'static str>,
    pub noreturn_groups: Vec<String>,
    /// address assignment (functions and globals share one space)
    pub addr: HashMap<String, u64>,
    pub by_addr: std::collections::BTreeMap<u64, String>,
    next: u64,
    pub funcs: HashMap<String, &'static Func>,
}

fn tokenize(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
            i += 1;
            continue;
        }
        if c == b';' {
            // comment until end of line
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        let st = i;
        match c {
            b'"' => {
                i += 1;
                while b[i] != b'"' {
                    i += 1;
                }
                i += 1;
                v.push(&s[st..i]);
            }
            b'%' | b'@' | b'!' | b'#' | b'$' => {
                i += 1;
                if i < b.len() && b[i] == b'"' {
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    i += 1;
                } else {
                    while i < b.len() && (b[i].is_ascii_alphanumeric() || b"._$-".contains(&b[i])) {
                        i += 1;
                    }
                }
                v.push(&s[st..i]);
            }
            b'(' | b')' | b'[' | b']' | b'{' | b'}' | b'<' | b'>' | b',' | b'=' | b'*' | b':' | b'|' => {
                i += 1;
                v.push(&s[st..i]);
            }
            b'.' if s[i..].starts_with("...") => {
                i += 3;
                v.push(&s[st..i]);
            }
            _ => {
                if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' {
                    i += 2;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    i += 1;
                } else {
                    while i < b.len() && (b[i].is_ascii_alphanumeric() || b"._-+$".contains(&b[i])) {
                        i += 1;
                    }
                    if i == st {
                        i += 1;
                    }
                }
                v.push(&s[st..i]);
            }
        }
    }
    v
}

pub struct P<'a> {
    t: Vec<&'a str>,
    i: usize,
}
impl<'a> P<'a> {
    fn new(s: &'a str) -> Self {
        P { t: tokenize(s), i: 0 }
    }
    fn peek(&self) -> &'a str {
        self.t.get(self.i).copied().unwrap_or("")
    }
    fn peek2(&self) -> &'a str {
        self.t.get(self.i + 1).copied().unwrap_or("")
    }
    fn next(&mut self) -> &'a str {
        let r = self.peek();
        self.i += 1;
        r
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.peek() == s {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, s: &str) -> Result<(), String> {
        if self.eat(s) {
            Ok(())
        } else {
            Err(format!("expected {} got {} in {:?}", s, self.peek(), self.t.join(" ")))
        }
    }
    fn skip_parens(&mut self) {
        if self.peek() == "(" {
            let mut d = 0;
            loop {
                let t = self.next();
                if t == "(" {
                    d += 1
                } else if t == ")" {
                    d -= 1;
                    if d == 0 {
                        break;
                    }
                } else if t.is_empty() {
                    break;
                }
            }
        }
    }
    fn at_type(&self) -> bool {
        let t = self.peek();
        t == "ptr" || t == "void" || t == "float" || t == "double" || t == "[" || t == "{" || t == "<" || t.starts_with('%') || t == "metadata" || t == "half"
            || t == "x86_fp80" || t == "token"
            || (t.starts_with('i') && t.len() > 1 && t[1..].bytes().all(|c| c.is_ascii_digit()))
    }
    /// skips parameter / return attributes up to the next type or value
    fn skip_attrs_to_type(&mut self) {
        while !self.at_type() && !self.peek().is_empty() {
            self.next();
            if self.peek() == "(" {
                self.skip_parens()
            }
            if self.eat("=") {
                self.next();
            }
        }
    }
}
fn is_value_kw(t: &str) -> bool {
    matches!(t, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "add" | "sub" | "xor" | "trunc" | "splat" | "none" | "asm")
        || t.starts_with("c\"")
}
fn is_value_start(t: &str) -> bool {
    if t.is_empty() {
        return false;
    }
    let c = t.as_bytes()[0];
    c == b'%' || c == b'@' || c == b'[' || c == b'{' || c == b'<' || c == b'-' || c.is_ascii_digit() || is_value_kw(t)
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ll").into_boxed_str());
        let mut m = Module {
            text,
            defs: HashMap::new(),
            header: HashMap::new(),
            globals: HashMap::new(),
            alias: HashMap::new(),
            types: HashMap::new(),
            noreturn_groups: vec![],
            addr: HashMap::new(),
            by_addr: Default::default(),
            next: 0x10000,
            funcs: HashMap::new(),
        };
        let mut pos = 0;
        let mut cur: Option<(&'static str, usize)> = None;
        for line in text.split_inclusive('\n') {
            let start = pos;
            pos += line.len();
            let l = line.trim_end();
            if let Some((n, s)) = cur {
                if l == "}" {
                    m.defs.insert(n, (s, start));
                    cur = None;
                }
                continue;
            }
            if l.starts_with("define ") || l.starts_with("declare ") {
                let n = name_in(l);
                m.header.insert(n, l);
                if l.starts_with("define ") {
                    cur = Some((n, pos));
                }
            } else if l.starts_with('@') {
                let n = name_in(l);
                let rest = &l[l.find(" = ").unwrap() + 3..];
                let head = &rest[..rest.len().min(120)];
                if head.split(' ').any(|w| w == "alias") {
                    let a = rest.rfind("ptr @").map(|k| name_in(&rest[k + 4..])).unwrap_or("");
                    m.alias.insert(n, a);
                } else {
                    m.globals.insert(n, rest);
                }
            } else if l.starts_with("attributes #") {
                if l.contains(" noreturn ") {
                    m.noreturn_groups.push(l.split(' ').nth(1).unwrap().to_string());
                }
            } else if l.starts_with('%') && l.contains(" = type ") {
                let k = l.find(" = ").unwrap();
                m.types.insert(&l[..k], &l[k + 8..]);
            }
        }
        m
    }
    pub fn noreturn(&self, n: &str) -> bool {
        match self.header.get(n) {
            None => false,
            Some(h) => {
                let k = h.rfind(')').unwrap_or(0);
                // attributes follow the parameter list
                let tail = after_params(h);
                let _ = k;
                tail.split_whitespace().any(|w| w == "noreturn" || (w.starts_with('#') && self.noreturn_groups.iter().any(|g| g == w)))
            }
        }
    }
    pub fn addr_of(&mut self, n: &str) -> u64 {
        let n = self.alias.get(n).copied().unwrap_or(n);
        if let Some(a) = self.addr.get(n) {
            return *a;
        }
        let size = if self.header.contains_key(n) { 16 } else { self.global_size(n).max(1) };
        let a = (self.next + 63) / 64 * 64;
        self.next = a + size + 32;
        self.addr.insert(n.to_string(), a);
        self.by_addr.insert(a, n.to_string());
        a
    }
    fn global_parse(&self, n: &str) -> Option<(Ty, P<'static>, bool)> {
        let l: &'static str = self.globals.get(n)?;
        let mut p = P::new(l);
        let konst;
        loop {
            let t = p.next();
            if t == "global" {
                konst = false;
                break;
            }
            if t == "constant" {
                konst = true;
                break;
            }
            if t.is_empty() {
                return None;
            }
            if p.peek() == "(" {
                p.skip_parens();
            }
        }
        let ty = self.ty(&mut p).ok()?;
        Some((ty, p, konst))
    }
    fn global_size(&self, n: &str) -> u64 {
        self.global_parse(n).map(|x| x.0.size()).unwrap_or(8)
    }
    pub fn global_bytes(&mut self, n: &str) -> Option<Vec<u8>> {
        let (ty, mut p, _) = self.global_parse(n)?;
        let mut out = vec![0u8; ty.size() as usize];
        if is_value_start(p.peek()) {
            let c = self.cst(&mut p, &ty).ok()?;
            write_cst(&ty, &c, &mut out, 0);
        }
        Some(out)
    }
    pub fn ty(&self, p: &mut P) -> Result<Ty, String> {
        let t = p.next();
        let r = match t {
            "ptr" => {
                if p.peek() == "addrspace" {
                    p.next();
                    p.skip_parens();
                }
                Ty::Ptr
            }
            "void" => Ty::Void,
            "float" => Ty::F32,
            "double" => Ty::F64,
            "metadata" | "label" | "token" | "half" | "x86_fp80" => Ty::Other,
            "[" => {
                let n: u64 = p.next().parse().map_err(|_| "arr")?;
                p.expect("x")?;
                let e = self.ty(p)?;
                p.expect("]")?;
                Ty::Arr(n, Box::new(e))
            }
            "{" => {
                let mut f = vec![];
                while !p.eat("}") {
                    f.push(self.ty(p)?);
                    p.eat(",");
                }
                Ty::Struct(f, false)
            }
            "<" => {
                if p.eat("{") {
                    let mut f = vec![];
                    while !p.eat("}") {
                        f.push(self.ty(p)?);
                        p.eat(",");
                    }
                    p.expect(">")?;
                    Ty::Struct(f, true)
                } else {
                    let n: u64 = p.next().parse().map_err(|_| "vec")?;
                    p.expect("x")?;
                    let e = self.ty(p)?;
                    p.expect(">")?;
                    Ty::Vec(n, Box::new(e))
                }
            }
            _ => {
                if t.starts_with('i') && t[1..].bytes().all(|c| c.is_ascii_digit()) && t.len() > 1 {
                    Ty::Int(t[1..].parse().unwrap())
                } else if t.starts_with('%') {
                    match self.types.get(t) {
                        Some(s) => {
                            let mut q = P::new(s);
                            self.ty(&mut q)?
                        }
                        None => return Err(format!("type {}", t)),
                    }
                } else {
                    return Err(format!("type {}", t));
                }
            }
        };
        Ok(r)
    }
    fn zero(ty: &Ty) -> Cst {
        if ty.is_agg() {
            Cst::Agg((0..ty.nelem()).map(|i| Self::zero(&ty.elem(i))).collect())
        } else {
            Cst::I(0)
        }
    }
    fn cst(&mut self, p: &mut P, ty: &Ty) -> Result<Cst, String> {
        let t = p.next();
        Ok(match t {
            "true" => Cst::I(1),
            "false" | "null" | "none" => Cst::I(0),
            "undef" | "poison" | "zeroinitializer" => Self::zero(ty),
            "[" | "{" => {
                let close = if t == "[" { "]" } else { "}" };
                let mut v = vec![];
                while !p.eat(close) {
                    let et = self.ty(p)?;
                    v.push(self.cst(p, &et)?);
                    p.eat(",");
                }
                Cst::Agg(v)
            }
            "<" => {
                let packed = p.eat("{");
                let close = if packed { "}" } else { ">" };
                let mut v = vec![];
                while !p.eat(close) {
                    let et = self.ty(p)?;
                    v.push(self.cst(p, &et)?);
                    p.eat(",");
                }
                if packed {
                    p.expect(">")?;
                }
                Cst::Agg(v)
            }
            "splat" => {
                p.expect("(")?;
                let et = self.ty(p)?;
                let c = self.cst(p, &et)?;
                p.expect(")")?;
                Cst::Agg((0..ty.nelem()).map(|_| c.clone()).collect())
            }
            "getelementptr" => {
                while p.peek() != "(" {
                    p.next();
                    if p.peek() == "(" && matches!(p.t[p.i - 1], "inrange") {
                        p.skip_parens();
                    }
                }
                p.expect("(")?;
                let et = self.ty(p)?;
                p.expect(",")?;
                let bt = self.ty(p)?;
                let b = self.cst(p, &bt)?;
                let mut a = match b {
                    Cst::I(x) => x as u64,
                    _ => return Err("gep base".into()),
                };
                let mut cur = et;
                let mut first = true;
                while p.eat(",") {
                    p.eat("inrange");
                    let it = self.ty(p)?;
                    let c = match self.cst(p, &it)? {
                        Cst::I(x) => sext(x, it.width()),
                        _ => return Err("gep idx".into()),
                    };
                    if first {
                        a = a.wrapping_add((c as u64).wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        a = a.wrapping_add(cur.field_off(c as u64));
                        cur = cur.elem(c as u64);
                    }
                }
                p.expect(")")?;
                Cst::I(a as u128)
            }
            "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" => {
                p.expect("(")?;
                let st = self.ty(p)?;
                let c = self.cst(p, &st)?;
                p.expect("to")?;
                let tt = self.ty(p)?;
                p.expect(")")?;
                match c {
                    Cst::I(x) => Cst::I(mask(x, tt.width())),
                    c => c,
                }
            }
            "add" | "sub" | "xor" => {
                while p.peek() != "(" {
                    p.next();
                }
                p.expect("(")?;
                let t1 = self.ty(p)?;
                let a = self.cst(p, &t1)?;
                p.expect(",")?;
                let t2 = self.ty(p)?;
                let b = self.cst(p, &t2)?;
                p.expect(")")?;
                match (a, b) {
                    (Cst::I(a), Cst::I(b)) => Cst::I(mask(
                        match t {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            _ => a ^ b,
                        },
                        t1.width(),
                    )),
                    _ => return Err("constexpr".into()),
                }
            }
            _ => {
                if t.starts_with('@') {
                    let n = unquote(&t[1..]);
                    let a = self.addr_of(&n);
                    Cst::I(a as u128)
                } else if t.starts_with("c\"") {
                    let s = &t.as_bytes()[2..t.len() - 1];
                    let mut v = vec![];
                    let mut i = 0;
                    while i < s.len() {
                        if s[i] == b'\\' {
                            if s[i + 1] == b'\\' {
                                v.push(Cst::I(b'\\' as u128));
                                i += 2;
                            } else {
                                let h = u8::from_str_radix(std::str::from_utf8(&s[i + 1..i + 3]).unwrap(), 16).unwrap();
                                v.push(Cst::I(h as u128));
                                i += 3;
                            }
                        } else {
                            v.push(Cst::I(s[i] as u128));
                            i += 1;
                        }
                    }
                    Cst::Agg(v)
                } else {
                    match ty {
                        Ty::F32 | Ty::F64 => {
                            let x = parse_float(t).ok_or(format!("float {}", t))?;
                            if *ty == Ty::F32 {
                                Cst::I((x as f32).to_bits() as u128)
                            } else {
                                Cst::I(x.to_bits() as u128)
                            }
                        }
                        _ => {
                            let v: i128 = if let Ok(v) = t.parse::<i128>() {
                                v
                            } else if let Ok(v) = t.parse::<u128>() {
                                v as i128
                            } else {
                                return Err(format!("const {} of {:?}", t, ty));
                            };
                            Cst::I(mask(v as u128, ty.width()))
                        }
                    }
                }
            }
        })
    }
    fn val(&mut self, p: &mut P, ty: &Ty, rg: &mut Regs) -> Result<Op, String> {
        let t = p.peek();
        if t.starts_with('%') {
            p.next();
            let k = rg.get(t);
            rg.ty.entry(k).or_insert_with(|| ty.clone());
            return Ok(Op::R(k));
        }
        Ok(Op::C(self.cst(p, ty)?))
    }
    fn tval(&mut self, p: &mut P, rg: &mut Regs) -> Result<(Ty, Op), String> {
        let ty = self.ty(p)?;
        let v = self.val(p, &ty, rg)?;
        Ok((ty, v))
    }
    pub fn func(&mut self, name: &str) -> Result<&'static Func, String> {
        let name = self.alias.get(name).copied().unwrap_or(name);
        if let Some(f) = self.funcs.get(name) {
            return Ok(f);
        }
        let f: &'static Func = Box::leak(Box::new(self.parse_func(name)?));
        self.funcs.insert(name.to_string(), f);
        Ok(f)
    }
    fn parse_func(&mut self, name: &str) -> Result<Func, String> {
        let &(s, e) = self.defs.get(name).ok_or(format!("no definition of {}", name))?;
        let header: &'static str = self.header[name];
        let text: &'static str = &self.text[s..e];
        let mut rg = Regs { map: HashMap::new(), ty: HashMap::new() };
        // parameters
        let mut params = vec![];
        let mut unnamed = 0;
        {
            let ps = params_of(header);
            let mut p = P::new(ps);
            while !p.peek().is_empty() {
                if p.eat("...") {
                    break;
                }
                let _t = self.ty(&mut p)?;
                let mut nm = "";
                while !p.peek().is_empty() && p.peek() != "," {
                    if p.peek() == "(" {
                        p.skip_parens();
                        continue;
                    }
                    let t = p.next();
                    if t.starts_with('%') {
                        nm = t;
                    }
                }
                p.eat(",");
                if nm.is_empty() {
                    params.push(rg.get(Box::leak(format!("%{}", unnamed).into_boxed_str())));
                    unnamed += 1;
                } else {
                    if nm[1..].bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    params.push(rg.get(nm));
                }
            }
        }
        // blocks
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut lines = text.lines().peekable();
        let mut first = true;
        while let Some(l) = lines.next() {
            if l.trim().is_empty() || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let end = if l.starts_with('"') { l[1..].find('"').unwrap() + 2 } else { l.find(':').unwrap() };
                blocks.push((format!("%{}", &l[..end]), vec![]));
                first = false;
                continue;
            }
            if first {
                blocks.push((format!("%{}", unnamed), vec![]));
                first = false;
            }
            let mut s = l.trim().to_string();
            if s.starts_with("switch ") && !s.contains(']') {
                for l2 in lines.by_ref() {
                    s.push(' ');
                    s.push_str(l2.trim());
                    if l2.trim_start().starts_with(']') {
                        break;
                    }
                }
            } else if s.contains("invoke ") && (s.starts_with("invoke") || s.contains("= invoke")) {
                let l2 = lines.next().unwrap_or("");
                s.push(' ');
                s.push_str(l2.trim());
            } else if s.contains("landingpad ") {
                while let Some(l2) = lines.peek() {
                    let l2 = l2.trim();
                    if l2.starts_with("cleanup") || l2.starts_with("catch") || l2.starts_with("filter") {
                        lines.next();
                    } else {
                        break;
                    }
                }
            }
            blocks.last_mut().unwrap().1.push(s);
        }
        let bidx: HashMap<String, usize> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i)).collect();
        let mut out = vec![];
        for (n, ls) in blocks.iter() {
            let mut b = Block { name: n.clone(), phis: vec![], insts: vec![] };
            for l in ls {
                if l.starts_with("#dbg") {
                    continue;
                }
                match self.inst(l, &mut rg, &bidx) {
                    Ok(PI::Phi(d, v)) => b.phis.push((d, v)),
                    Ok(PI::I(d, i)) => b.insts.push((d, i)),
                    Ok(PI::II(v)) => b.insts.extend(v),
                    Err(e) => b.insts.push((None, Inst::Bad(format!("{} :: {}", e, l)))),
                }
            }
            out.push(b);
        }
        let (ipdom, exits) = postdom(&out);
        let light = (0..out.len()).map(|b| is_light(&out, b, ipdom[b])).collect();
        let n = rg.map.len();
        let regty = (0..n).map(|k| rg.ty.get(&k).cloned()).collect();
        Ok(Func { name: name.into(), params, nregs: n, regty, blocks: out, ipdom, light, exits })
    }
    fn inst(&mut self, l: &str, rg: &mut Regs, bidx: &HashMap<String, usize>) -> Result<PI, String> {
        let mut p = P::new(l);
        let mut dst = None;
        if p.peek().starts_with('%') && p.peek2() == "=" {
            dst = Some(rg.get(p.next()));
            p.next();
        }
        let lab = |p: &mut P| -> Result<usize, String> {
            p.expect("label")?;
            let n = p.next();
            bidx.get(n).copied().ok_or(format!("label {}", n))
        };
        let mut op = p.next();
        while matches!(op, "tail" | "musttail" | "notail") {
            op = p.next();
        }
        let bin = |s: &str| {
            Some(match s {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "urem" => Bin::URem,
                "sdiv" => Bin::SDiv,
                "srem" => Bin::SRem,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                _ => return None,
            })
        };
        if let Some(b) = bin(op) {
            p.skip_attrs_to_type();
            let (ty, a) = self.tval(&mut p, rg)?;
            p.expect(",")?;
            let c = self.val(&mut p, &ty, rg)?;
            if ty.is_agg() {
                return Ok(PI::I(dst, Inst::VBin(b, ty, a, c)));
            }
            return Ok(PI::I(dst, Inst::Bin(b, ty.width(), a, c)));
        }
        let i = match op {
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                p.skip_attrs_to_type();
                let (ty, a) = self.tval(&mut p, rg)?;
                p.expect(",")?;
                let c = self.val(&mut p, &ty, rg)?;
                Inst::FBin(op.as_bytes()[1] as char, ty == Ty::F64, a, c)
            }
            "fneg" => {
                p.skip_attrs_to_type();
                let (ty, a) = self.tval(&mut p, rg)?;
                Inst::FNeg(ty == Ty::F64, a)
            }
            "fcmp" => {
                let mut pr = p.next();
                while matches!(pr, "fast" | "nnan" | "ninf" | "nsz") {
                    pr = p.next();
                }
                let (ty, a) = self.tval(&mut p, rg)?;
                p.expect(",")?;
                let c = self.val(&mut p, &ty, rg)?;
                Inst::FCmp(pr.to_string(), ty == Ty::F64, a, c)
            }
            "icmp" => {
                let mut pr = p.next();
                if pr == "samesign" {
                    pr = p.next();
                }
                let pd = match pr {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return Err("pred".into()),
                };
                let (ty, a) = self.tval(&mut p, rg)?;
                p.expect(",")?;
                let c = self.val(&mut p, &ty, rg)?;
                if ty.is_agg() {
                    Inst::VICmp(pd, ty, a, c)
                } else {
                    Inst::ICmp(pd, ty.width(), a, c)
                }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                p.skip_attrs_to_type();
                let (ty, a) = self.tval(&mut p, rg)?;
                p.expect("to")?;
                let tt = self.ty(&mut p)?;
                Inst::Cast(op.to_string(), ty, tt, a)
            }
            "load" => {
                while matches!(p.peek(), "atomic" | "volatile") {
                    p.next();
                }
                let ty = self.ty(&mut p)?;
                p.expect(",")?;
                let (_, a) = self.tval(&mut p, rg)?;
                Inst::Load(ty, a)
            }
            "store" => {
                while matches!(p.peek(), "atomic" | "volatile") {
                    p.next();
                }
                let (ty, v) = self.tval(&mut p, rg)?;
                p.expect(",")?;
                let (_, a) = self.tval(&mut p, rg)?;
                Inst::Store(ty, v, a)
            }
            "getelementptr" => {
                while matches!(p.peek(), "inbounds" | "nuw" | "nusw") {
                    p.next();
                }
                let et = self.ty(&mut p)?;
                p.expect(",")?;
                let (_, b) = self.tval(&mut p, rg)?;
                let mut cur = et;
                let mut first = true;
                let mut off: i64 = 0;
                let mut dynv = vec![];
                while p.eat(",") {
                    if p.peek().starts_with('!') {
                        break;
                    }
                    let (it, o) = self.tval(&mut p, rg)?;
                    if first {
                        first = false;
                        match o {
                            Op::C(Cst::I(c)) => off = off.wrapping_add((sext(c, it.width()) as i64).wrapping_mul(cur.size() as i64)),
                            o => dynv.push((o, it.width(), cur.size())),
                        }
                    } else {
                        match (&cur, o) {
                            (Ty::Struct(..), Op::C(Cst::I(c))) => {
                                off += cur.field_off(c as u64) as i64;
                                cur = cur.elem(c as u64);
                            }
                            (_, Op::C(Cst::I(c))) => {
                                let e = cur.elem(0);
                                off = off.wrapping_add((sext(c, it.width()) as i64).wrapping_mul(e.size() as i64));
                                cur = e;
                            }
                            (_, o) => {
                                let e = cur.elem(0);
                                dynv.push((o, it.width(), e.size()));
                                cur = e;
                            }
                        }
                    }
                }
                Inst::Gep(b, off, dynv)
            }
            "select" => {
                p.skip_attrs_to_type();
                let (ct, c) = self.tval(&mut p, rg)?;
                if ct.is_agg() {
                    return Err("vector select".into());
                }
                p.expect(",")?;
                let (ty, a) = self.tval(&mut p, rg)?;
                p.expect(",")?;
                let (_, b) = self.tval(&mut p, rg)?;
                Inst::Select(ty, c, a, b)
            }
            "freeze" => {
                let (_, a) = self.tval(&mut p, rg)?;
                Inst::Copy(a)
            }
            "phi" => {
                p.skip_attrs_to_type();
                let ty = self.ty(&mut p)?;
                let mut v = vec![];
                loop {
                    p.expect("[")?;
                    let o = self.val(&mut p, &ty, rg)?;
                    p.expect(",")?;
                    let n = p.next();
                    p.expect("]")?;
                    v.push((*bidx.get(n).ok_or(format!("phi label {}", n))?, o));
                    if !(p.peek() == "," && p.peek2() == "[") {
                        break;
                    }
                    p.next();
                }
                return Ok(PI::Phi(dst.unwrap(), v));
            }
            "br" => {
                if p.peek() == "label" {
                    Inst::Br(lab(&mut p)?)
                } else {
                    let (_, c) = self.tval(&mut p, rg)?;
                    p.expect(",")?;
                    let a = lab(&mut p)?;
                    p.expect(",")?;
                    let b = lab(&mut p)?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (ty, c) = self.tval(&mut p, rg)?;
                p.expect(",")?;
                let d = lab(&mut p)?;
                p.expect("[")?;
                let mut v = vec![];
                while !p.eat("]") {
                    let t2 = self.ty(&mut p)?;
                    let k = match self.cst(&mut p, &t2)? {
                        Cst::I(k) => k,
                        _ => return Err("switch".into()),
                    };
                    p.expect(",")?;
                    v.push((k, lab(&mut p)?));
                }
                Inst::Switch(ty.width(), c, d, v)
            }
            "ret" => {
                if p.peek() == "void" {
                    Inst::Ret(None)
                } else {
                    let (_, a) = self.tval(&mut p, rg)?;
                    Inst::Ret(Some(a))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => Inst::Unreachable,
            "landingpad" | "fence" => Inst::Nop,
            "alloca" => {
                p.eat("inalloca");
                let ty = self.ty(&mut p)?;
                let mut n = 1;
                let mut al = ty.align();
                while p.eat(",") {
                    if p.eat("align") {
                        al = p.next().parse().unwrap_or(8);
                    } else if p.at_type() {
                        let t = self.ty(&mut p)?;
                        match self.cst(&mut p, &t)? {
                            Cst::I(k) => n = k as u64,
                            _ => return Err("alloca".into()),
                        }
                    } else {
                        break;
                    }
                }
                Inst::Alloca(ty.size() * n, al)
            }
            "extractvalue" => {
                let (_, a) = self.tval(&mut p, rg)?;
                let mut v = vec![];
                while p.eat(",") {
                    if let Ok(k) = p.next().parse() {
                        v.push(k)
                    } else {
                        break;
                    }
                }
                Inst::Extract(a, v)
            }
            "insertvalue" => {
                let (_, a) = self.tval(&mut p, rg)?;
                p.expect(",")?;
                let (_, b) = self.tval(&mut p, rg)?;
                let mut v = vec![];
                while p.eat(",") {
                    if let Ok(k) = p.next().parse() {
                        v.push(k)
                    } else {
                        break;
                    }
                }
                Inst::Insert(a, b, v)
            }
            "extractelement" => {
                let (_, a) = self.tval(&mut p, rg)?;
                p.expect(",")?;
                let (_, b) = self.tval(&mut p, rg)?;
                Inst::ExtractElem(a, b)
            }
            "insertelement" => {
                let (_, a) = self.tval(&mut p, rg)?;
                p.expect(",")?;
                let (_, b) = self.tval(&mut p, rg)?;
                p.expect(",")?;
                let (_, c) = self.tval(&mut p, rg)?;
                Inst::InsertElem(a, b, c)
            }
            "shufflevector" => {
                let (t, a) = self.tval(&mut p, rg)?;
                p.expect(",")?;
                let (_, b) = self.tval(&mut p, rg)?;
                p.expect(",")?;
                let mt = self.ty(&mut p)?;
                let mk = match self.cst(&mut p, &mt)? {
                    Cst::Agg(v) => v.iter().map(|c| if let Cst::I(k) = c { *k as u64 } else { 0 }).collect(),
                    _ => return Err("shuffle".into()),
                };
                Inst::Shuffle(t.nelem(), a, b, mk)
            }
            "atomicrmw" => {
                p.eat("volatile");
                let o = p.next().to_string();
                let (_, a) = self.tval(&mut p, rg)?;
                p.expect(",")?;
                let (ty, v) = self.tval(&mut p, rg)?;
                Inst::Rmw(o, ty, a, v)
            }
            "cmpxchg" => {
                while matches!(p.peek(), "weak" | "volatile") {
                    p.next();
                }
                let (_, a) = self.tval(&mut p, rg)?;
                p.expect(",")?;
                let (ty, c) = self.tval(&mut p, rg)?;
                p.expect(",")?;
                let (_, n) = self.tval(&mut p, rg)?;
                Inst::CmpXchg(ty, a, c, n)
            }
            "call" | "invoke" => {
                p.skip_attrs_to_type();
                let rt = self.ty(&mut p)?;
                if p.peek() == "(" {
                    p.skip_parens();
                }
                let cal;
                if p.peek() == "asm" {
                    while p.peek() != "(" {
                        p.next();
                    }
                    cal = Callee::Asm;
                } else if p.peek().starts_with('@') {
                    let n = unquote(&p.next()[1..]);
                    cal = Callee::Named(n.as_str().into());
                } else {
                    let o = self.val(&mut p, &Ty::Ptr, rg)?;
                    cal = Callee::Ptr(o);
                }
                p.expect("(")?;
                let mut args = vec![];
                while !p.eat(")") {
                    if p.peek() == "metadata" {
                        // skip
                        p.next();
                        let mut d = 0;
                        while !(d == 0 && (p.peek() == "," || p.peek() == ")")) {
                            match p.next() {
                                "(" => d += 1,
                                ")" => d -= 1,
                                "" => return Err("meta".into()),
                                _ => {}
                            }
                        }
                        args.push((Ty::Other, Op::C(Cst::I(0))));
                    } else {
                        let ty = self.ty(&mut p)?;
                        while !is_value_start(p.peek()) {
                            let a = p.next();
                            if a == "align" {
                                p.next();
                            }
                            if p.peek() == "(" {
                                p.skip_parens();
                            }
                            if a.is_empty() {
                                return Err("arg attrs".into());
                            }
                        }
                        let v = self.val(&mut p, &ty, rg)?;
                        args.push((ty, v));
                    }
                    p.eat(",");
                }
                let i = Inst::Call(cal, args, rt);
                if op == "invoke" {
                    while p.peek() != "to" && !p.peek().is_empty() {
                        p.next();
                    }
                    p.expect("to")?;
                    let b = lab(&mut p)?;
                    return Ok(PI::II(vec![(dst, i), (None, Inst::Br(b))]));
                }
                i
            }
            _ => return Err(format!("opcode {}", op)),
        };
        Ok(PI::I(dst, i))
    }
}
enum PI {
    Phi(usize, Vec<(usize, Op)>),
    I(Option<usize>, Inst),
    II(Vec<(Option<usize>, Inst)>),
}
struct Regs {
    map: HashMap<String, usize>,
    ty: HashMap<usize, Ty>,
}
impl Regs {
    fn get(&mut self, n: &str) -> usize {
        if let Some(i) = self.map.get(n) {
            return *i;
        }
        let k = self.map.len();
        self.map.insert(n.to_string(), k);
        k
    }
}
pub fn mask(x: u128, w: u32) -> u128 {
    if w >= 128 || w == 0 {
        x
    } else {
        x & ((1u128 << w) - 1)
    }
}
pub fn sext(x: u128, w: u32) -> i128 {
    if w == 0 || w >= 128 {
        return x as i128;
    }
    let s = 128 - w;
    ((x << s) as i128) >> s
}
fn unquote(s: &str) -> String {
    s.trim_matches('"').to_string()
}
fn name_in(l: &'static str) -> &'static str {
    let k = l.find('@').unwrap() + 1;
    let r = &l[k..];
    if r.starts_with('"') {
        let e = r[1..].find('"').unwrap();
        &r[1..1 + e]
    } else {
        let e = r.bytes().position(|c| !(c.is_ascii_alphanumeric() || b"._$-".contains(&c))).unwrap_or(r.len());
        &r[..e]
    }
}
fn param_span(h: &str) -> (usize, usize) {
    let a = h.find('@').unwrap();
    let o = a + h[a..].find('(').unwrap();
    let b = h.as_bytes();
    let mut d = 0;
    let mut i = o;
    loop {
        match b[i] {
            b'(' => d += 1,
            b')' => {
                d -= 1;
                if d == 0 {
                    return (o + 1, i);
                }
            }
            _ => {}
        }
        i += 1;
    }
}
fn params_of(h: &'static str) -> &'static str {
    let (a, b) = param_span(h);
    &h[a..b]
}
fn after_params(h: &str) -> &str {
    let (_, b) = param_span(h);
    &h[b + 1..]
}
fn parse_float(t: &str) -> Option<f64> {
    let t = t.strip_prefix('f').unwrap_or(t);
    if let Some(h) = t.strip_prefix("0x") {
        return u64::from_str_radix(h, 16).ok().map(f64::from_bits);
    }
    t.parse().ok()
}
pub fn write_cst(ty: &Ty, c: &Cst, out: &mut [u8], off: u64) {
    match c {
        Cst::I(x) => {
            if ty.is_agg() {
                return;
            }
            for k in 0..ty.store_size() {
                out[(off + k) as usize] = (x >> (8 * k)) as u8;
            }
        }
        Cst::Agg(v) => {
            for (i, e) in v.iter().enumerate() {
                write_cst(&ty.elem(i as u64), e, out, off + ty.field_off(i as u64));
            }
        }
    }
}
fn succs(b: &Block) -> Vec<usize> {
    match b.insts.last() {
        Some((_, Inst::Br(a))) => vec![*a],
        Some((_, Inst::CondBr(_, a, c))) => vec![*a, *c],
        Some((_, Inst::Switch(_, _, d, v))) => {
            let mut r = vec![*d];
            r.extend(v.iter().map(|x| x.1));
            r
        }
        _ => vec![],
    }
}
/// post-dominators over the blocks that can reach a return
fn postdom(bl: &[Block]) -> (Vec<Option<usize>>, Vec<bool>) {
    let n = bl.len();
    let exit = n;
    let mut su: Vec<Vec<usize>> = bl.iter().map(succs).collect();
    su.push(vec![]);
    for i in 0..n {
        if let Some((_, Inst::Ret(_))) = bl[i].insts.last() {
            su[i].push(exit);
        }
    }
    let mut pr = vec![vec![]; n + 1];
    for i in 0..n {
        for &s in &su[i] {
            pr[s].push(i);
        }
    }
    let mut reach = vec![false; n + 1];
    let mut stack = vec![exit];
    reach[exit] = true;
    while let Some(x) = stack.pop() {
        for &p in &pr[x] {
            if !reach[p] {
                reach[p] = true;
                stack.push(p);
            }
        }
    }
    // order: reverse post order of the reversed graph
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut st = vec![(exit, 0usize)];
    seen[exit] = true;
    while let Some((x, k)) = st.pop() {
        if k < pr[x].len() {
            st.push((x, k + 1));
            let y = pr[x][k];
            if !seen[y] {
                seen[y] = true;
                st.push((y, 0));
            }
        } else {
            order.push(x);
        }
    }
    order.reverse();
    let mut num = vec![usize::MAX; n + 1];
    for (i, &x) in order.iter().enumerate() {
        num[x] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    let mut ch = true;
    while ch {
        ch = false;
        for &x in order.iter().skip(1) {
            let mut nd = usize::MAX;
            for &s in &su[x] {
                if !reach[s] || idom[s] == usize::MAX {
                    continue;
                }
                if nd == usize::MAX {
                    nd = s;
                } else {
                    let (mut a, mut b) = (nd, s);
                    while a != b {
                        while num[a] > num[b] {
                            a = idom[a];
                        }
                        while num[b] > num[a] {
                            b = idom[b];
                        }
                    }
                    nd = a;
                }
            }
            if nd != idom[x] {
                idom[x] = nd;
                ch = true;
            }
        }
    }
    let ip = (0..n).map(|i| if idom[i] == usize::MAX || idom[i] == exit { None } else { Some(idom[i]) }).collect();
    (ip, reach[..n].to_vec())
}

fn succ(b: &Block) -> Vec<usize> {
    match b.insts.last() {
        Some((_, Inst::Br(t))) => vec![*t],
        Some((_, Inst::CondBr(_, x, y))) => vec![*x, *y],
        Some((_, Inst::Switch(_, _, d, v))) => v.iter().map(|x| x.1).chain([*d]).collect(),
        _ => vec![],
    }
}
fn is_light(bs: &[Block], from: usize, to: Option<usize>) -> u8 {
    let to = match to {
        Some(t) => t,
        None => return 0,
    };
    fn go(bs: &[Block], b: usize, from: usize, to: usize, depth: usize, n: &mut usize) -> u8 {
        let mut r = 2;
        for t in succ(&bs[b]) {
            if t == to {
                continue;
            }
            *n += 1;
            if t == from || depth > 12 || *n > 40 {
                return 0;
            }
            for (_, i) in &bs[t].insts {
                match i {
                    Inst::Call(..) => r = r.min(1),
                    Inst::Rmw(..) | Inst::CmpXchg(..) | Inst::Ret(_) | Inst::Bad(_) => return 0,
                    Inst::Unreachable => return 0,
                    _ => {}
                }
            }
            if bs[t].insts.len() > 60 {
                return 0;
            }
            r = r.min(go(bs, t, from, to, depth + 1, n));
            if r == 0 {
                return 0;
            }
        }
        r
    }
    let mut n = 0;
    go(bs, from, from, to, 0, &mut n)
}
