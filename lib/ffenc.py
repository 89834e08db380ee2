"""Encoding of symbolic field runs (symrun's JSON) into SMT-LIB QF_FF / QF_BV."""
import subprocess, time, os, re, random

P = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
HDR = "(set-logic QF_FF)\n(define-sort F () (_ FiniteField %d))\n" % P


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.verdicts = {}
        self.samples = []

    def add(self, name, verdict, dt, size):
        self.queries += 1
        self.time += dt
        self.verdicts[verdict] = self.verdicts.get(verdict, 0) + 1
        if len(self.samples) < 400:
            self.samples.append({"query": name, "verdict": verdict, "solver_s": round(dt, 3), "bytes": size})


STATS = Stats()
WORK = None  # directory for .smt2 files


class Inconclusive(Exception):
    pass


def solve(name, text, timeout=60, model=False, solver=("z3-new",)):
    """returns (verdict, output)"""
    fn = os.path.join(WORK, re.sub(r"[^A-Za-z0-9_.-]", "_", name) + ".smt2")
    with open(fn, "w") as f:
        f.write(text)
    t = time.time()
    try:
        p = subprocess.run([*solver, fn], capture_output=True, text=True, timeout=timeout)
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    dt = time.time() - t
    first = out.strip().split("\n")[0] if out.strip() else "none"
    if first not in ("sat", "unsat", "unknown", "timeout") or ("(error" in out and first != "unsat" and not model):
        first = "error:" + first[:200]
    # an `(error` before the verdict means an assertion may have been dropped
    if "(error" in out.split("sat")[0]:
        first = "error"
    STATS.add(name, first, dt, len(text))
    return first, out


class Doc:
    """expression DAG -> canonical linear forms over atoms (symbols, products)"""

    count = 0

    def __init__(self, nodes):
        Doc.count += 1
        self.serial = Doc.count
        self.nodes = nodes
        self.memo = {}
        self.atoms = []          # atom id -> ('s',name) | ('m',lfkey,lfkey) | ('i',lfkey)
        self.index = {}

    def atom(self, key):
        if key not in self.index:
            self.index[key] = len(self.atoms)
            self.atoms.append(key)
        return self.index[key]

    def sym(self, name):
        return ((self.atom(("s", name)), 1),), 0

    @staticmethod
    def const(c):
        return (), c % P

    @staticmethod
    def is_const(l):
        return not l[0]

    @staticmethod
    def add(a, b, k=1):
        d = dict(a[0])
        for t, c in b[0]:
            v = (d.get(t, 0) + c * k) % P
            if v:
                d[t] = v
            else:
                d.pop(t, None)
        return tuple(sorted(d.items())), (a[1] + b[1] * k) % P

    @staticmethod
    def scale(a, k):
        k %= P
        if k == 0:
            return (), 0
        return tuple((t, c * k % P) for t, c in a[0]), a[1] * k % P

    def mul(self, a, b, flat=True):
        if self.is_const(a):
            return self.scale(b, a[1])
        if self.is_const(b):
            return self.scale(a, b[1])
        # products are kept flat: ("m", ((linear form, multiplicity), ...))
        fs, k = {}, 1
        for x in (a, b):
            if flat and len(x[0]) == 1 and x[1] == 0 and self.atoms[x[0][0][0]][0] == "m":
                k = k * x[0][0][1] % P
                for f, e in self.atoms[x[0][0][0]][1]:
                    fs[f] = fs.get(f, 0) + e
            else:
                # normalise the leading coefficient so that 2x*y and x*2y agree
                c = x[0][0][1]
                if c != 1:
                    k = k * c % P
                    x = self.scale(x, pow(c, P - 2, P))
                fs[x] = fs.get(x, 0) + 1
        return ((self.atom(("m", tuple(sorted(fs.items())))), k),), 0

    def lf(self, n):
        """linear form of node n (iterative)"""
        m = self.memo
        stack = [n]
        while stack:
            x = stack[-1]
            if x in m:
                stack.pop()
                continue
            nd = self.nodes[x]
            op = nd[0]
            if op == "c":
                m[x] = ((), int(nd[1], 16))
            elif op == "s":
                m[x] = self.sym(nd[1])
            else:
                need = [y for y in nd[1:] if y not in m]
                if need:
                    stack.extend(need)
                    continue
                if op == "+":
                    m[x] = self.add(m[nd[1]], m[nd[2]])
                elif op == "-":
                    m[x] = self.scale(m[nd[1]], -1)
                elif op == "*":
                    m[x] = self.mul(m[nd[1]], m[nd[2]])
                else:
                    m[x] = ((self.atom(("i", m[nd[1]])), 1),), 0
            stack.pop()
        return m[n]


class Emit:
    """SMT text for expressions and R1CS rows"""

    def __init__(self, doc):
        self.doc = doc
        self.decl = []
        self.asserts = []
        self.have = set()
        self.substsym = {}   # symbol name -> smt term
        self.prods = {}
        self.opaque = set()  # product atoms left undefined (cut points)
        self.expand = None   # when set: only these product atoms are defined

    def c(self, k):
        return "(as ff%d F)" % (k % P)

    def declare(self, v):
        if v not in self.have:
            self.have.add(v)
            self.decl.append("(declare-const %s F)" % v)

    def atom_term(self, a):
        name = "e%d" % a
        if name in self.have:
            return name
        # iterative post-order over atoms
        stack = [a]
        while stack:
            t = stack[-1]
            nm = "e%d" % t
            if nm in self.have:
                stack.pop()
                continue
            key = self.doc.atoms[t]
            if key[0] == "s":
                if key[1] in self.substsym:
                    self.have.add(nm)
                    self.decl.append("(declare-const %s F)" % nm)
                    self.asserts.append("(= %s %s)" % (nm, self.substsym[key[1]]))
                else:
                    self.declare(nm)
                stack.pop()
                continue
            if t in self.opaque or (self.expand is not None and t not in self.expand):
                self.declare(nm)
                stack.pop()
                continue
            forms = [l for l, _ in key[1]] if key[0] == "m" else key[1:]
            need = [u for l in forms for u, _ in l[0] if "e%d" % u not in self.have]
            if need:
                stack.extend(need)
                continue
            self.declare(nm)
            if key[0] == "m":
                parts = [self.power(l, k) for l, k in key[1]]
                acc = parts[0]
                for x in parts[1:-1]:
                    acc = self.product(acc, x)
                if len(parts) > 1:
                    self.asserts.append("(= %s (ff.mul %s %s))" % (nm, acc, parts[-1]))
                else:
                    self.asserts.append("(= %s %s)" % (nm, acc))
            else:
                self.asserts.append("(= %s (ff.mul %s %s))" % (self.c(1), nm, self.flat(key[1])))
            stack.pop()
        return name

    def product(self, a, b):
        if (a, b) not in self.prods:
            nm = "p%d" % len(self.prods)
            self.prods[(a, b)] = nm
            self.declare(nm)
            self.asserts.append("(= %s (ff.mul %s %s))" % (nm, a, b))
        return self.prods[(a, b)]

    def power(self, l, k):
        """l^k through shared squarings: 5 -> t2, t4, t4*t; 7 -> t2, t4, t4*t2, *t"""
        base = self.flat(l)
        sq, acc = [base], None
        while 1 << len(sq) <= k:
            sq.append(self.product(sq[-1], sq[-1]))
        for i in reversed(range(len(sq))):
            if (k >> i) & 1:
                acc = sq[i] if acc is None else self.product(acc, sq[i])
        return acc

    def flat(self, l):
        parts = []
        for t, k in l[0]:
            parts.append("e%d" % t if k == 1 else "(ff.mul %s e%d)" % (self.c(k), t))
        if l[1] or not parts:
            parts.append(self.c(l[1]))
        return parts[0] if len(parts) == 1 else "(ff.add %s)" % " ".join(parts)

    def term(self, l):
        for t, _ in l[0]:
            self.atom_term(t)
        return self.flat(l)

    def node(self, n):
        return self.term(self.doc.lf(n))

    def lc(self, row):
        """row: [(coef node, var)] -> term over v0.. (v0 = 1)"""
        parts = []
        for cn, v in row:
            k = self.doc.lf(cn)
            if v == 0:
                parts.append(self.term(k))
                continue
            self.declare("v%d" % v)
            if self.doc.is_const(k):
                if k[1] == 0:
                    continue
                parts.append("v%d" % v if k[1] == 1 else "(ff.mul %s v%d)" % (self.c(k[1]), v))
            else:
                parts.append("(ff.mul %s v%d)" % (self.term(k), v))
        if not parts:
            return self.c(0)
        return parts[0] if len(parts) == 1 else "(ff.add %s)" % " ".join(parts)

    def row(self, a, b, c):
        self.asserts.append("(= (ff.mul %s %s) %s)" % (self.lc(a), self.lc(b), self.lc(c)))

    def text(self, extra="", goal=None, model=None):
        s = HDR + "\n".join(self.decl) + "\n"
        s += "\n".join("(assert %s)" % a for a in self.asserts) + "\n" + extra
        if goal:
            s += "(assert %s)\n" % goal
        s += "(check-sat)\n"
        if model:
            s += "(get-value (%s))\n" % " ".join(model)
        return s


def parse_values(out):
    r = {}
    for n, v in re.findall(r"\(([ve]\d+) (?:\(as ff(\d+) F\)|#f(?:\d+)m\d+)\)", out):
        if v:
            r[n] = int(v)
    for n, v in re.findall(r"\(([ve]\d+) #f(\d+)m\d+\)", out):
        r[n] = int(v)
    for n, v in re.findall(r"\(([ve]\d+) \(as ff(\d+) \(_ FiniteField \d+\)\)\)", out):
        r[n] = int(v)
    return r


class R1CS:
    """constraint system as extracted by symrun (setup or prove)"""

    def __init__(self, doc, j):
        self.doc = doc
        self.ninst = j["ninst"]
        self.nwit = j["nwit"]
        self.n = self.ninst + self.nwit
        self.rows = list(zip(j["a"], j["b"], j["c"]))
        self.honest = (j["inst"] + j["wit"]) if j["inst"] else None

    def lc_eval(self, row, env, sym):
        """concrete LC value; env: var -> int, sym(node) -> int"""
        s = 0
        for cn, v in row:
            s += sym(cn) * (1 if v == 0 else env[v])
        return s % P


def eval_nodes(doc, env):
    """evaluate all DAG nodes under symbol valuation env (name->int)"""
    out = []
    for nd in doc.nodes:
        op = nd[0]
        if op == "c":
            out.append(int(nd[1], 16))
        elif op == "s":
            out.append(env(nd[1]) % P)
        elif op == "+":
            out.append((out[nd[1]] + out[nd[2]]) % P)
        elif op == "*":
            out.append(out[nd[1]] * out[nd[2]] % P)
        elif op == "-":
            out.append(-out[nd[1]] % P)
        else:
            out.append(pow(out[nd[1]], P - 2, P))
    return out


def eval_lf(doc, l, env, memo=None):
    """evaluate a linear form under a symbol valuation (name -> int)"""
    memo = {} if memo is None else memo

    def flat(x):
        return (sum(c * memo[t] for t, c in x[0]) + x[1]) % P
    stack = [t for t, _ in l[0]]
    while stack:
        t = stack[-1]
        if t in memo:
            stack.pop()
            continue
        k = doc.atoms[t]
        if k[0] == "s":
            memo[t] = env(k[1]) % P
            stack.pop()
            continue
        need = [u for x in ([l for l, _ in k[1]] if k[0] == "m" else k[1:]) for u, _ in x[0] if u not in memo]
        if need:
            stack.extend(need)
            continue
        if k[0] == "m":
            memo[t] = 1
            for l2, e2 in k[1]:
                memo[t] = memo[t] * pow(flat(l2), e2, P) % P
        else:
            memo[t] = pow(flat(k[1]), P - 2, P)
        stack.pop()
    return flat(l)
