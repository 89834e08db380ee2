"""Soundness / completeness queries over constraint systems extracted from the
repository's own circuits."""
import random
import ffenc as ff
from ffenc import P, Doc, Emit, R1CS, solve, eval_nodes, Inconclusive, parse_values


def sym_env(seed):
    def env(name):
        return random.Random("%s/%s" % (seed, name)).randrange(P)
    return env


class System:
    """setup rows + honest assignment, with constant-coefficient view"""

    def __init__(self, doc, setup, prove):
        self.doc, self.setup, self.prove = doc, setup, prove
        self.n = setup.n
        self.rows = setup.rows
        self.ninst = setup.ninst

    def roles(self, name):
        want = self.doc.sym(name)
        return [i for i in range(1, self.n) if self.doc.lf(self.prove.honest[i]) == want]

    def same_as(self, lf):
        return [i for i in range(1, self.n) if self.doc.lf(self.prove.honest[i]) == lf]


class Sub:
    """some of the rows of a system"""

    def __init__(self, s, idx):
        self.doc, self.setup, self.prove, self.n, self.ninst = s.doc, s.setup, s.prove, s.n, s.ninst
        self.index = sorted(idx)
        self.rows = [s.rows[i] for i in self.index]


def occurrences(s):
    if not hasattr(s, "_occ"):
        s._occ = {}
        for i, r in enumerate(s.rows):
            for v in row_vars(r):
                s._occ.setdefault(v, []).append(i)
    return s._occ


def component(s, start, stop, keep=None, limit=None):
    """indices of the rows connected to the variables `start` without passing
    through `stop` (rows at stop variables are included when reached from
    elsewhere)"""
    occ = occurrences(s)
    rows, seen, todo = set(), set(start), list(start)
    while todo:
        u = todo.pop()
        for i in occ.get(u, ()):
            if i in rows or (keep and not keep(s.rows[i])):
                continue
            rows.add(i)
            if limit and len(rows) > limit:
                return None
            for w in row_vars(s.rows[i]):
                if w not in seen and w not in stop:
                    seen.add(w)
                    todo.append(w)
    return rows


def canon(s, idx, first):
    """the rows up to a renaming of variables (`first` get the first names)"""
    name = {v: k for k, v in enumerate(first)}
    out = []
    for i in sorted(idx):
        rr = []
        for part in s.rows[i]:
            rr.append(tuple((s.doc.lf(c), -1 if v == 0 else name.setdefault(v, len(name))) for c, v in part))
        out.append(tuple(rr))
    return tuple(out)


def row_vars(row):
    return {v for part in row for _, v in part if v != 0}


def classify_boolean(doc, rows):
    """variables constrained to {0,1} by a single-variable row"""
    bools = set()
    for r in rows:
        vs = row_vars(r)
        if len(vs) != 1:
            continue
        v = next(iter(vs))
        ok = True
        co = []
        for part in r:
            k0 = k1 = 0
            for cn, x in part:
                l = doc.lf(cn)
                if not doc.is_const(l):
                    ok = False
                    break
                if x == 0:
                    k0 += l[1]
                else:
                    k1 += l[1]
            co.append((k0 % P, k1 % P))
        if not ok:
            continue
        (a0, a1), (b0, b1), (c0, c1) = co
        q2, q1, q0 = a1 * b1 % P, (a0 * b1 + a1 * b0 - c1) % P, (a0 * b0 - c0) % P
        if q2 and q0 == 0 and (q2 + q1) % P == 0:
            bools.add(v)
    return bools


def concrete_rows(sysm, nodeval):
    """rows with numeric coefficients"""
    out = []
    for r in sysm.rows:
        out.append(tuple([(nodeval[c], v) for c, v in part] for part in r))
    return out


def lc_val(part, val):
    s = 0
    for c, v in part:
        s += c * (1 if v == 0 else val[v])
    return s % P


def check_rows(rows, val):
    return [i for i, r in enumerate(rows) if (lc_val(r[0], val) * lc_val(r[1], val) - lc_val(r[2], val)) % P]


def propagate(rows, n, fixed, default):
    """complete `fixed` (var->int) to all vars: solve rows with one linear
    unknown; when stuck take `default` for the lowest unassigned variable."""
    val = {0: 1}
    val.update(fixed)
    occ = {}
    cnt = []
    for i, r in enumerate(rows):
        vs = {v for p in r for _, v in p if v != 0 and v not in val}
        cnt.append(vs)
        for v in vs:
            occ.setdefault(v, []).append(i)
    ready = [i for i, s in enumerate(cnt) if len(s) == 1]
    nxt = 1

    def assign(v, x):
        val[v] = x % P
        for i in occ.get(v, ()):
            cnt[i].discard(v)
            if len(cnt[i]) == 1:
                ready.append(i)

    while True:
        while ready:
            i = ready.pop()
            if len(cnt[i]) != 1:
                continue
            u = next(iter(cnt[i]))
            co = []
            for part in rows[i]:
                k0 = k1 = 0
                for c, v in part:
                    if v == u:
                        k1 += c
                    else:
                        k0 += c * (1 if v == 0 else val[v])
                co.append((k0 % P, k1 % P))
            (a0, a1), (b0, b1), (c0, c1) = co
            q2, q1, q0 = a1 * b1 % P, (a0 * b1 + a1 * b0 - c1) % P, (a0 * b0 - c0) % P
            if q2 == 0 and q1:
                assign(u, -q0 * pow(q1, P - 2, P))
            # otherwise leave it to the default
        while nxt < n and nxt in val:
            nxt += 1
        if nxt >= n:
            break
        assign(nxt, default[nxt])
    return val


# ---------------------------------------------------------------- linear part

class BitView:
    """Sound rewriting of the constant-coefficient rows: linear elimination,
    boolean variables; what is left is encoded in bit-vectors."""

    def __init__(self, sysm, protect, fix=None, rows=None):
        """fix: var -> value, concretised variables; rows: numeric rows (with
        the symbols replaced by numbers), both only used to build witnesses"""
        doc = sysm.doc
        self.sysm = sysm
        self.protect = set(protect)
        self.bools = classify_boolean(doc, sysm.rows)
        self.fix = dict(fix or {})
        self.subst = {}      # var -> (dict, const)
        self.order = []
        self.lin = []        # residual linear (dict,const)
        self.nonlin = []     # residual (A,B,C)
        self.ands = {}
        work = []
        self.skipped = 0
        for r in (rows if rows is not None else sysm.rows):
            conv = []
            for part in r:
                d, k = {}, 0
                ok = True
                for cn, v in part:
                    if rows is not None:
                        cc = cn
                    else:
                        l = doc.lf(cn)
                        if not doc.is_const(l):
                            ok = False
                            break
                        cc = l[1]
                    if v == 0:
                        k += cc
                    elif v in self.fix:
                        k += cc * self.fix[v]
                    else:
                        d[v] = (d.get(v, 0) + cc) % P
                if not ok:
                    conv = None
                    break
                conv.append(({v: c for v, c in d.items() if c}, k % P))
            if conv is None:
                self.skipped += 1
            else:
                work.append(conv)
        changed = True
        while changed:
            changed = False
            rest = []
            for a, b, c in work:
                a, b, c = self.ap(a), self.ap(b), self.ap(c)
                L = None
                if not a[0]:
                    L = self.comb(b, a[1], c, -1)
                elif not b[0]:
                    L = self.comb(a, b[1], c, -1)
                if L is None:
                    # p = x*y with booleans x,y makes p boolean
                    if len(a[0]) == 1 and len(b[0]) == 1 and self.is_boolexpr(a) and self.is_boolexpr(b):
                        if len(c[0]) == 1 and c[1] == 0:
                            (v, k), = c[0].items()
                            if k == 1 and v not in self.bools and v not in self.protect:
                                self.bools.add(v)
                                changed = True
                    rest.append((a, b, c))
                    continue
                if not L[0]:
                    if L[1]:
                        self.lin.append(L)   # contradiction
                    continue
                piv = [v for v in L[0] if v not in self.bools and v not in self.protect]
                if not piv:
                    self.lin.append(L)
                    continue
                v = max(piv)
                inv = pow(L[0][v], P - 2, P)
                e = ({u: -c2 * inv % P for u, c2 in L[0].items() if u != v}, -L[1] * inv % P)
                self.subst[v] = e
                self.order.append(v)
                # keep existing substitutions and linear rows reduced
                for u in list(self.subst):
                    if v in self.subst[u][0]:
                        self.subst[u] = self.ap(self.subst[u])
                self.lin = [self.ap(x) for x in self.lin]
                changed = True
            work = rest
        self.nonlin = work
        self.lin = [l for l in self.lin if l[0] or l[1]]
        # drop b*b=b rows
        self.nonlin = [(a, b, c) for a, b, c in self.nonlin
                       if not (a == b == c and len(a[0]) == 1 and a[1] == 0 and list(a[0].values()) == [1]
                               and next(iter(a[0])) in self.bools)]

    def is_boolexpr(self, a):
        (v, k), = a[0].items()
        return v in self.bools and ((k == 1 and a[1] == 0) or (k == P - 1 and a[1] == 1))

    def ap(self, l):
        if not any(v in self.subst for v in l[0]):
            return l
        d, k = {}, l[1]
        for v, c in l[0].items():
            if v in self.subst:
                e = self.subst[v]
                for u, c2 in e[0].items():
                    d[u] = (d.get(u, 0) + c * c2) % P
                k += c * e[1]
            else:
                d[v] = (d.get(v, 0) + c) % P
        return {v: c for v, c in d.items() if c}, k % P

    @staticmethod
    def comb(x, kx, y, ky):
        d = {v: c * kx % P for v, c in x[0].items()}
        for v, c in y[0].items():
            d[v] = (d.get(v, 0) + ky * c) % P
        return {v: c for v, c in d.items() if c}, (kx * x[1] + ky * y[1]) % P

    # ---- bit-vector text
    def int_coef(self, c, is_bool):
        for k in range(0, 300):
            if pow(2, k, P) == c:
                return 1 << k
            if (P - pow(2, k, P)) % P == c:
                return -(1 << k)
        return c if c <= P // 2 else c - P

    def bv_linear(self, l, W):
        """(term of width W for the integer sum, lo, hi)"""
        lo = hi = 0
        pos, neg, gen = {}, {}, []
        k0 = l[1] if l[1] <= P // 2 else l[1] - P
        for v, c in l[0].items():
            ic = self.int_coef(c, v in self.bools)
            top = 1 if v in self.bools else P - 1
            if ic > 0:
                hi += ic * top
            else:
                lo += ic * top
            a = abs(ic)
            if v in self.bools and a & (a - 1) == 0:
                (pos if ic > 0 else neg).setdefault(a.bit_length() - 1, []).append(v)
            else:
                gen.append((v, ic))
        return lo + k0, hi + k0, pos, neg, gen, k0

    def encode_linear(self, l):
        lo, hi, pos, neg, gen, k0 = self.bv_linear(l, None)
        qlo, qhi = -((-lo) // P), hi // P
        if qhi - qlo > 40:
            return None
        W = max(abs(lo), abs(hi), P).bit_length() + 3
        terms = []

        def vec(m, sign):
            m = {k: list(v) for k, v in m.items()}
            while m:
                bits = {}
                for k in list(m):
                    bits[k] = m[k].pop()
                    if not m[k]:
                        del m[k]
                parts = []
                prev = W
                for k in sorted(bits, reverse=True):
                    if prev - 1 - k > 0:
                        parts.append("(_ bv0 %d)" % (prev - 1 - k))
                    parts.append("b%d" % bits[k])
                    prev = k
                if prev > 0:
                    parts.append("(_ bv0 %d)" % prev)
                t = parts[0] if len(parts) == 1 else "(concat %s)" % " ".join(parts)
                terms.append(t if sign > 0 else "(bvneg %s)" % t)
        vec(pos, 1)
        vec(neg, -1)
        for v, ic in gen:
            w = 1 if v in self.bools else 256
            nm = "b%d" % v if v in self.bools else "f%d" % v
            t = "((_ zero_extend %d) %s)" % (W - w, nm)
            terms.append("(bvmul %s (_ bv%d %d))" % (t, ic % (1 << W), W) if ic != 1 else t)
        if k0:
            terms.append("(_ bv%d %d)" % (k0 % (1 << W), W))
        s = terms[0]
        for t in terms[1:]:
            s = "(bvadd %s %s)" % (s, t)
        alts = ["(= %s (_ bv%d %d))" % ("S", (q * P) % (1 << W), W) for q in range(qlo, qhi + 1)]
        if not alts:
            return "false"
        return "(let ((S %s)) (or false %s))" % (s, " ".join(alts))

    def encode_nonlin(self, a, b, c):
        vs = sorted(set(a[0]) | set(b[0]) | set(c[0]))
        if any(v not in self.bools for v in vs) or len(vs) > 8:
            return None
        bad = []
        for m in range(1 << len(vs)):
            val = {v: (m >> i) & 1 for i, v in enumerate(vs)}
            f = lambda l: (sum(k * val[v] for v, k in l[0].items()) + l[1]) % P
            if (f(a) * f(b) - f(c)) % P:
                bad.append("(not (and true %s))" % " ".join(
                    "(= b%d #b%d)" % (v, val[v]) for v in vs))
        return "(and true %s)" % " ".join(bad)

    def query(self, name, goal, extra=(), timeout=120, fixed=None, roots=()):
        """goal: SMT over f<i> (protected field vars, 256 bit) and b<i>.
        Only the rows connected to `roots` are asserted (dropping rows is
        sound for unsat)."""
        comp = set(roots)
        rows = [("l", l, set(l[0])) for l in self.lin] + \
               [("n", r, set(r[0][0]) | set(r[1][0]) | set(r[2][0])) for r in self.nonlin]
        used = [False] * len(rows)
        ch = True
        while ch:
            ch = False
            for i, (_, _, vs) in enumerate(rows):
                if not used[i] and (not roots or vs & comp or not vs):
                    used[i] = True
                    comp |= vs
                    ch = True
        decl, asserts, dropped = set(), [], 0
        for i, (k, r, vs) in enumerate(rows):
            if not used[i]:
                continue
            e = self.encode_linear(r) if k == "l" else self.encode_nonlin(*r)
            if e is None:
                dropped += 1
                continue
            decl |= vs
            asserts.append(e)
        decl |= set(roots)
        t = "(set-logic QF_BV)\n"
        for v in sorted(decl):
            if v in self.bools:
                t += "(declare-const b%d (_ BitVec 1))\n" % v
            else:
                t += "(declare-const f%d (_ BitVec 256))\n(assert (bvult f%d (_ bv%d 256)))\n" % (v, v, P)
        for v, x in (fixed or {}).items():
            if v in decl:
                t += "(assert (= %s%d (_ bv%d %d)))\n" % (("b", v, x, 1) if v in self.bools else ("f", v, x, 256))
        for a in list(asserts) + list(extra):
            t += "(assert %s)\n" % a
        t += "(assert %s)\n(check-sat)\n" % goal
        t += "(get-value (%s))\n" % " ".join(("b%d" if v in self.bools else "f%d") % v for v in sorted(decl))
        verdict, out = solve(name, t, timeout=timeout, model=True)
        model = {}
        if verdict == "sat":
            import re
            for n, kind, x in re.findall(r"\([bf](\d+) #([bx])([0-9a-f]+)\)", out):
                model[int(n)] = int(x, 2 if kind == "b" else 16)
        return verdict, model, dropped

    def back(self, val, default):
        """complete a model to all variables using the substitutions"""
        full = {0: 1}
        for v in range(1, self.sysm.n):
            if v not in self.subst:
                full[v] = self.fix[v] if v in self.fix else val.get(v, default[v])
        for v, e in self.subst.items():
            full[v] = (sum(c * full[u] for u, c in e[0].items()) + e[1]) % P
        return full

    def residual_nonbool(self):
        """non-boolean variables in the product rows that have no bit-vector
        encoding, from the factor with fewer of them"""
        out = set()
        for a, b, c in self.nonlin:
            vs = set(a[0]) | set(b[0]) | set(c[0])
            if all(v in self.bools for v in vs) and len(vs) <= 8:
                continue
            fa = {v for v in a[0] if v not in self.bools}
            fb = {v for v in b[0] if v not in self.bools}
            pick = min([f for f in (fa, fb) if f] or [set()], key=len)
            out |= pick
        return out
