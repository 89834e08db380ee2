"""Properties decided in QF_FF / QF_BV over the symbolically executed field code."""
import json, math, os, random, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import common
from common import Violation, CheckError, TIER, SEED
import ffenc as ff
from ffenc import P, Doc, Emit, R1CS, solve, eval_nodes
from r1cs import System, BitView, classify_boolean, row_vars, concrete_rows, check_rows, propagate, sym_env, Sub, component, canon

THOROUGH = TIER == "thorough"


def hx(x):
    return "0x%064x" % (x % P)


class Sym:
    """one symbolic run of the repository's code"""

    def __init__(self, scenarios, seed=SEED, paths=48):
        self.bin = os.path.join(common.BUILD, "target_sym/debug/symrun")
        p = subprocess.run([self.bin, str(seed), *scenarios], capture_output=True, text=True, timeout=300,
                           env={**os.environ, "SYM_PATHS": str(paths)})
        if p.returncode:
            raise CheckError("symrun failed: " + p.stderr[-2000:])
        self.j = json.loads(p.stdout)
        self.doc = Doc(self.j["nodes"])

    def paths(self, k):
        """the explored paths; an unfinished exploration is reported at the end
        of the check, when none of these shows a violation"""
        r = self.j[k]
        if r["limit"]:
            LIMITED.append(k)
        return r["paths"]


LIMITED = []


def finish():
    if LIMITED:
        raise CheckError("more paths than were explored in %s" % sorted(set(LIMITED)))


def path_cond(e, path, only_eq=False):
    """assert the path condition of a symbolic execution"""
    doc = e.doc
    for a, b, eq in path["decisions"]:
        if only_eq and not eq:
            continue
        d = doc.add(doc.lf(a), doc.lf(b), -1)
        if len(d[0]) == 1 and d[1] == 0 and doc.atoms[d[0][0][0]][0] == "m":
            # a product is zero iff a factor is
            t = "(or false %s)" % " ".join("(= %s %s)" % (e.term(f), e.c(0)) for f, _ in doc.atoms[d[0][0][0]][1])
        else:
            t = "(= %s %s)" % (e.node(a), e.node(b))
        e.asserts.append(t if eq else "(not %s)" % t)
    for n, v in path["escapes"]:
        e.asserts.append("(= %s %s)" % (e.node(n), e.c(int(v, 16))))


# ------------------------------------------------------------------ references
# Independent definitions, over linear forms of a Doc (symbols by name).

class Ref:
    def __init__(self, doc):
        self.d = doc

    def s(self, n):
        return self.d.sym(n)

    def pw(self, x, n):
        d = self.d
        if n == 3:
            return d.mul(d.mul(x, x), x)
        if n == 5:
            x2 = d.mul(x, x)
            return d.mul(d.mul(x2, x2), x)
        if n == 7:
            x2 = d.mul(x, x)
            return d.mul(d.mul(d.mul(x2, x2), x2), x)

    def df(self, xl, xr, rounds, e):
        for i in range(rounds):
            xl, xr = self.d.add(xr, self.pw(self.d.add(xl, self.s("c%d" % i)), e)), xl
        return xl

    def hash(self, x, key, rounds, e):
        h = None
        for i in range(rounds):
            t = self.d.add(x, key) if i == 0 else self.d.add(self.d.add(h, key), self.s("h%d" % i))
            h = self.pw(t, e)
        return self.d.add(h, key)

    def multi(self, xs, key, rounds, e):
        r = key
        for x in xs:
            r = self.d.add(self.d.add(r, x), self.hash(x, r, rounds, e))
        return r


ROUNDS = {"mimc3_df": 322, "mimc5_df": 10, "mimc5_hash": 10, "mimc7_hash": 91}


def concrete_ref(name, env, L=1):
    """the same reference, on integers"""
    def df(n, e):
        xl, xr = env("xl"), env("xr")
        for i in range(n):
            xl, xr = (xr + pow(xl + env("c%d" % i), e, P)) % P, xl
        return xl

    def multi(n, e, single=False):
        r = env("key")
        for k in range(L):
            x = env("x%d" % k)
            h = 0
            for i in range(n):
                t = x + r if i == 0 else h + r + env("h%d" % i)
                h = pow(t, e, P)
            h = (h + r) % P
            if single:
                return h
            r = (r + x + h) % P
        return r
    return {"mimc3_df": lambda: df(322, 3), "mimc5_df": lambda: df(10, 5),
            "mimc5_hash": lambda: multi(10, 5, True), "mimc7_hash": lambda: multi(91, 7, True),
            "multi_mimc5_hash": lambda: multi(10, 5), "multi_mimc7_hash": lambda: multi(91, 7)}[name]()


def real_native(fn, env, L, nconst):
    """the repository's own function on the real field"""
    lines = ["native %s %d" % (fn, L)]
    for i in range(nconst):
        lines += ["c %s" % hx(env("c%d" % i)), "h %s" % hx(env("h%d" % i))]
    for n in ["xl", "xr", "key"] + ["x%d" % i for i in range(max(L, 1))]:
        lines.append("role %s %s" % (n, hx(env(n))))
    return run_real("\n".join(lines) + "\n")


def run_real(text):
    p = subprocess.run([common.build_realrun()], input=text, capture_output=True, text=True, timeout=120)
    r = {}
    for line in p.stdout.splitlines():
        k, _, v = line.partition(" ")
        r.setdefault(k, v)
    if p.returncode:
        r["panic"] = p.stderr[-500:]
    return r


def native_equals_ref(fns):
    """fns: [(name, scenario, L)]: every path's result equals the reference"""
    sym = Sym(["info"] + [s for _, s, _ in fns], paths=1100)
    doc = sym.doc
    ref = Ref(doc)
    info = sym.j["info"]
    for name, scen, L in fns:
        base = name.replace("multi_", "")
        n = info[base.upper() + "_ROUNDS"]
        e = int(name[name.index("mimc") + 4])
        if "df" in name:
            want = ref.df(ref.s("xl"), ref.s("xr"), ROUNDS[base], e)
        elif name.startswith("multi"):
            want = ref.multi([ref.s("x%d" % i) for i in range(L)], ref.s("key"), ROUNDS[base], e)
        else:
            want = ref.hash(ref.s("x0"), ref.s("key"), ROUNDS[base], e)
        for pi, path in enumerate(sym.paths(scen)):
            bad = None
            if not path["ok"] or n != ROUNDS[base]:
                bad = "panics or changed round count (%d)" % n
            v = "unknown"
            for only_eq in ((True, False) if any(not d[2] for d in path["decisions"]) else (True,)):
                em = Emit(doc)
                path_cond(em, path, only_eq)
                if bad is None:
                    got = doc.lf(path["body"])
                    g, w = em.term(got), em.term(want)
                    goal = "(not (= %s %s))" % (g, w)
                else:
                    goal = "true"
                if v != "unsat":
                    v, out = solve("%s.%d" % (scen, pi), em.text(goal=goal), timeout=5)
            if v == "unsat":
                continue
            # look for a concrete disagreement, on the path if it is a special one
            for envf in candidate_envs(path, sym, pi):
                r = real_native(name, envf, L, ROUNDS[base])
                w = concrete_ref(name, envf, L)
                if "panic" in r or int(r["native_result"], 16) != w:
                    raise Violation("%s differs from its definition" % name,
                                    "function %s (%d inputs)\nreference %s\nreal code %s\n" % (name, L, hx(w), r) +
                                    "".join("%s=%s\n" % (k, hx(envf(k))) for k in ["xl", "xr", "key", "x0", "x1", "c0", "c1", "h0", "h1"]))
            if v != "sat":
                v, out = solve("%s.%d.long" % (scen, pi), em.text(goal=goal), timeout=120)
            if v != "unsat":
                raise CheckError("%s: solver says %s but no concrete disagreement reproduced" % (scen, v))
    return [f for f, _, _ in fns]


def candidate_envs(path, sym, salt):
    """valuations to replay: random ones, and ones steered towards the path's
    equalities by asking the solver for a model of the path condition"""
    for k in range(3):
        yield sym_env("%s/%s/%s" % (SEED, salt, k))
    if path["decisions"]:
        em = Emit(sym.doc)
        path_cond(em, path, True)
        names = [x[1] for x in sym.doc.atoms if x[0] == "s"]
        names = [n for n in names if "e%d" % sym.doc.atom(("s", n)) in em.have]
        vars_ = ["e%d" % sym.doc.atom(("s", n)) for n in names]
        v, out = solve("pathmodel%d" % salt, em.text(model=vars_), timeout=20, model=True)
        vals = ff.parse_values(out)
        m = {n: vals[x] for n, x in zip(names, vars_) if x in vals}
        base = sym_env("%s/%s/m" % (SEED, salt))
        yield lambda n: m.get(n, base(n))


# -------------------------------------------------------------------- circuits

def load(sym, scen):
    paths = sym.paths(scen)
    out = []
    for p in paths:
        if not p["ok"]:
            if not out:
                raise CheckError("synthesis panicked in %s: %s" % (scen, p["body"]))
            continue    # a failing special case is a matter of completeness
        b = p["body"]
        out.append((p, System(sym.doc, R1CS(sym.doc, b["setup"]), R1CS(sym.doc, b["prove"]))))
    # the constraints come from the set-up run; when it is the same on every
    # path, one system without a path condition stands for all of them
    if all(same_system(sym.doc, out[0][1].setup, s.setup) is None for _, s in out[1:]):
        return [({**out[0][0], "decisions": []}, out[0][1])]
    return out


def ff_sound(pid, tag, sysm, path, head, role_names, pubs, consts, use_rows=None, timeout=20, pub_roles=None, cuts=None):
    """rows |= for every public index in pubs: v_pub == reference expression,
    where the symbols of the expression are the variables that carry them in
    an honest run.  pubs: {var: linear form}.  Returns the carriers."""
    doc = sysm.doc
    cand = {s: sysm.roles(s) for s in role_names}
    missing = [s for s in role_names if not cand[s]]
    if missing:
        raise CheckError("%s: no constraint variable carries %s" % (tag, missing))
    # several variables may carry a secret; any one of them is a valid extractor
    choices = [{s: cand[s][0] for s in role_names}]
    for s in role_names:
        for c in cand[s][1:3]:
            choices.append({**choices[0], s: c})
    if cuts and sweep(tag, sysm, path, {**choices[0], **(pub_roles or {})}, pubs, cuts):
        return {**choices[0], **(pub_roles or {})}
    last = None
    tries = [(roles, use_rows) for roles in choices]
    if use_rows is not None:
        tries.append((choices[0], None))
    for ci, (roles, use_rows) in enumerate(tries):
        roles = {**roles, **(pub_roles or {})}
        ok = True
        for pv, want in pubs.items():
            e = Emit(doc)
            for s, v in roles.items():
                e.declare("v%d" % v)
                e.substsym[s] = "v%d" % v
            for i, r in enumerate(sysm.rows):
                if use_rows is None or i in use_rows:
                    e.row(*r)
            path_cond(e, {"decisions": path["decisions"], "escapes": []})
            e.declare("v%d" % pv)
            t = e.term(want)
            v, out = solve("%s.pub%d.c%d" % (tag, pv, ci), e.text(goal="(not (= v%d %s))" % (pv, t)), timeout=timeout)
            if v != "unsat":
                ok = False
                last = (pv, v)
                break
        if ok:
            return roles
    # not sound for any carrier: build a concrete forged witness
    forge(pid, tag, sysm, head, {**choices[0], **(pub_roles or {})}, pubs, consts)
    raise CheckError("%s: solver answered %s for variable %d and no forged witness was found" % (tag, last[1], last[0]))


def sweep(tag, sysm, path, roles, pubs, cuts):
    """Prove the public variables equal their references through cut points:
    a constraint variable whose honest value equals an intermediate value of
    the reference is proved equal to it from the rows around it, and is then
    available to later steps.  Returns True when every public is proved."""
    doc = sysm.doc
    vals = []
    for k in range(2):
        en = sym_env("%s/sweep/%d" % (SEED, k))
        nv = eval_nodes(doc, en)
        honest = [nv[sysm.prove.honest[i]] for i in range(sysm.n)]
        sub = {s: honest[v] for s, v in roles.items()}
        memo = {}
        f = lambda n: sub.get(n, en(n))
        vals.append((honest, [ff.eval_lf(doc, c, f, memo) for c in cuts + list(pubs.values())]))
    index = {}
    for v in range(1, sysm.n):
        index.setdefault(tuple(h[v] for h, _ in vals), []).append(v)
    defs, occ = {}, {}
    for i, r in enumerate(sysm.rows):
        vs = row_vars(r)
        if vs:
            defs.setdefault(max(vs), []).append(i)
        for v in vs:
            occ.setdefault(v, []).append(i)
    proven, opaque = {}, set()
    base = set(roles.values())
    goals = [(c, None) for c in cuts] + [(w, v) for v, w in pubs.items()]
    done = set()
    for gi, (want, pub) in enumerate(goals):
        cand = [pub] if pub is not None else index.get(tuple(w[gi] for _, w in vals), [])
        for v in cand:
            if v in proven or v in base:
                if proven.get(v) == want:
                    done.add(pub)
                continue
            # backward cone of v, stopping at proven variables and carriers
            def cone(init):
                rows, seen, todo = set(), set(), [v]
                while todo:
                    u = todo.pop()
                    if u in seen:
                        continue
                    seen.add(u)
                    src = (occ if u == v else defs).get(u, []) if init else defs.get(u, [])
                    if u != v and (u in proven or u in base):
                        continue
                    for i in src:
                        vs = row_vars(sysm.rows[i])
                        if len(vs) == 1 and len(vs & base):
                            continue
                        if max(vs) > v and not init:
                            continue
                        rows.add(i)
                        todo.extend(vs)
                return rows, seen
            ok = False
            for init in (False, True):
                rows, seen = cone(init)
                if not rows or len(rows) > 60:
                    continue
                e = Emit(doc)
                e.opaque = opaque
                for s, u in roles.items():
                    e.declare("v%d" % u)
                    e.substsym[s] = "v%d" % u
                for i in sorted(rows):
                    e.row(*sysm.rows[i])
                for u in seen:
                    if u in proven:
                        e.declare("v%d" % u)
                        e.asserts.append("(= v%d %s)" % (u, e.term(proven[u])))
                path_cond(e, {"decisions": path["decisions"], "escapes": []})
                e.declare("v%d" % v)
                verdict, _ = solve("%s.cut%d.v%d" % (tag, gi, v), e.text(goal="(not (= v%d %s))" % (v, e.term(want))), timeout=5)
                if verdict == "unsat":
                    ok = True
                    break
            if ok:
                proven[v] = want
                opaque |= {t for t, _ in want[0] if doc.atoms[t][0] == "m"}
                if pub is not None:
                    done.add(pub)
                elif v in pubs and pubs[v] == want:
                    done.add(v)
    return all(v in done or proven.get(v) == w for v, w in pubs.items())


def claims_false(sysm, val, roles, pubs, en):
    """does this satisfying assignment publish something other than the truth?"""
    sub = {s: val[v] for s, v in roles.items()}
    memo = {}
    f = lambda n: sub.get(n, en(n))
    return [v for v, want in pubs.items() if v < sysm.ninst and val[v] != ff.eval_lf(sysm.doc, want, f, memo)]


def report_if_forged(pid, tag, sysm, head, roles, pubs, consts, en, val, why):
    rows_bad = claims_false(sysm, val, roles, pubs, en)
    if not rows_bad:
        return
    r, text = replay_circuit(head, *consts(en), {s: val[v] for s, v in roles.items()}, val, sysm.n)
    if r.get("rows_ok") == "true":
        what = "%s: an assignment that satisfies every constraint of the real circuit claims a false public value (%s; false publics: %s)" % (tag, why, rows_bad)
        raise Violation(what, "# %s\n# real circuit: %s\n# input for engine/realrun:\n%s" % (what, json.dumps(r, indent=1).replace("\n", "\n# "), text))


def replay_circuit(head, cs, hs, roles, val, n):
    lines = ["circuit " + head]
    lines += ["c " + hx(x) for x in cs] + ["h " + hx(x) for x in hs]
    lines += ["role %s %s" % (k, hx(v)) for k, v in roles.items()]
    if val is not None:
        lines += ["v " + hx(val[i]) for i in range(n)]
    text = "\n".join(lines) + "\n"
    return run_real(text), text


NOTES = []


def forge(pid, tag, sysm, head, roles, pubs, consts, en=None, near=(), budget=150):
    """solver said the constraints do not pin the public values: deviate one
    variable from its honest value, complete the rest from the constraints"""
    doc = sysm.doc
    t0 = time.time()
    for k in range(2):
        en1 = en or sym_env("%s/forge/%d" % (SEED, k))
        nv = eval_nodes(doc, en1)
        rows = concrete_rows(sysm, nv)
        honest = {i: nv[sysm.prove.honest[i]] for i in range(sysm.n)}
        fixed0 = {v: honest[v] for v in roles.values()}
        rng = random.Random(SEED + k)
        order = list(range(sysm.n - 1, 0, -1))
        if near:
            order.sort(key=lambda d: min(abs(d - v) for v in near))
        for d in order:
            if d in fixed0:
                continue
            if time.time() - t0 > budget:
                break
            for delta in (1, rng.randrange(P)):
                val = propagate(rows, sysm.n, {**fixed0, d: (honest[d] + delta) % P}, honest)
                if check_rows(rows, val):
                    continue
                report_if_forged(pid, tag, sysm, head, roles, pubs, consts, en1, val, "variable %d is not determined" % d)
        # the honest assignment itself may publish the wrong value
        if not check_rows(rows, honest):
            report_if_forged(pid, tag, sysm, head, roles, pubs, consts, en1, honest, "honest witness")


def const_fn(nc, nh):
    return lambda en: ([en("c%d" % i) for i in range(nc)], [en("h%d" % i) for i in range(nh)])



# ------------------------------------------------------------- the properties

def check_df_native(pid):
    return native_equals_ref([("mimc3_df", "mimc3_df", 1), ("mimc5_df", "mimc5_df", 1)])


def check_hash_native(pid):
    L5 = range(0, 66) if THOROUGH else [*range(0, 9), 16, 33, 50, 64]
    L7 = range(0, 34) if THOROUGH else [*range(0, 5), 9, 20]
    return native_equals_ref([("mimc5_hash", "mimc5_hash", 1), ("mimc7_hash", "mimc7_hash", 1)] +
                             [("multi_mimc5_hash", "multi_mimc5_hash,%d" % k, k) for k in L5] +
                             [("multi_mimc7_hash", "multi_mimc7_hash,%d" % k, k) for k in L7])


def instance_is(pid, tag, sysm, n):
    if sysm.ninst != n + 1:
        raise Violation("%s: %d public inputs instead of %d" % (tag, sysm.ninst - 1, n), tag)


def check_df_circuit(pid):
    sym = Sym(["info", "df3", "df5"])
    ref = Ref(sym.doc)
    for scen, base, e in (("df5", "mimc5_df", 5), ("df3", "mimc3_df", 3)):
        n = sym.j["info"][base.upper() + "_ROUNDS"]
        for path, s in load(sym, scen):
            instance_is(pid, scen, s, 1)
            want = ref.df(ref.s("xl"), ref.s("xr"), ROUNDS[base], e)
            ff_sound(pid, scen, s, path, scen, ["xl", "xr"], {1: want}, const_fn(n, 0))


STEPS = {}


def step_sound(tag, s, stop, ins, out, want, keep=None):
    """rows around `out`, down to the variables `stop`, force v_out to be
    `want` (over symbols named in ins: {symbol: variable}).  Queries that only
    differ in the names of variables are put to the solver once."""
    back = lambda r: max(row_vars(r) or {0}) <= out and (keep is None or keep(r))
    for kp in ((back, keep) if out >= s.ninst else (keep,)):
        idx = component(s, [out], set(stop) - {out}, keep=kp, limit=4000)
        if not idx:
            continue
        key = (s.doc.serial, canon(s, idx, [*ins.values(), out]), tuple(ins), want)
        if key not in STEPS:
            e = Emit(s.doc)
            for nm, v in ins.items():
                e.declare("v%d" % v)
                e.substsym[nm] = "v%d" % v
            for i in sorted(idx):
                e.row(*s.rows[i])
            e.declare("v%d" % out)
            STEPS[key], _ = solve("%s.step%d" % (tag, out), e.text(goal="(not (= v%d %s))" % (out, e.term(want))), timeout=20)
        if STEPS[key] == "unsat":
            return True
    return False


def chain_sound(tag, s, keyvar, xvars, pubvar, rounds, e, keep=None):
    """the list hash, element by element: the running value after an element
    is forced by the one before it and the element.  None, or the element
    whose step was not proved."""
    ref = Ref(s.doc)
    L = len(xvars)
    want = s.doc.add(s.doc.add(ref.s("_prev"), ref.s("_x")), ref.hash(ref.s("_x"), ref.s("_prev"), rounds, e))
    r, cands = ref.s("key"), [[keyvar]]
    byval = {}
    for v in range(1, s.n):
        byval.setdefault(s.doc.lf(s.prove.honest[v]), []).append(v)
    for i in range(L):
        r = s.doc.add(s.doc.add(r, ref.s("x%d" % i)), ref.hash(ref.s("x%d" % i), r, rounds, e))
        cands.append([pubvar] if i == L - 1 else byval.get(r, []))
    if any(not c for c in cands):
        return -1
    stop = {v for c in cands for v in c} | set(xvars)
    prev = keyvar
    for i in range(L):
        for c in cands[i + 1][:3]:
            if step_sound("%s.el" % tag, s, stop, {"_prev": prev, "_x": xvars[i]}, c, want, keep):
                prev = c
                break
        else:
            return i
    return None


def check_hash_circuit(pid):
    cfg = [("h5", "mimc5_hash", 5, L) for L in ([*range(1, 21), 50] if THOROUGH else [1, 2, 3, 4, 5, 6, 50])]
    cfg += [("h7", "mimc7_hash", 7, L) for L in (range(1, 13) if THOROUGH else (1, 2, 3, 8))]
    sym = Sym(["info"] + ["%s,%d" % (c[0], c[3]) for c in cfg])
    ref = Ref(sym.doc)
    for scen, base, e, L in cfg:
        n = sym.j["info"][base.upper() + "_ROUNDS"]
        for path, s in load(sym, "%s,%d" % (scen, L)):
            instance_is(pid, scen, s, 1)
            xs = ["x%d" % i for i in range(L)]
            car = {x: s.roles(x) for x in ["key"] + xs}
            bad = -1
            if all(car.values()) and not path["decisions"] and n == ROUNDS[base]:
                bad = chain_sound("%s.%d" % (scen, L), s, car["key"][0], [car[x][0] for x in xs], 1, n, e)
                if bad is None:
                    continue
            want = ref.multi([ref.s(x) for x in xs], ref.s("key"), ROUNDS[base], e)
            if L > 3 and all(car.values()):
                roles = {x: car[x][0] for x in car}
                near = [c[0] for c in (car["x%d" % min(bad + d, L - 1)] for d in (0, 1))] if bad >= 0 else []
                forge(pid, "%s.%d" % (scen, L), s, "%s %d" % (scen, L), roles, {1: want}, const_fn(0, n), near=near)
                NOTES.append("%s with %d inputs: not decided (element step %d), no forged witness found" % (scen, L, bad))
                continue
            ff_sound(pid, "%s.%d" % (scen, L), s, path, "%s %d" % (scen, L), ["key"] + xs, {1: want}, const_fn(0, n))


def not_bool_rows(s):
    """all rows but the b*b=b ones (dropping rows is sound for unsat; the
    Groebner engine stalls on them)"""
    bools = classify_boolean(s.doc, s.rows)
    return {i for i, r in enumerate(s.rows) if not (len(row_vars(r)) == 1 and row_vars(r) <= bools)}


def bit_roles(systems, patterns, nbits, pick_first=True):
    """variables that carry bit k of the pattern in every honest run"""
    out = {}
    doc = systems[0].doc
    cols = []
    for v in range(1, systems[0].n):
        col = []
        for s in systems:
            l = doc.lf(s.prove.honest[v])
            if not doc.is_const(l) or l[1] > 1:
                col = None
                break
            col.append(l[1])
        cols.append(col)
    for k in range(nbits):
        want = [(p >> k) & 1 for p in patterns]
        out[k] = [v + 1 for v, c in enumerate(cols) if c == want]
    return out


def bit_patterns(nbits, extra):
    rng = random.Random(SEED)
    return [0, (1 << nbits) - 1] + [1 << k for k in range(nbits)] + [rng.getrandbits(nbits) for _ in range(extra)]


def pow_systems():
    n = Sym(["info"]).j["info"]["POW_SIZE"]
    pats = bit_patterns(n, 4)
    sym = Sym(["info"] + ["pow,0x%x" % p for p in pats])
    sys_ = []
    for p in pats:
        ps = load(sym, "pow,0x%x" % p)
        if len(ps) != 1:
            raise CheckError("pow: circuit branches on field values")
        sys_.append(ps[0])
    return sym, n, pats, sys_


def check_pow_circuit(pid):
    sym, n, pats, pss = pow_systems()
    systems = [s for _, s in pss]
    path, s = pss[-1]
    doc = sym.doc
    instance_is(pid, "pow", s, 1)
    br = bit_roles(systems, pats, n)
    if any(not br[k] for k in br):
        raise CheckError("pow: no variable carries exponent bits %s" % [k for k in br if not br[k]])
    ref = Ref(doc)
    acc, g = doc.const(1), ref.s("g")
    cuts = []
    for k in range(n):
        b = ref.s("b%d" % k)
        # not flattened: the intermediate products are the cut points
        acc = doc.mul(acc, doc.add(doc.mul(b, doc.add(g, doc.const(-1)), False), doc.const(1)), False)
        g = doc.mul(g, g, False)
        cuts += [acc, g]
    # bits are 0/1
    carriers = {"b%d" % k: br[k][0] for k in br}
    for k in br:
        e = Emit(doc)
        for r in s.rows:
            if row_vars(r) == {br[k][0]}:
                e.row(*r)
        v = "v%d" % br[k][0]
        e.declare(v)
        verdict, _ = solve("pow.bool%d" % k, e.text(goal="(not (= (ff.mul %s %s) %s))" % (v, v, v)))
        if verdict != "unsat":
            forge_bits(pid, "pow", s, "pow", carriers, {1: acc}, const_fn(0, 0), {"g": s.roles("g")[0]})
            raise CheckError("pow: bit %d is not forced to 0/1 (%s) but nothing was forged" % (k, verdict))
    ff_sound(pid, "pow", s, path, "pow", ["g"], {1: acc}, const_fn(0, 0), pub_roles=carriers, use_rows=not_bool_rows(s), cuts=cuts)


def forge_bits(pid, tag, s, head, carriers, pubs, consts, roles):
    """a non-boolean exponent bit: pick value 2 for one bit at a time"""
    en = sym_env("%s/fb" % SEED)
    nv = eval_nodes(s.doc, en)
    rows = concrete_rows(s, nv)
    honest = {i: nv[s.prove.honest[i]] for i in range(s.n)}
    for name, v in carriers.items():
        fixed = {x: honest[x] for x in list(carriers.values()) + list(roles.values())}
        fixed[v] = 2
        val = propagate(rows, s.n, fixed, honest)
        if check_rows(rows, val):
            continue
        r, text = replay_circuit(head, *consts(en), {**{k: val[x] for k, x in carriers.items()}, **{k: val[x] for k, x in roles.items()}}, val, s.n)
        if r.get("rows_ok") == "true":
            raise Violation("%s: exponent bit %s may be 2" % (tag, name), "# %s\n%s" % (json.dumps(r), text))


# ------------------------------------------------- circuits with bit expansions

def publish(what, head, cs, hs, roles, val, n, claims):
    """confirm an assignment on the real circuit and report it"""
    r, text = replay_circuit(head, cs, hs, roles(val), val, n)
    if r.get("rows_ok") == "true" and claims(val):
        raise Violation(what, "# %s\n# %s\n%s" % (what, json.dumps(r), text))


def complete_bits(tag, s, rows, keep, goal, roots, honest):
    """complete a partial assignment `keep` (field part) to all variables with
    a bit-vector query for the rest; None when there is no completion"""
    fix = dict(keep)
    for _ in range(6):
        bv = BitView(s, roots, fix=fix, rows=rows)
        more = bv.residual_nonbool() - set(fix) - set(roots)
        if not more:
            break
        fix.update({v: honest[v] for v in more})
    verdict, model, dropped = bv.query(tag + ".forge", goal, roots=[], timeout=8)
    if verdict != "sat":
        return None
    val = bv.back(model, honest)
    return None if check_rows(rows, val) else val


def field_rows(s):
    """rows without any boolean-constrained variable"""
    bools = classify_boolean(s.doc, s.rows)
    return [i for i, r in enumerate(s.rows) if not (row_vars(r) & bools)]


def deviations(s, nv, fixed0, honest, salt, near=None):
    """assignments of the field part that differ from the honest one in one
    variable (and what follows from it); rows with bits are left open"""
    rows = concrete_rows(s, nv)
    fr = [rows[i] for i in field_rows(s)]
    occ = set().union(*[{v for part in r for _, v in part} for r in fr])
    rng = random.Random("%s/%s" % (SEED, salt))
    order = sorted(occ, reverse=True)
    if near is not None:
        order.sort(key=lambda d: abs(d - near))
    for d in order:
        if d in fixed0 or d == 0:
            continue
        for delta in (1, rng.randrange(P)):
            val = propagate(fr, s.n, {**fixed0, d: (honest[d] + delta) % P}, honest)
            if any(val[v] != x for v, x in fixed0.items()) or check_rows(fr, val):
                continue
            yield d, {v: val[v] for v in occ if v}
            break


def check_equal_circuit(pid):
    diffs = list(range(1, 257)) if THOROUGH else [1, 2, 3, 7, 8, 9, 16, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 192, 200, 253, 254, 255, 256]
    x2 = random.Random(SEED).randrange(P)
    scen = {d: "equal,%d,0x%x" % (d, x2) for d in diffs}

    for k, d in enumerate(diffs):
        if k % 12 == 0:
            sym = Sym(["info"] + [scen[x] for x in diffs[k:k + 12]])
        ps = load(sym, scen[d])
        if len(ps) != 1:
            raise CheckError("equal: circuit branches on field values")
        path, s = ps[0]
        instance_is(pid, "equal %d" % d, s, 2)
        bv = BitView(s, [1, 2])
        mask = (1 << d) - 1
        goal = "(not (= f1 (bvand f2 (_ bv%d 256))))" % mask
        verdict, model, dropped = bv.query("equal.%d" % d, goal, roots=[1, 2], timeout=200)
        if verdict == "unsat":
            continue
        nv = eval_nodes(s.doc, lambda n: 0)
        rows = concrete_rows(s, nv)
        honest = {i: nv[s.prove.honest[i]] for i in range(s.n)}
        pub = lambda val, why: publish(
            "equal circuit, difficulty %d (%s): an assignment satisfying every constraint publishes x1=%s for x2=%s" % (d, why, hx(val[1]), hx(val[2])),
            "equal %d" % d, [], [], lambda w: {"x2": w[2]}, val, s.n, lambda w: w[1] != w[2] & mask)
        if verdict == "sat":
            val = bv.back(model, honest)
            if not check_rows(rows, val):
                pub(val, "solver model")
        val = complete_bits("equal.%d" % d, s, rows, {}, goal, [1, 2], honest)
        if val:
            pub(val, "solver model")
        for dv in range(s.n - 1, 0, -1):
            val = propagate(rows, s.n, {dv: (honest[dv] + 1) % P}, honest)
            if not check_rows(rows, val):
                pub(val, "variable %d is not determined" % dv)
        raise CheckError("equal %d: %s, dropped rows %d" % (d, verdict, dropped))


# -------------------------------------------------------------- pospace circuit

def invert_df5(y, cs, rng):
    """inputs (xl, xr) of the ten-round Feistel network with output y"""
    xl, xr = y, rng.randrange(P)
    for c in reversed(cs):
        xl, xr = xr, (xl - pow(xr + c, 5, P)) % P
    return xl, xr


class Pospace:
    def __init__(self, sym, L, scen):
        self.L, self.sym = L, sym
        ps = load(sym, scen)
        if len(ps) != 1:
            raise CheckError("pospace: circuit branches on field values")
        self.path, self.s = ps[0]
        self.doc = sym.doc
        ref = Ref(self.doc)
        self.ref = ref
        xs = [ref.s("x%d" % i) for i in range(L)]
        self.Y = [ref.df(self.doc.add(ref.s("key"), x), ref.s("m"), ROUNDS["mimc5_df"], 5) for x in xs]
        self.H = ref.multi(xs, ref.s("key"), ROUNDS["mimc5_hash"], 5)
        self.roles = {"key": 1, "m": 2}
        self.ynv = list(range(3, 3 + L))
        self.hv = 3 + L


def pospace_env(L, seed, ys=None):
    """numbers for every symbol, with prescribed delay function outputs (L=1)"""
    base = sym_env(seed)
    if not ys:
        return base
    xl, xr = invert_df5(ys[0], [base("c%d" % i) for i in range(ROUNDS["mimc5_df"])], random.Random(seed))
    m = {"m": xr, "x0": (xl - base("key")) % P}
    return lambda n: m.get(n, base(n))


def concrete_df5(env, i):
    xl, xr = (env("key") + env("x%d" % i)) % P, env("m")
    for k in range(ROUNDS["mimc5_df"]):
        xl, xr = (xr + pow(xl + env("c%d" % k), 5, P)) % P, xl
    return xl


def check_pospace_circuit(pid):
    info = Sym(["info"]).j["info"]
    N = info["N"]
    rng = random.Random(SEED)
    full = info["RESPONSE_COUNT"]
    if any(info[k.upper() + "_ROUNDS"] != ROUNDS[k] for k in ("mimc5_df", "mimc5_hash")):
        raise CheckError("pospace: changed round counts")
    for L in sorted({1, 2, full} | (set(range(1, 9)) if THOROUGH else set())):
        ys = [rng.randrange(P) for _ in range(L)]
        scen = "pospace,%d,%s" % (L, ",".join("0x%x" % y for y in ys))
        pos = Pospace(Sym(["info", scen]), L, scen)
        s, doc, tag = pos.s, pos.doc, "pospace.%d" % L
        instance_is(pid, tag, s, 3 + L)
        bools = classify_boolean(doc, s.rows)
        plain = lambda r: not (row_vars(r) & bools)
        byval = {}
        for v in range(1, s.n):
            byval.setdefault(doc.lf(s.prove.honest[v]), []).append(v)
        ref = pos.ref
        cand = [byval.get(ref.s("x%d" % i), []) for i in range(L)]
        yv = [byval.get(pos.Y[i], []) for i in range(L)]
        if any(not c for c in cand):
            raise CheckError("pospace: no variable carries the secrets")
        # (a) field part: x_i carriers, delay function outputs, hash
        bad, ycar = [], []
        base = {1, 2} | {c[0] for c in cand}
        want = ref.df(doc.add(ref.s("key"), ref.s("_x")), ref.s("m"), ROUNDS["mimc5_df"], 5)
        for i in range(L):
            for v in yv[i][:3]:
                if step_sound("%s.df" % tag, s, base, {"key": 1, "m": 2, "_x": cand[i][0]}, v, want, plain):
                    ycar.append(v)
                    break
            else:
                bad.append(("delay function output %d" % i, i))
                break
        if not bad:
            j = chain_sound("%s.hash" % tag, s, 1, [c[0] for c in cand], pos.hv, ROUNDS["mimc5_hash"], 5, plain)
            if j is not None:
                bad.append(("list hash, element %d" % j, max(j, 0)))
        # (b) bit part
        seen = {}
        for i in range(L if not bad else 0):
            idx = component(s, [pos.ynv[i]], base | {ycar[i]}, limit=20000)
            key = canon(s, idx, [pos.ynv[i], ycar[i]]) if idx else None
            if key is None or key not in seen:
                bv = BitView(Sub(s, idx or []), [ycar[i], pos.ynv[i]])
                goal = "(not (= f%d (bvand f%d (_ bv%d 256))))" % (pos.ynv[i], ycar[i], (1 << N) - 1)
                verdict, model, dropped = bv.query("%s.bits%d" % (tag, i), goal, roots=[pos.ynv[i], ycar[i]], timeout=200)
                seen[key] = (verdict, model.get(ycar[i]))
            verdict, y = seen[key]
            if verdict != "unsat":
                bad.append(("bits of response %d: %s" % (i, verdict), i))
                if verdict == "sat" and L == 1 and y is not None:
                    forge_pospace(pid, tag, L, N, info, [y], i)
                break
        if bad:
            forge_pospace(pid, tag, L, N, info, None, bad[0][1])
            if L > 2:
                NOTES.append("%s: not decided (%s), no forged witness found" % (tag, bad[0][0]))
            else:
                raise CheckError("%s: %s" % (tag, bad[0][0]))


def forge_pospace(pid, tag, L, N, info, ys, at):
    """concrete witness for a false statement about response `at` or the hash,
    confirmed on the real circuit"""
    t0 = time.time()
    for k in range(2):
        env = pospace_env(L, "%s/pf/%d" % (SEED, k), ys if k == 0 else None)
        real = [concrete_df5(env, i) for i in range(L)]
        scen = "pospace,%d,%s" % (L, ",".join("0x%x" % y for y in real))
        pos = Pospace(Sym(["info", scen]), L, scen)
        s = pos.s
        nv = eval_nodes(pos.doc, env)
        allrows = concrete_rows(s, nv)
        honest = {i: nv[s.prove.honest[i]] for i in range(s.n)}
        cs = [env("c%d" % i) for i in range(info["MIMC5_DF_ROUNDS"])]
        hs = [env("h%d" % i) for i in range(info["MIMC5_HASH_ROUNDS"])]
        roles = {**{"x%d" % i: s.roles("x%d" % i)[0] for i in range(L)}, **pos.roles}

        def truth(val):
            env2 = lambda n: val[roles[n]] if n in roles else env(n)
            y = [concrete_df5(env2, i) & ((1 << N) - 1) for i in range(L)]
            return y, concrete_ref("multi_mimc5_hash", env2, L)

        def claims(val):
            y, h = truth(val)
            return [val[v] for v in pos.ynv] != y or val[pos.hv] != h

        def pub(val, why):
            if val is not None and not check_rows(allrows, val):
                publish("pospace circuit, %d responses (%s): an assignment satisfying every constraint claims a false public value" % (L, why),
                        "pospace %d" % L, cs, hs, lambda w: {n: w[v] for n, v in roles.items()}, val, s.n, claims)
        keep0 = {v: honest[v] for v in roles.values()}
        y, h = truth(honest)
        pub(honest, "honest witness")
        # everything connected to the response, or to the hash
        for start in (pos.ynv[at], pos.hv):
            idx = component(s, [start], set(roles.values()))
            if not idx:
                continue
            sub = Sub(s, idx)
            rows = [allrows[i] for i in sub.index]
            roots = [v for v in pos.ynv if v == start]
            if roots:
                goal = "(not (= f%d (_ bv%d 256)))" % (start, y[at])
                val = complete_bits(tag, sub, rows, keep0, goal, roots, honest)
                pub(val, "bit expansion")
            n = 0
            for d, part in deviations(sub, nv, keep0, honest, "pf%d" % k, near=roles["x%d" % at]):
                n += 1
                if n > 60 or time.time() - t0 > 250:
                    break
                if roots:
                    val = complete_bits(tag, sub, rows, {**keep0, d: part[d]}, "true", roots, {**honest, **part})
                else:
                    val = {**honest, **part}
                pub(val, "variable %d is not determined" % d)


# -------------------------------------------------- completeness and public order

def same_system(doc, a, b):
    """setup and prove synthesis give the same matrices"""
    if (a.ninst, a.nwit, len(a.rows)) != (b.ninst, b.nwit, len(b.rows)):
        return "setup has %d/%d variables and %d constraints, the prover's circuit %d/%d and %d" % (
            a.ninst, a.nwit, len(a.rows), b.ninst, b.nwit, len(b.rows))

    def norm(part):
        d = {}
        for c, v in part:
            d[v] = doc.add(d[v], doc.lf(c)) if v in d else doc.lf(c)
        z = doc.const(0)
        return {v: l for v, l in d.items() if l != z}
    for i, (r, q) in enumerate(zip(a.rows, b.rows)):
        if any(norm(x) != norm(y) for x, y in zip(r, q)):
            return "constraint %d differs between setup and prover" % i
    return None


def honest_ok(tag, doc, path, rows, honest, expect, timeout=60):
    """rows hold for the honest expressions and the instance is `expect`
    (linear forms), for every value of the symbols.  Returns None or a reason."""
    lfs = [doc.lf(h) for h in honest]

    def lc(part):
        s = doc.const(0)
        for c, v in part:
            t = doc.lf(c)
            s = doc.add(s, t if v == 0 else doc.mul(t, lfs[v]))
        return s
    e = Emit(doc)
    path_cond(e, path)
    goals, same = [], set()
    for i, r in enumerate(rows):
        a, b, c = map(lc, r)
        ab = doc.mul(a, b)
        if doc.is_const(ab) and doc.is_const(c):
            if ab != c:
                return "constraint %d is violated by the honest witness" % i
            continue
        if ab == c:
            # identical normal forms: no path condition is needed; the linear
            # forms inside the products are replaced by fresh constants, which
            # only generalises the obligation
            same.add(row_obligation(doc, a, b, c))
            continue
        goals.append("(not (= (ff.mul %s %s) %s))" % (e.term(a), e.term(b), e.term(c)))
    for i, w in enumerate(expect):
        if lfs[1 + i] != w:
            goals.append("(not (= %s %s))" % (e.term(lfs[1 + i]), e.term(w)))
    CROSS.update(same)
    for k in range(0, len(goals), 60):
        v, _ = solve("%s.complete.%d" % (tag, k), e.text(goal="(or false %s)" % " ".join(goals[k:k + 60])), timeout=timeout)
        if v != "unsat":
            for j, g in enumerate(goals[k:k + 60]):
                v, _ = solve("%s.complete.%d.%d" % (tag, k, j), e.text(goal=g), timeout=timeout)
                if v != "unsat":
                    return "honest witness: obligation %d is %s" % (k + j, v)
    return None


CROSS = set()


def row_obligation(doc, a, b, c):
    name, g = {}, {}
    e = Emit(doc)

    def factors(l):
        if len(l[0]) == 1 and l[1] == 0 and doc.atoms[l[0][0][0]][0] == "m":
            return l[0][0][1], doc.atoms[l[0][0][0]][1]
        k = l[0][0][1]
        return k, ((doc.scale(l, pow(k, P - 2, P)), 1),)
    for l in (a, b, c):
        if not doc.is_const(l):
            for f, k in factors(l)[1]:
                g[f] = math.gcd(g.get(f, 0), k)     # f^gcd is one unknown

    def fresh(l):
        return name.setdefault(l, "n%d" % len(name))

    def term(l):
        if doc.is_const(l):
            return e.c(l[1])
        k, parts = factors(l)
        fs = [e.c(k)]
        for f, n in parts:
            fs += [fresh(f)] * (n // g[f])
        return "(ff.mul %s)" % " ".join(fs)
    g = "(not (= (ff.mul %s %s) %s))" % (term(a), term(b), term(c))
    return "(push 1)\n" + "".join("(declare-const %s F)\n" % n for n in name.values()) + "(assert %s)\n(check-sat)\n(pop 1)\n" % g


def run_cross():
    """the row obligations, many per solver call; all must be unsat"""
    qs = sorted(CROSS)
    for k in range(0, len(qs), 400):
        part = qs[k:k + 400]
        v, out = solve("rows%d" % k, ff.HDR + "".join(part), timeout=200)
        if out.split().count("unsat") != len(part):
            raise CheckError("row obligations: %d of %d discharged: %s" % (out.split().count("unsat"), len(part), out[-300:]))
        ff.STATS.queries += len(part) - 1
        ff.STATS.verdicts["unsat"] += len(part) - 1
    CROSS.clear()


def completeness(pid, tag, sym, scen, head, ninst_expect, consts, concrete):
    """concrete(env) -> roles for the replay"""
    doc = sym.doc
    for path in sym.paths(scen):
        why = None
        if not path["ok"]:
            why = "synthesis panics: %s" % path["body"]
            s = None
        else:
            b = path["body"]
            s = System(doc, R1CS(doc, b["setup"]), R1CS(doc, b["prove"]))
            why = same_system(doc, s.setup, s.prove)
            if not why and s.ninst != len(ninst_expect) + 1:
                why = "%d public inputs" % (s.ninst - 1)
            if not why:
                why = honest_ok(tag, doc, path, s.rows, s.prove.honest, ninst_expect)
        if not why:
            continue
        for k, env in enumerate(candidate_envs(path, sym, 1)):
            roles = concrete(env, k)
            if "_env" in roles:
                env = roles.pop("_env")
            r, text = replay_circuit(head, *consts(env), roles, None, 0)
            if "panic" in r or "false" in (r.get("honest_satisfied"), r.get("honest_instance_ok"), r.get("honest_shape_ok")):
                what = "%s: an honest prover's witness is not accepted by the real circuit (%s)" % (tag, why)
                raise Violation(what, "# %s\n# real circuit: %s\n%s" % (what, json.dumps(r), text))
        raise CheckError("%s: %s, not reproduced on the real circuit" % (tag, why))


def check_complete(pid):
    rng = random.Random(SEED)
    info = Sym(["info"]).j["info"]
    N, np_ = info["N"], info["POW_SIZE"]
    nc3, nc5, nh5, nh7 = (info[k + "_ROUNDS"] for k in ("MIMC3_DF", "MIMC5_DF", "MIMC5_HASH", "MIMC7_HASH"))
    # delay functions and hashes
    L5, L7 = ((*range(1, 9), 50), (1, 2, 3, 4, 8)) if THOROUGH else ((1, 2, 3, 4, 50), (1, 2, 3))
    sym = Sym(["info", "df3", "df5"] + ["h5,%d" % k for k in L5] + ["h7,%d" % k for k in L7])
    ref = Ref(sym.doc)
    df = lambda e, n: ref.df(ref.s("xl"), ref.s("xr"), n, e)
    both = lambda env, k: {"xl": env("xl"), "xr": env("xr")}
    completeness(pid, "df3", sym, "df3", "df3", [df(3, ROUNDS["mimc3_df"])], const_fn(nc3, 0), both)
    completeness(pid, "df5", sym, "df5", "df5", [df(5, ROUNDS["mimc5_df"])], const_fn(nc5, 0), both)
    for nm, Ls, e, n in (("h5", L5, 5, nh5), ("h7", L7, 7, nh7)):
        for L in Ls:
            want = ref.multi([ref.s("x%d" % i) for i in range(L)], ref.s("key"), ROUNDS["mimc%d_hash" % e], e)
            completeness(pid, "%s.%d" % (nm, L), sym, "%s,%d" % (nm, L), "%s %d" % (nm, L), [want], const_fn(0, n),
                         lambda env, k, L=L: {"key": env("key"), **{"x%d" % i: env("x%d" % i) for i in range(L)}})
    # pow: bit patterns
    pats = bit_patterns(np_, 12 if THOROUGH else 4)
    sym = Sym(["pow,0x%x" % p for p in pats])
    ref = Ref(sym.doc)
    for p in pats:
        acc, g = sym.doc.const(1), ref.s("g")
        for k in range(np_):
            if (p >> k) & 1:
                acc = sym.doc.mul(acc, g)
            g = sym.doc.mul(g, g)
        completeness(pid, "pow.%x" % p, sym, "pow,0x%x" % p, "pow", [acc], const_fn(0, 0),
                     lambda env, k, p=p: {"g": env("g"), **{"b%d" % i: (p >> i) & 1 for i in range(np_)}})
    # equal: x2 patterns x difficulty
    x2s = [0, 1, P - 1, (1 << 254) | 1, rng.randrange(P)] + [rng.randrange(P) for _ in range(10 if THOROUGH else 1)]
    ds = [1, 2, 8, 20, 64, 255, 256] if THOROUGH else [1, 8, 20, 256]
    cases = [(d, x) for d in ds for x in x2s]
    sym = Sym(["equal,%d,0x%x" % c for c in cases])
    for d, x in cases:
        completeness(pid, "equal.%d.%x" % (d, x), sym, "equal,%d,0x%x" % (d, x), "equal %d" % d,
                     [sym.doc.const(x & ((1 << d) - 1)), sym.doc.const(x)], const_fn(0, 0), lambda env, k, x=x: {"x2": x})
    # pospace
    cases = [[y] for y in [0, 1, P - 1, (1 << 254) - 1, 1 << 20, (1 << 20) - 1] + [rng.randrange(P) for _ in range(16 if THOROUGH else 3)]]
    cases += [[1 << k] for k in range(0, 255, 8 if THOROUGH else 51)]
    cases += [[rng.randrange(P) for _ in range(k)] for k in (2, 3, info["RESPONSE_COUNT"])]
    names = ["pospace,%d,%s" % (len(c), ",".join("0x%x" % y for y in c)) for c in cases]
    for c, nm in zip(cases, names):
        L = len(c)
        sym = Sym([nm])
        ref = Ref(sym.doc)
        want = [ref.s("key"), ref.s("m")] + [sym.doc.const(y & ((1 << N) - 1)) for y in c]
        want.append(ref.multi([ref.s("x%d" % i) for i in range(L)], ref.s("key"), ROUNDS["mimc5_hash"], 5))

        def conc(env, k, L=L, c=c):
            env = pospace_env(L, "%s/pc/%d" % (SEED, k), c if L == 1 else None)
            return {"_env": env, "key": env("key"), "m": env("m"), **{"x%d" % i: env("x%d" % i) for i in range(L)}}
        completeness(pid, "pospace.%d.%x" % (L, c[0]), sym, nm, "pospace %d" % L, want, const_fn(nc5, nh5), conc)


    run_cross()


def check_wire(pid):
    """construct_circuit, response_2 and verify agree on the statement"""
    info = Sym(["info"]).j["info"]
    L = info["RESPONSE_COUNT"]
    names = ["wire,%d,%d,%d" % (v, st, L) for st in (1, 2) for v in (0, 1, 2)]
    for nm in names:
        verdict, stride = int(nm.split(",")[1]), int(nm.split(",")[2])
        sym = Sym([nm])
        doc, ref = sym.doc, Ref(sym.doc)
        for path in sym.paths(nm):
            why = None
            if not path["ok"]:
                why = "panic: %s" % path["body"]
            else:
                b = path["body"]
                xs = [ref.s("x%d" % i) for i in range(L)]
                want = [ref.s("key"), ref.s("m")] + [doc.const(y) for y in b["yn"]]
                if b["accepted"] != (verdict == 0):
                    why = "verify %s although the proof check said %s" % ("accepts" if b["accepted"] else "rejects", ["true", "false", "error"][verdict])
                elif verdict == 0 and len(b["verifies"]) < 1:
                    why = "the proof is never checked"
                elif verdict == 0:
                    vk, pi, inputs = b["verifies"][-1]
                    pvk, pj = b["proofs"][pi]
                    sj = R1CS(doc, b["setups"][vk])
                    pr = R1CS(doc, pj)
                    if pvk != vk:
                        why = "proof made with other parameters"
                    if not why:
                        why = same_system(doc, sj, pr)
                    if not why and (len(inputs) != sj.ninst - 1 or len(inputs) != L + 3):
                        why = "%d public inputs given, circuit has %d" % (len(inputs), sj.ninst - 1)
                    if not why:
                        e = Emit(doc)
                        goals = ["(not (= %s %s))" % (e.node(i), e.term(w)) for i, w in zip(inputs, want + [ref.s("xh")])]
                        H = ref.multi(xs, ref.s("key"), ROUNDS["mimc5_hash"], 5)
                        goals += ["(not (= %s %s))" % (e.node(i), e.term(w)) for i, w in zip(pr.honest[1:sj.ninst], want + [H])]
                        path_cond(e, {"decisions": path["decisions"], "escapes": []})
                        v, _ = solve(nm + ".inputs", e.text(goal="(or %s)" % " ".join(goals)), timeout=100)
                        if v != "unsat":
                            why = "public inputs of proof and verification differ (%s)" % v
            if not why:
                continue
            r = run_real("circuit wire %d\n" % stride)
            if "panic" in r or r.get("wire_accept") != "true" or r.get("wire_tampered_accepted") != "none":
                raise Violation("second round of the protocol: %s" % why, "%s\nreal proof system: %s\nreplay: echo 'circuit wire %d' | realrun\n" % (why, json.dumps(r), stride))
            raise CheckError("%s: %s, not reproduced" % (nm, why))
