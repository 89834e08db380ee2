"""Engine B: the repository's crates compiled to LLVM bitcode together with
shims and harnesses, run by engine/symex; counterexamples are replayed on a
native build of the same sources."""
import glob, json, os, re, shutil, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from common import BUILD, ENGINE, REPO, CheckError, Violation, env, write_if_changed, sync_tree
import common

NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
ROOT = os.environ.get("RUSTUP_HOME", os.path.expanduser("~/.rustup")) + "/toolchains/" + NIGHTLY
TOOLS = ROOT + "/lib/rustlib/%s/bin" % TRIPLE
SPACE_DEPS = """rand = { path = "@/rand" }
ark-groth16 = { path = "@/ark-groth16" }
ark-ff = { path = "@/ark-ff" }
ark-ec = { path = "@/ark-ec" }
ark-std = { version = "0.3.0", default-features = false }
ark-relations = { version = "0.3.0", default-features = false }
ark-bls12-381 = { path = "@/ark-bls12-381", features = ["curve"] }
vstd = { path = "@/vstd" }
ndlib = { path = "@/ndlib" }
kfield = { path = "@/kfield" }
""".replace("@", "../../engine/xshims")
STORAGE_DEPS = """rand = { path = "@/rand" }
num-bigint = { path = "@/num-bigint" }
rs_merkle = "1.2"
rug = { path = "@/rug" }
md-5 = "0.9.1"
blake3 = { path = "@/blake3" }
serde = { version = "1.0", features = ["derive"] }
bincode = "1.3.1"
threadpool = { path = "@/threadpool" }
ark-ff = { version = "0.3.0", default-features = false }
vstd = { path = "@/vstd" }
ndlib = { path = "@/ndlib" }
bigz = { path = "@/bigz" }
""".replace("@", "../../engine/xshims")
STORAGE_PATCH = '[patch.crates-io]\nsha2 = { path = "../../engine/xshims/sha2" }\n'
CRATES = {"space": dict(src="proof_of_space", lib="proof_of_space", deps=SPACE_DEPS),
          "storage": dict(src="proof_of_storage", lib="proof_of_storage", deps=STORAGE_DEPS, patch=STORAGE_PATCH),
          # the same with an arbitrary permutation in the place of the delay function
          "sealing": dict(src="proof_of_storage", lib="proof_of_storage", deps=STORAGE_DEPS, patch=STORAGE_PATCH,
                          overlay={"vde/rug_sloth.rs": "rug_sloth.rs"})}


def sh(cmd, cwd=None, e=None, timeout=800, what=None):
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    if p.returncode:
        raise CheckError("%s failed\n%s" % (what or " ".join(cmd[:3]), (p.stderr or p.stdout)[-4000:]))
    return p.stdout


def split_inner_attrs(text):
    head, lines = [], text.splitlines(True)
    while lines and (lines[0].startswith("#![") or lines[0].startswith("//") or not lines[0].strip()):
        head.append(lines.pop(0))
    return "".join(head), "".join(lines)


def select(text, parts):
    """the harness file without what only other parts need, so that a check
    depends on the signatures of the functions it uses only"""
    out, keep, entry = [], True, None
    for l in text.splitlines(True):
        if l.startswith("//@ "):
            w = l.split()[1:]
            keep = w == ["all"] or any(p in w for p in parts)
            continue
        m = re.match(r"    h_([a-z0-9]+)_", l)
        if m:
            entry = m.group(1)
        elif l.startswith("}") or re.match(r"    //", l):
            entry = None
        if keep and (entry is None or entry in parts):
            out.append(l)
    return "".join(out)


def stage(which, parts):
    c = CRATES[which]
    d = os.path.join(BUILD, "x_" + which)
    tmp = d + ".stage"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, c["src"], "src"), tmp,
                    ignore=lambda p, fs: [f for f in fs if not (f.endswith(".rs") or os.path.isdir(os.path.join(p, f)))])
    root = open(os.path.join(tmp, "main.rs")).read()
    os.remove(os.path.join(tmp, "main.rs"))
    h, rest = split_inner_attrs(root)
    with open(os.path.join(tmp, "lib.rs"), "w") as f:
        f.write(h + "extern crate vstd as std;\npub mod verif_harness;\n" + rest)
    with open(os.path.join(tmp, "verif_harness.rs"), "w") as f:
        f.write(select(open(os.path.join(ENGINE, "x" + which, "harness.rs")).read(), parts))
    for at, f in c.get("overlay", {}).items():
        # the original stays reachable from the overlay as *_orig.rs
        o = os.path.join(tmp, at)
        os.rename(o, o[:-3] + "_orig.rs")
        shutil.copy(os.path.join(ENGINE, "x" + which, f), o)
    sync_tree(tmp, os.path.join(d, "src"))
    shutil.rmtree(tmp)
    write_if_changed(os.path.join(d, "Cargo.toml"),
                     '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
                     '[lib]\npath = "src/lib.rs"\n[dependencies]\n' % c["lib"] + c["deps"] + c.get("patch", ""))
    return d


def std_bitcode():
    out = os.path.join(BUILD, "stdbc")
    os.makedirs(out, exist_ok=True)
    res = []
    for n in ("core", "alloc", "std"):
        bc = os.path.join(out, n + ".bc")
        if not os.path.exists(bc):
            lib = glob.glob(ROOT + "/lib/rustlib/%s/lib/lib%s-*.rlib" % (TRIPLE, n))[0]
            d = os.path.join(out, n)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            sh([TOOLS + "/llvm-ar", "x", lib], cwd=d)
            parts = []
            for i, o in enumerate(sorted(glob.glob(d + "/*.o"))):
                b = "%s/%d.bc" % (d, i)
                sh([TOOLS + "/llvm-objcopy", "-O", "binary", "--only-section=.llvmbc", "--set-section-flags", ".llvmbc=alloc", o, b])
                if os.path.getsize(b):
                    parts.append(b)
            sh([TOOLS + "/llvm-link", *parts, "-o", bc])
            shutil.rmtree(d)
        res.append(bc)
    return res


def xenv(target, symex):
    e = env(target, verif_cfg=False)
    if symex:
        e["RUSTUP_TOOLCHAIN"] = NIGHTLY
        e["RUSTFLAGS"] = ("--emit=llvm-bc,link --cfg symex --cfg verif -Awarnings -C codegen-units=1 -C panic=abort -C opt-level=2 "
                          "-C no-vectorize-loops -C no-vectorize-slp -C overflow-checks=on -C debuginfo=0 -C embed-bitcode=yes")
    else:
        e["RUSTFLAGS"] = "--cfg verif -Awarnings"
    return e


def bitcode(which, fns):
    d = stage(which, {f.split("_")[1] for f in fns})
    tgt = os.path.join(BUILD, "t_x" + which)
    # one set of products: stale bitcode of an earlier build must not be linked
    shutil.rmtree(os.path.join(tgt, TRIPLE), ignore_errors=True)
    sh(["cargo", "build", "--offline", "--target", TRIPLE], cwd=d, e=xenv("t_x" + which, True), what="bitcode build of " + which)
    bcs = glob.glob(os.path.join(tgt, TRIPLE, "debug/**/*.bc"), recursive=True)
    main = [b for b in bcs if os.path.basename(b).startswith(CRATES[which]["lib"] + "-")]
    if len(main) != 1:
        raise CheckError("bitcode of %s not found: %s" % (which, main))
    core, alloc, std = std_bitcode()
    rest = [b for b in bcs if b != main[0]]
    linked = os.path.join(BUILD, "x_%s.bc" % which)
    ll = os.path.join(BUILD, "x_%s.ll" % which)
    sh([TOOLS + "/llvm-link", main[0], "--only-needed", *rest, *rest, *rest, alloc, std, alloc, core, "-o", linked], what="llvm-link")
    sh([TOOLS + "/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(fns), linked, "-S", "-o", ll], what="opt")
    return ll


def build_symex():
    sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(ENGINE, "symex"), e=env("t_symex", False), what="symex build")
    return os.path.join(BUILD, "t_symex/release/symex")


def build_native(which, fn):
    """replay driver"""
    stage(which, {fn.split("_")[1]})
    c = CRATES[which]
    d = os.path.join(BUILD, "xn_" + which)
    write_if_changed(os.path.join(d, "Cargo.toml"),
                     '[package]\nname = "xn"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                     'subject = { package = "%s", path = "../x_%s" }\nndlib = { path = "../../engine/xshims/ndlib" }\n' % (c["lib"], which) + c.get("patch", ""))
    write_if_changed(os.path.join(d, "src/main.rs"), open(os.path.join(ENGINE, "xreplay/main.rs")).read())
    sh(["cargo", "build", "--offline"], cwd=d, e=xenv("t_xn" + which, False), what="native build of " + which)
    return os.path.join(BUILD, "t_xn%s/debug/xn" % which)


def replay(which, fn, r):
    exe = build_native(which, fn)
    path = os.path.join(common.scratch(), "replay_%s.txt" % fn)
    with open(path, "w") as f:
        f.write("tape %s\n" % " ".join(str(v & (2**64 - 1)) for v, w in r.get("tape", [])))
        for s, a, v in r.get("ufs", []):
            f.write("arr %d %d %d\n" % (s, a, v))
    cmd = [exe, fn, path] + (["20000"] if r["status"] == "impossible" else [])
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return False, "native replay of %s did not finish" % fn
    out = p.stdout.strip().splitlines()
    if r["status"] == "impossible":
        text = "harness: %s\nsolver: no run of the code has: %s\nnative sampling: %s\n" % (fn, "; ".join(r["never"]), out[-1:] or p.stderr[-300:])
        seen = out[-1] if out else ""
        return seen.startswith("FAILED") and any(m in seen for m in r["never"]), text
    text = "harness: %s\ncounterexample (values drawn in order): %s\narbitrary file content (array, index, value): %s\nsolver: %s at %s\nnative replay: %s\n" % (
        fn, [v for v, w in r.get("tape", [])], r.get("ufs", []), r.get("msg"), r.get("at"), out[-1:] or p.stderr[-300:])
    return bool(out) and out[-1].startswith("FAILED"), text


def run_one(exe, ll, fn, secs, st):
    left = st["end"] - time.time()
    if st["stop"] or left < 5:
        return dict(fn=fn, status="noanswer", reason="not run: a violation was found" if st["stop"] else "not run: out of time")
    secs = int(min(secs, left))
    e = dict(os.environ, SYMEX_SECS=str(secs), SYMEX_QUERY_MS="60000", SYMEX_INSTS="8000000000")
    t0 = time.time()
    p = subprocess.Popen([exe, ll, fn], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    st["procs"].add(p)
    try:
        out, err = p.communicate(timeout=secs + 60)
        line = [l for l in out.splitlines() if l.startswith("{")]
        if line:
            return json.loads(line[-1])
        why = "stopped: a violation was found" if st["stop"] else (err or "no output")[-600:]
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        why = "timeout"
    finally:
        st["procs"].discard(p)
    return dict(fn=fn, status="noanswer", reason=why, wall_s=round(time.time() - t0, 1))


def run(which, fns, secs=600, jobs=6, total=None, found=None):
    """-> list of results; found(result) true ends the other runs"""
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(build_symex), ex.submit(bitcode, which, fns)
        exe, ll = a.result(), b.result()
    st = dict(end=time.time() + (total or 10**9), stop=False, procs=set())

    def one(f):
        r = run_one(exe, ll, f, secs, st)
        if found and r["status"] in ("violation", "impossible") and not st["stop"]:
            with st["lock"]:
                if not st["stop"] and found(r):
                    st["stop"] = True
                    for p in list(st["procs"]):
                        p.kill()
        return r
    st["lock"] = threading.Lock()
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, fns))
