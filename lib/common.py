import os, sys, json, shutil, subprocess, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENGINE = os.path.join(VERIF, "engine")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
STABLE = "stable-x86_64-unknown-linux-gnu"


class Violation(Exception):
    def __init__(self, what, replay_text):
        super().__init__(what)
        self.what, self.replay_text = what, replay_text


class CheckError(Exception):
    pass


def env(target, verif_cfg=True):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=STABLE, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=os.path.join(BUILD, target), RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
             RUSTFLAGS=("--cfg verif " if verif_cfg else "") + "-Awarnings")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    for k in ("CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def scratch():
    d = os.path.join(BUILD, "scratch")
    os.makedirs(d, exist_ok=True)
    return d


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def sync_tree(src, dst):
    """mirror src into dst, touching only files that differ"""
    want = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("target", ".git")]
        for f in files:
            if not f.endswith(".rs"):
                continue
            rel = os.path.relpath(os.path.join(root, f), src)
            want.add(rel)
            a, b = os.path.join(src, rel), os.path.join(dst, rel)
            data = open(a, "rb").read()
            try:
                if open(b, "rb").read() == data:
                    continue
            except OSError:
                pass
            os.makedirs(os.path.dirname(b), exist_ok=True)
            open(b, "wb").write(data)
    for root, dirs, files in os.walk(dst):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), dst)
            if rel not in want:
                os.remove(os.path.join(root, f))


SYM_DEPS = """rand = "0.8"
ark-groth16 = { path = "../../engine/shims/ark-groth16" }
ark-ff = { version = "0.3.0", default-features = false }
ark-ec = { path = "../../engine/shims/ark-ec" }
ark-std = { version = "0.3.0", default-features = false }
ark-relations = { version = "0.3.0", default-features = false }
ark-bls12-381 = { path = "../../engine/shims/ark-bls12-381", features = ["curve"] }
"""
REAL_DEPS = """rand = "0.8"
ark-groth16 = { version = "0.3.0", default-features = false }
ark-ff = { version = "0.3.0", default-features = false }
ark-ec = { version = "0.3.0", default-features = false }
ark-std = { version = "0.3.0", default-features = false }
ark-relations = { version = "0.3.0", default-features = false }
ark-bls12-381 = { version = "0.3.0", default-features = false, features = ["curve"] }
"""


def stage_space(name, deps):
    """copy /repo/proof_of_space's current sources into a library crate"""
    d = os.path.join(BUILD, name)
    tmp = os.path.join(BUILD, name + ".stage")
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "proof_of_space/src"), tmp,
                    ignore=lambda p, fs: [f for f in fs if not (f.endswith(".rs") or os.path.isdir(os.path.join(p, f)))])
    os.rename(os.path.join(tmp, "main.rs"), os.path.join(tmp, "lib.rs"))
    sync_tree(tmp, os.path.join(d, "src"))
    shutil.rmtree(tmp)
    write_if_changed(os.path.join(d, "Cargo.toml"),
                     '[package]\nname = "proof_of_space"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
                     '[lib]\npath = "src/lib.rs"\n[dependencies]\n' + deps)
    return d


def cargo_build(crate_dir, target, extra=()):
    p = subprocess.run(["cargo", "build", "--offline", *extra], cwd=crate_dir, env=env(target),
                       capture_output=True, text=True, timeout=800)
    if p.returncode:
        raise CheckError("cargo build failed in %s\n%s" % (crate_dir, p.stderr[-4000:]))


def build_symrun():
    stage_space("space_sym", SYM_DEPS)
    cargo_build(os.path.join(ENGINE, "symrun"), "target_sym")
    return os.path.join(BUILD, "target_sym/debug/symrun")


_real = None


def build_realrun():
    global _real
    if _real is None:
        stage_space("space_real", REAL_DEPS)
        cargo_build(os.path.join(ENGINE, "realrun"), "target_real")
        _real = os.path.join(BUILD, "target_real/debug/realrun")
    return _real


def src_digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(open(os.path.join(REPO, f), "rb").read())
    return h.hexdigest()[:16]


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    for line in open(p).read().splitlines() if os.path.exists(p) else []:
        line = line.strip()
        if line.startswith("known: property=%s " % pid):
            rest = line[len("known: property=%s " % pid):]
            key, _, what = rest.partition(" :: ")
            out.append((key.strip(), what.strip()))
    return out


def write_evidence(pid, level, coverage, extra=None):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    d = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage,
         "wall_s": round(time.time() - T0, 2)}
    d.update(extra or {})
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


def replay_file(pid, text):
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + ".txt")
    with open(p, "w") as f:
        f.write(text)
    return p
