#!/usr/bin/env python3
"""writes /verif/seeded/<id>/ from the seed definitions in *.seed.py"""
import glob, json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(H, "../../seeded")

def seed(id, prop, needs, breaks, edits, demo, forge=False, demo_sh=None):
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        return
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout
    try:
        for f, old, new, *k in edits:
            p = os.path.join("/repo", f)
            t = open(p).read()
            parts = t.split(old)
            k = k[0] if k else None
            if k is None:
                assert len(parts) == 2, (id, f, len(parts) - 1, old)
                k = 0
            t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            open(p, "w").write(t)
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], capture_output=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.rs"), "w").write((open(os.path.join(H, "forge.rs")).read() if forge else "") + demo)
    shutil.copy(os.path.join(H, demo_sh or "demo.sh"), os.path.join(d, "demo.sh"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", id)

for f in sorted(glob.glob(os.path.join(H, "*.seed.py"))):
    exec(open(f).read())
