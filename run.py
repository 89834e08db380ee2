#!/usr/bin/env python3-vt
"""run.py <property>: decide one property on /repo's working tree."""
import os, shutil, sys, tempfile, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common
from common import Violation, CheckError
import registry


def main():
    pid = sys.argv[1]
    entry = registry.CHECKS[pid]
    import ffenc
    ffenc.WORK = tempfile.mkdtemp(prefix="vq_", dir=common.scratch())
    code, violations = 0, 0
    cov = {}
    try:
        cov = entry.run(pid)
    except Violation as v:
        path = common.replay_file(pid, v.replay_text)
        known = [w for key, w in common.known_findings(pid) if key in v.what]
        if known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[0]))
        else:
            print(v.what)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            code, violations = 1, 1
        cov = {"explanation": v.what}
    except CheckError as e:
        print("ERROR property=%s no answer: %s" % (pid, e))
        code = 2
        cov = {"explanation": "no answer: %s" % str(e)[:2000]}
    except Exception:
        traceback.print_exc()
        code = 2
        cov = {"explanation": "error in the check"}
    finally:
        shutil.rmtree(ffenc.WORK, ignore_errors=True)
    cov = entry.coverage(cov)
    common.write_evidence(pid, entry.level, cov, {"violations": violations, "assumptions": entry.assumptions})
    if code == 0:
        print("OK property=%s %s" % (pid, cov.get("summary", "")))
    return code


sys.exit(main())
