#!/usr/bin/env python3
"""Runs the checks on edited scratch copies of the sources.

selftest/run.py [-k substring] [-p C01,C02] [-v]
Each variant (variants.py) is (id, kind, properties, [(file, old, new), ...]); kind is
"bug" (some listed property must fire) or "same" (nothing may fire)."""
import argparse
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
REPO = "/repo"


def tree(dst):
    for d in ("pyEdgeEval", "scripts", "tests"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(dst, d),
                        ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyc", "*.cpp"))
    for f in ("setup.py", "README.md"):
        shutil.copy(os.path.join(REPO, f), os.path.join(dst, f))


def one(v, props, verbose):
    vid, kind, want, edits = v
    d = tempfile.mkdtemp(prefix="sav_")
    try:
        tree(d)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if old == "":
                s = s + new
            else:
                if s.count(old) < 1:
                    return vid, kind, want, None, f"pattern not found in {f}"
                s = s.replace(old, new, 1) if not new.startswith("@all@") else s.replace(old, new[5:])
            open(p, "w").write(s)
            if f.endswith(".py"):
                try:
                    compile(s, p, "exec")
                except SyntaxError as e:
                    return vid, kind, want, None, f"syntax error {e}"
        env = dict(os.environ, SA_REPO=d, SA_NOEVIDENCE="1")
        r = subprocess.run([sys.executable, os.path.join(HERE, "..", "check.py"), ",".join(props)],
                           capture_output=True, text=True, env=env)
        return vid, kind, want, r.stdout + r.stderr[-3000:], None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-k", default="")
    ap.add_argument("-p", default="")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-m", default="variants")
    ap.add_argument("-s", action="store_true", help="only the edits that must stay quiet")
    a = ap.parse_args()
    from sa.registry import CHECKS
    V = __import__(a.m).VARIANTS
    props = a.p.split(",") if a.p else sorted(CHECKS)
    vs = [v for v in V if a.k in v[0] and (not a.s or v[1] == "same")]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for vid, kind, want, out, err in ex.map(lambda v: one(v, props, a.v), vs):
            if err:
                print(f"BROKEN {vid}: {err}")
                bad += 1
                continue
            fired = sorted({l.split("property=")[1].split()[0] for l in out.splitlines() if l.startswith("VIOLATION")})
            errs = sorted({l.split("property=")[1].split()[0].rstrip(":") for l in out.splitlines() if l.startswith("ERROR")})
            w = [p for p in want if p in CHECKS]
            if kind == "bug":
                miss = [p for p in w if p not in fired]
                st = "caught" if not miss else ("partial" if fired else "MISSED")
                if not w:
                    st = "n/a" if not fired else "caught"
            else:
                st = "quiet" if not fired and not errs else "FALSE-ALARM"
            if errs:
                st += " ERR"
            if st not in ("caught", "quiet"):
                bad += 1
            print(f"{st:12s} {kind} {vid} want={','.join(want)} fired={','.join(fired)} err={','.join(errs)}", flush=True)
            if a.v or st in ("FALSE-ALARM",) or "ERR" in st:
                print("      " + "\n      ".join(l[:(700 if a.v else 330)] for l in [q for q in out.splitlines() if not q.startswith(("OK", "VIOL"))][:40 if a.v else 3]))
    print("not as wanted:", bad, "of", len(vs))


if __name__ == "__main__":
    main()
