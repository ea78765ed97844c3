#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from tools/seeds.py: apply the edit in a scratch copy of /repo, confirm that the stable
test still passes, that the demonstration passes without the change and fails with it, and report which checks see it.

    tools/mkseed.py [-k PREFIX]     (re)build the seeds whose id starts with PREFIX
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from seeds import SEEDS
PY = "/opt/venv/bin/python"
STABLE = "tests/test_bsds500.py::test_bsds500"
ENV = dict(HOME="/root", LANG="C.UTF-8", PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", CC="/usr/bin/gcc", CXX="/usr/bin/g++")
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository, after its build
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
exec /opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, PYTHONPATH=cwd, **kw), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=600)


def build(sid):
    s = SEEDS[sid]
    out = os.path.join(HERE, "seeded", sid)
    tmp = tempfile.mkdtemp(prefix="seed_" + sid + "_")
    repo = os.path.join(tmp, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        native = False
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1:
                return sid, "edit of %s matches %d times" % (f, t.count(old))
            open(p, "w", newline="").write(t.replace(old, new))
            native |= "_lib" in f
        d = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE).stdout
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "wb").write(d)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(textwrap.dedent(s["demo"]).lstrip())
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        if native:
            sh(["bash", "-c", "rm -rf build pyEdgeEval/_lib/*.so pyEdgeEval/_lib/nms.cpp pyEdgeEval/_lib/correspond_pixels.cpp"], repo)
            r = sh([PY, "setup.py", "-q", "build_ext", "--inplace"], repo)
            if r.returncode:
                return sid, "build fails: " + r.stdout[-600:]
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", STABLE], repo)
        a = sh(["bash", os.path.join(out, "demo.sh")], "/repo")
        b = sh(["bash", os.path.join(out, "demo.sh")], repo)
        msg = []
        if t.returncode:
            msg.append("stable test fails " + t.stdout[-300:])
        if a.returncode:
            msg.append("demo fails unpatched: " + a.stdout[-600:])
        if not b.returncode:
            msg.append("demo passes patched")
        fired = []
        ids = [c["property_id"] if "property_id" in c else c.get("id") or c.get("property")
               for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
        for pid in ids:
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), pid], cwd=HERE, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, SA_REPO=repo, SA_NOEVIDENCE="1"))
            if r.returncode == 1:
                fired.append(pid)
            elif r.returncode:
                fired.append(pid + "?")
        ok = not msg
        return sid, ("ok " if ok else "BAD ") + s["property"] + " fired=" + ",".join(fired) + \
            ("" if s["property"] in fired else "  MISSED") + " ".join(msg) + ("   demo: " + b.stdout.strip().splitlines()[-1][:150] if b.stdout.strip() else "")
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("-k", default="")
    a = ap.parse_args()
    with ThreadPoolExecutor(6) as ex:
        for sid, msg in ex.map(build, [k for k in SEEDS if k.startswith(a.k)]):
            print(sid, msg, flush=True)
