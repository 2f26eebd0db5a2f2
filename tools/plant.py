"""Developer tool (not used by any check): build /verif/seeded/<id>/ from a spec.

usage: python3 tools/plant.py SPEC.py [id ...] [--no-tests] [--checks own|all]

SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].
Every bug is built in its own scratch copy of /repo under /tmp, its demo is run
on both trees, the stable tests are run on the changed one, then the checks.
"""
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# cwd is the repository root, which is the UnarySim package itself
d=$(mktemp -d) && trap 'rm -rf "$d"' EXIT
ln -s "$PWD" "$d/UnarySim"
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH=$d PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "$here/demo.py"
"""
PRELUDE = """import sys
import torch
from UnarySim.kernel import *
from UnarySim.stream import *
from UnarySim.metric.metric import *


def T(*x, t=torch.float):
    return torch.tensor(list(x)).type(t)


"""


def sh(cmd, cwd, env=None, timeout=1800):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def stable_fail(copy, scratch):
    pp = os.path.join(scratch, "pp")
    os.mkdir(pp)
    os.symlink(copy, os.path.join(pp, "UnarySim"))
    env = dict(os.environ, PYTHONPATH=pp, MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS=os.environ.get("PLANT_OMP", "1"))
    xml = os.path.join(scratch, "j.xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=900", "--continue-on-collection-errors",
        "--disable-warnings", "--ignore=test/kernel/test_kernel_fsuadd.py", "--ignore=test/kernel/test_kernel_fsuconv2d.py", "--ignore=test/kernel/test_kernel_fsumgu.py",
        "-o", "junit_family=xunit2", "--junitxml=" + xml, "test"], copy, env)
    out = os.path.join(scratch, "o.json")
    sh(["python3", "/opt/vp/results.py", out, "junit:" + xml], copy)
    res = json.load(open(out))
    passed = set(res.get("passed", res.get("pass", [])))
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in want if t not in passed]


def one(bug, opts):
    scratch = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    log = []
    try:
        copy = os.path.join(scratch, "repo")
        sh(["cp", "-a", "/repo", copy], "/")
        for f, old, new, *after in bug["edits"]:
            p = os.path.join(copy, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if after:  # first occurrence after an anchor
                k = s.index(after[0].replace("\n", "\r\n") if "\r\n" in s else after[0])
                j = s.index(old, k)
                open(p, "w", newline="").write(s[:j] + new + s[j + len(old):])
                continue
            n = s.count(old)
            if n != 1:
                return bug["id"], "EDIT matches %d times: %r" % (n, old[:80])
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=copy, stdout=subprocess.PIPE).stdout
        d = os.path.join(VERIF, "seeded", bug["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(PRELUDE + bug["demo"].lstrip("\n"))
        for f in bug.get("files", ()):
            shutil.copy(f, d)
        json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = sh(["git", "apply", "--check", os.path.join(d, "patch.diff")], "/repo")
        if a.returncode:
            log.append("APPLY " + a.stdout)
        ok = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
        bad = sh(["bash", os.path.join(d, "demo.sh")], copy)
        if ok.returncode:
            log.append("DEMO fails on unchanged: " + ok.stdout[-600:])
        if not bad.returncode:
            log.append("DEMO passes on changed: " + bad.stdout[-300:])
        else:
            log.append("demo: " + bad.stdout.strip().splitlines()[-1][:160])
        if opts["tests"]:
            f = stable_fail(copy, scratch)
            log.append("TESTS FAIL %s" % f if f else "tests ok")
        cids = [bug["prop"]] if opts["checks"] == "own" else \
            [c["property"] if "property" in c else c["id"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
        for c in cids:
            r = sh([os.path.join(VERIF, "check"), c, "--tier", "quick"], VERIF, dict(os.environ, OMP_NUM_THREADS="1", VERIF_JOBS=os.environ.get("PLANT_CJOBS", "3"), VERIF_REPO=copy, VERIF_EVID=os.path.join(scratch, "ev")))
            hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            if r.returncode == 1 and hit:
                log.append("CAUGHT by %s" % c)
            elif r.returncode:
                log.append("ERROR rc=%d %s %s" % (r.returncode, c, r.stdout[-300:]))
            elif c == bug["prop"]:
                log.append("MISSED by %s" % c)
        return bug["id"], " | ".join(log)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    args = sys.argv[1:]
    opts = {"tests": "--no-tests" not in args, "checks": "all" if "all" in args and "--checks" in args else "own"}
    if "--checks" in args:
        i = args.index("--checks")
        del args[i:i + 2]
    args = [a for a in args if not a.startswith("--")]
    bugs = runpy.run_path(args[0])["BUGS"]
    if args[1:]:
        bugs = [b for b in bugs if b["id"] in args[1:]]
    def safe(b):
        try:
            return one(b, opts)
        except Exception as e:
            return b["id"], "EXCEPTION %r" % (e,)
    with cf.ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "4"))) as ex:
        for f in cf.as_completed([ex.submit(safe, b) for b in bugs]):
            print("%-28s %s" % f.result(), flush=True)


if __name__ == "__main__":
    main()
