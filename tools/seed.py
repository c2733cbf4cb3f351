#!/usr/bin/env python3
"""Try one seeded change in a scratch copy of /repo:
tools/seed.py ID [--check]   (never touches /repo)"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
SRC = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None):
    r = subprocess.run(["bash", "-c", cmd], cwd=cwd, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode(errors="replace")


def one(sid, check, tests=True):
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    W = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        repo = os.path.join(W, "repo")
        sh("cp -a {} {}".format(SRC, repo))
        rc, o = sh("git apply {}/patch.diff".format(d), cwd=repo)
        if rc:
            return "{} patch does not apply: {}".format(sid, o)
        vp = os.path.join(W, "vp")
        shutil.copytree("/opt/vp", vp)
        for f in ("test.sh", "env.sh", "build.sh", "check.py"):
            p = os.path.join(vp, f)
            s = open(p).read()
            s = re.sub(r"/repo\b", repo, s).replace("/opt/vp", vp)
            open(p, "w").write(s)
        out = []
        dd = os.path.join(W, "demo")
        shutil.copytree(d, dd, ignore=shutil.ignore_patterns(
            "*.diff", "meta.json"))
        rc0, o0 = sh("bash {}/demo.sh".format(dd), cwd=SRC)
        rc1, o1 = sh("bash {}/demo.sh".format(dd), cwd=repo)
        out.append("demo clean={} patched={}".format(rc0, rc1))
        if rc0 or not rc1:
            out.append("BAD DEMO\n" + o0[-800:] + "\n--\n" + o1[-800:])
        if tests:
            rc, o = sh("bash {}/build.sh".format(vp))
            if rc:
                out.append("BUILD FAILS " + o[-300:])
            sh("bash {}/test.sh {}/t.json".format(vp, W))
            b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            t = set(json.load(open(W + "/t.json"))["passed"])
            out.append("tests " + ("ok" if b <= t else "FAIL " +
                                   str(sorted(b - t)[:4])))
        if check:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_MAXVIOL="3")
            rc, o = sh("./check {} quick".format(meta["property"]), cwd=V,
                       env=env)
            out.append("check rc={} {}".format(
                rc, "CAUGHT" if rc == 1 and "VIOLATION property=" in o
                else "MISSED" if rc == 0 else "BROKEN " + o[-500:]))
            if rc == 1:
                out.append([ln for ln in o.splitlines()
                            if ln.startswith("  - ")][0][:200])
        return "{} [{}] ".format(sid, meta["property"]) + "; ".join(out)
    finally:
        shutil.rmtree(W)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    if not ids:
        ids = sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids:
        print(one(i, "--nocheck" not in sys.argv,
                  "--notests" not in sys.argv), flush=True)
