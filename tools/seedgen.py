"""Build and validate the planted bugs: seedgen.py [-n | -o] [id ...] (-n: no checks; -o: own check only).

Each bug of tools/seedlib/bugs*.py is applied to a scratch copy of /repo; it must import, pass the stable tests, and
its demonstration must pass without and fail with it. Then the check of its property runs on the copy.
Writes /verif/seeded/<id>/ and prints one line per bug.
"""
import concurrent.futures
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def load():
    out = {}
    for f in sorted(glob.glob(V + "/tools/seedlib/bugs*.py")):
        spec = importlib.util.spec_from_file_location("b", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def one(b, check=True, own=False):
    d = tempfile.mkdtemp(prefix="seed-" + b["id"])
    try:
        repo = d + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in b["edits"]:
            p = os.path.join(repo, "python/lsst/skymap", f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], "EDIT matches %d times in %s" % (s.count(old), f)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        out = V + "/seeded/" + b["id"]
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
                  open(out + "/meta.json", "w"), indent=1)
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write("from demolib import *  # noqa: F401,F403\n" + b["demo"].lstrip("\n"))
        shutil.copy(V + "/tools/seedlib/demolib.py", out)
        shutil.rmtree(out + "/shim", ignore_errors=True)
        shutil.copytree(V + "/shim", out + "/shim", ignore=shutil.ignore_patterns("__pycache__"))
        env = dict(os.environ, PYTHONPATH="%s/python:%s/tests:/opt/vp/support" % (repo, repo),
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "skymap_no_init",
                            "tests/test_packers.py"], cwd=repo, env=env, capture_output=True, text=True)
        good = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True, timeout=300)
        bad = subprocess.run(["bash", out + "/demo.sh"], cwd=repo, capture_output=True, text=True, timeout=300)
        msg = "tests=%s demo=%d/%d(%s)" % ("ok" if t.returncode == 0 else "FAIL", good.returncode, bad.returncode,
                                            (bad.stdout + bad.stderr).strip().split("\n")[-1][:80])
        if good.returncode or not bad.returncode or t.returncode:
            return b["id"], "INVALID " + msg + (good.stdout + good.stderr).strip().split("\n")[-1][-200:] * bool(good.returncode)
        if check:
            res = []
            for c in [b["property"]] + ([] if own else b.get("also", [])):
                env = dict(os.environ, SKYMAP_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick",
                           MC_OUT=d + "/out")
                if own:
                    env["MC_FIRST"] = "1"
                r = subprocess.run([PY, "-m", "mc", c, "--tier", "quick"], cwd=V, env=env, capture_output=True,
                                   text=True)
                v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
                ok = r.returncode == 1 and v and ("property=" + c) in v[0]
                res.append("%s:%s" % (c, "caught" if ok else "MISSED rc=%d %s" % (
                    r.returncode, (r.stdout + r.stderr)[-300:] if r.returncode not in (0, 1) else "")))
            msg = " ".join(res) + " " + msg
        return b["id"], msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    bugs = load()
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(bugs)
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for i, m in ex.map(lambda i: one(bugs[i], "-n" not in sys.argv, "-o" in sys.argv), ids):
            print(i, bugs[i]["property"], m, flush=True)
