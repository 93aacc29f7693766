"""Plants bugs in scratch copies of /repo and keeps the ones that count.
usage: plant.py SPECS.py [ids...]    SPECS.py defines BUGS = {id: dict(property, file, edits=[(old, new)], needs, breaks, demo)}
For each: edits must touch original lines only, tests keep passing, demo passes without and fails with the patch. Then says what the quick check reports."""
import concurrent.futures, json, os, re, runpy, shutil, subprocess, sys, tempfile
BASE = "0de9f31"
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(cmd, cwd=None, env=None, timeout=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def plant(bid, b):
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        w = tmp + "/repo"
        sh("cp -a /repo %s" % w)
        files = b["edits"] if isinstance(b["edits"], dict) else {b["file"]: b["edits"]}
        for f, eds in files.items():
            src = open(w + "/" + f).read()
            base = sh("git -C /repo show %s:%s" % (BASE, f))[1]
            for old, new in eds:
                if src.count(old) != 1:
                    return bid, "edit matches %d times: %r" % (src.count(old), old)
                src = src.replace(old, new)
            open(w + "/" + f, "w").write(src)
        diff = sh("git diff", w)[1]
        gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        lines = set(l.rstrip() for f in files for l in sh("git -C /repo show %s:%s" % (BASE, f))[1].splitlines())
        bad = [l for l in gone if l.rstrip() not in lines]
        if bad or not gone:
            return bid, "changes lines that are not original: %r" % bad
        d = "/verif/seeded/" + bid
        new = tmp + "/" + bid
        os.makedirs(new)
        open(new + "/patch.diff", "w").write(diff)
        open(new + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(new + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(new + "/meta.json", "w"), indent=1)
        rc0, o0 = sh("bash %s/demo.sh" % new, "/repo")
        rc1, o1 = sh("bash %s/demo.sh" % new, w)
        if rc0 != 0 or rc1 == 0:
            return bid, "demo: %d without, %d with the patch\n%s\n%s" % (rc0, rc1, o0[-600:], o1[-600:])
        rc, o = sh("/opt/venv/bin/python -m pytest test -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s/j.xml" % tmp, w,
                   {"PYTHONPATH": w, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "2", "MKL_NUM_THREADS": "2"})
        sh("python3 /opt/vp/results.py %s/r.json junit:%s/j.xml" % (tmp, tmp))
        res = json.load(open(tmp + "/r.json"))
        miss = [t for t in stable if t not in res["passed"]]
        if miss:
            return bid, "tests notice: %s" % miss[:3]
        if os.path.exists(d):
            shutil.rmtree(d)
        shutil.copytree(new, d)
        rc, o = sh("timeout 900 bash /verif/mc/run.sh %s quick" % b["property"], "/verif", {"TORCHDYN_REPO": w})
        if rc == 1 and "VIOLATION property=%s" % b["property"] in o:
            return bid, "CAUGHT: " + " ".join(o.split("\n")[1:3])[:300]
        return bid, "MISSED rc=%d %s" % (rc, o[-300:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(bugs)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for bid, r in ex.map(lambda i: plant(i, bugs[i]), ids):
            print(bid, bugs[bid]["property"], r, flush=True)
