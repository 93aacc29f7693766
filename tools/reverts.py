"""Reverts each repaired defect alone in a scratch copy of /repo and says whether the named check reports it (repairs later ones build on are reported as conflicts)."""
import concurrent.futures, re, shutil, subprocess, sys, tempfile, os


def one(e):
    prop, commit = e
    tmp = tempfile.mkdtemp(prefix="revert-")
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
        w = tmp + "/repo"
        r = subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "revert", "-n", commit], cwd=w, capture_output=True, text=True)
        if r.returncode:
            return prop, commit, "conflict"
        r = subprocess.run(["timeout", "900", "bash", "/verif/mc/run.sh", prop, "quick"], capture_output=True, text=True, env={**os.environ, "TORCHDYN_REPO": w})
        return prop, commit, "reported" if r.returncode == 1 and "VIOLATION property=" + prop in r.stdout else "NOT REPORTED rc=%d %s" % (r.returncode, r.stdout[-200:])
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    es = re.findall(r"^fixed: property=(C\d+) (\w+)", open("/verif/known_findings.txt").read(), re.M)
    es = [e for e in es if not sys.argv[1:] or e[1] in sys.argv[1:]]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, es):
            print(*r, flush=True)
