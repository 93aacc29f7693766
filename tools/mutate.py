"""Mutation testing: small syntactic changes of original lines of torchdyn, each in a scratch copy, against the quick checks that concern the file.
usage: mutate.py N SEED [file substring]     prints one line per mutant; survivors are to be judged by hand (equivalent, outside of the statements, or a gap)"""
import ast, concurrent.futures, os, random, shutil, subprocess, sys, tempfile, threading
BASE = "0de9f31"
MAP = {
    "core/defunc.py": "C15 C14 C19 C08 C22",
    "core/neuralde.py": "C14 C15 C19 C25 C12 C11 C08 C07 C09",
    "core/problems.py": "C19 C04 C13 C14 C11 C12 C08 C09 C07 C23",
    "core/utils.py": "C15 C19 C14 C12",
    "datasets/static_datasets.py": "C21",
    "models/cnf.py": "C16 C14",
    "models/energy.py": "C17",
    "nn/galerkin.py": "C18 C14",
    "nn/node_layers.py": "C15 C14",
    "numerics/interpolators.py": "C05",
    "numerics/odeint.py": "C04 C13 C10 C24 C05 C02 C06 C01 C07 C11 C26 C23 C25 C19",
    "numerics/sdeint.py": "C12 C13 C06 C07 C25",
    "numerics/sensitivity.py": "C09 C08 C14 C15 C25 C07",
    "solvers/_constants.py": "C03 C05 C02",
    "solvers/hyper.py": "C22 C07",
    "solvers/ode.py": "C04 C03 C23 C24 C02 C22 C11 C07 C01 C26",
    "solvers/root.py": "C20",
    "solvers/sde.py": "C12 C07",
    "solvers/templates.py": "C03 C11 C07 C04 C24",
    "numerics/systems.py": "C27",
    "numerics/utils.py": "C02 C13 C10 C24 C01 C06",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.MatMult: "*", ast.FloorDiv: "*"}


def mutants(path):
    src = open(path).read()
    rel = os.path.relpath(path, "/repo")
    blame = subprocess.run(["git", "blame", "-s", rel], cwd="/repo", capture_output=True, text=True).stdout.split("\n")
    orig = {i + 1 for i, l in enumerate(blame) if l.startswith("^" + BASE[:6]) or l.startswith(BASE[:7])}
    lines = src.split("\n")
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l.encode()) + 1)
    raw = src.encode()
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        for a in ("annotation", "returns"):
            if getattr(n, a, None) is not None:
                skip.update(id(m) for m in ast.walk(getattr(n, a)))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("warn", "print")):
            skip.update(id(m) for m in ast.walk(n))
    pos = lambda n: (start[n.lineno - 1] + n.col_offset, start[n.end_lineno - 1] + n.end_col_offset)
    found = []

    def add(a, b, new, line):
        if line in orig:
            found.append((rel, line, a, b, raw[a:b].decode(), new))
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, "lineno") or n.lineno != n.end_lineno:
            if not isinstance(n, ast.If) or id(n) in skip:
                continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(pos(n.left)[1], pos(n.comparators[0])[0], " %s " % CMP[type(n.ops[0])], n.lineno)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = pos(n.left)[1], pos(n.right)[0]
            old = raw[a:b].decode()
            for sym in ("**", "//", "+", "-", "*", "/", "@"):
                if sym in old:
                    add(a, b, old.replace(sym, BIN[type(n.op)]), n.lineno)
                    break
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n.values[0])[1], pos(n.values[1])[0]
            old = raw[a:b].decode()
            add(a, b, old.replace("and", "or") if "and" in old else old.replace("or", "and"), n.lineno)
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(*pos(n), str(not v), n.lineno)
            elif isinstance(v, int):
                add(*pos(n), str(v + 1), n.lineno)
                if v > 0:
                    add(*pos(n), str(v - 1), n.lineno)
            elif isinstance(v, float):
                add(*pos(n), repr(v * 1.1 if v else 1e-2), n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            add(pos(n)[0], pos(n.operand)[0], "", n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(pos(n)[0], pos(n.operand)[0], "", n.lineno)
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                a0, a1 = n.args[:2]
                (a, b), (c, d) = pos(a0), pos(a1)
                add(a, d, raw[c:d].decode() + raw[b:c].decode() + raw[a:b].decode(), n.lineno)
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords and n.func.attr not in ("parameters", "__init__", "items", "keys", "values"):
                add(pos(n.func.value)[1], pos(n)[1], "", n.lineno)  # drop .method()
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    a, b = pos(k)
                    pre = raw[:a].decode().rstrip()
                    if pre.endswith(","):
                        a = len(pre.encode()) - 1
                        add(a, b, "", n.lineno)
        elif isinstance(n, ast.If):
            if n.test.lineno == n.test.end_lineno:
                a, b = pos(n.test)
                add(a, b, "not (%s)" % raw[a:b].decode(), n.lineno)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            add(*pos(n), "pass", n.lineno)
        elif isinstance(n, ast.IfExp):
            (a, b), (c, d) = pos(n.body), pos(n.orelse)
            add(a, d, raw[c:d].decode() + raw[b:c].decode() + raw[a:b].decode(), n.lineno)
    return found


lock = threading.Lock()


def test(m, log):
    rel, line, a, b, old, new = m
    checks = [v for k, v in MAP.items() if rel.endswith(k)][0].split()
    tmp = tempfile.mkdtemp(prefix="mutant-")
    try:
        os.makedirs(tmp + "/r")
        subprocess.run("git -C /repo archive HEAD torchdyn | tar x -C %s/r" % tmp, shell=True, check=True)
        p = tmp + "/r/" + rel
        raw = open(p, "rb").read()
        open(p, "wb").write(raw[:a] + new.encode() + raw[b:])
        try:
            ast.parse(open(p).read())
        except SyntaxError:
            return m, "syntax"
        for c in checks:
            try:
                r = subprocess.run(["timeout", "600", "bash", os.environ.get("MUT_VERIF", "/verif") + "/mc/run.sh", c, "quick"], capture_output=True, text=True,
                                   env={**os.environ, "TORCHDYN_REPO": tmp + "/r", "VERIF_FIRST": "1", "VERIF_PROCS": "4"})
            except Exception as e:
                return m, "error %s" % e
            if r.returncode:
                return m, "killed by %s%s" % (c, "" if r.returncode == 1 else " rc %d" % r.returncode)
        return m, "SURVIVED"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    only = sys.argv[3] if len(sys.argv) > 3 else ""
    ms = []
    for d, _, fs in os.walk("/repo/torchdyn"):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if any(p.endswith(k) and os.path.exists("/verif/mc/checks/%s.py" % v.split()[0].lower()) for k, v in MAP.items()) and only in p:
                ms += mutants(p)
    ms.sort()
    random.Random(seed).shuffle(ms)
    print(len(ms), "mutants", flush=True)
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("PAR", "2"))) as ex:
        for m, r in ex.map(lambda m: test(m, None), ms[:n]):
            print(r, "|", "%s:%d" % m[:2], "|", repr(m[4][:80]), "->", repr(m[5][:80]), flush=True)
