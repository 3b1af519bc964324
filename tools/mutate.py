#!/usr/bin/env python3
"""Mutation testing of the checks: make small changes to the code a property is
anchored in, run the property's quick check against each, list the survivors.

    tools/mutate.py --lanes 2 --per-file 20 --out /tmp/mut [C01 C02 ...]

Development tool only; no check uses it. Works on scratch copies of the
repository (one for each lane) that it makes under --out and removes.
"""
import argparse, ast, json, os, random, shutil, subprocess, sys, threading, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
       ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def segments(text):
    lines = text.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    return offs


def sites(text):
    tree = ast.parse(text)
    offs = segments(text)
    raw = text.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    src = lambda n: raw[slice(*pos(n))].decode()
    found = []
    funcs = []

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            funcs.append(n.name)
            for d in n.body:
                self.visit(d)
            funcs.pop()

        def add(self, n, new, kind):
            if funcs:
                a, b = pos(n)
                found.append((a, b, new, kind, funcs[-1], n.lineno))

        def visit_Raise(self, n):
            pass

        def visit_AnnAssign(self, n):
            if n.value is not None:
                self.visit(n.value)

        def visit_Compare(self, n):
            if len(n.ops) == 1:
                self.add(n, f"{src(n.left)} {CMP[type(n.ops[0])]} {src(n.comparators[0])}", "cmp")
            self.generic_visit(n)

        def visit_BinOp(self, n):
            if type(n.op) in BIN and not isinstance(n.left, (ast.List, ast.JoinedStr)) and not (
                isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                self.add(n, f"({src(n.left)} {BIN[type(n.op)]} {src(n.right)})", "bin")
            self.generic_visit(n)

        def visit_BoolOp(self, n):
            op = " or " if isinstance(n.op, ast.And) else " and "
            self.add(n, "(" + op.join(f"({src(v)})" for v in n.values) + ")", "bool")
            for v in n.values:
                self.add(n, src(v), "boolterm")
            self.generic_visit(n)

        def visit_UnaryOp(self, n):
            if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                self.add(n, src(n.operand), "unary")
            self.generic_visit(n)

        def visit_Constant(self, n):
            v = n.value
            if isinstance(v, bool):
                self.add(n, str(not v), "const")
            elif isinstance(v, int):
                self.add(n, str(v + 1), "const")
            elif isinstance(v, float):
                self.add(n, repr(v * 1.1 + (0.1 if v == 0 else 0)), "const")

        def visit_If(self, n):
            self.add(n.test, "True", "if-true")
            self.add(n.test, "False", "if-false")
            self.generic_visit(n)

        def visit_IfExp(self, n):
            self.add(n.test, "True", "if-true")
            self.add(n.test, "False", "if-false")
            self.generic_visit(n)

        def visit_Expr(self, n):
            if isinstance(n.value, ast.Constant):
                return
            if not src(n).startswith(("warnings.warn", "raise", "super")):
                self.add(n, "pass", "del")
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            self.add(n, "pass", "del")
            self.generic_visit(n)

        def visit_Call(self, n):
            if src(n.func).startswith("warnings.warn"):
                return
            for k in n.keywords:
                if k.arg:
                    a, b = pos(k)
                    # the comma before it
                    i = raw.rfind(b",", pos(n)[0], a)
                    if i < 0 or raw[i + 1:a].strip():
                        continue
                    if funcs:
                        found.append((i, b, "", "kwarg", funcs[-1], k.value.lineno))
            self.generic_visit(n)

        def visit_Assign(self, n):
            if all(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
                self.add(n, "pass", "del")
            elif len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and any(
                isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
                self.add(n, "pass", "del")
            self.generic_visit(n)

    V().visit(tree)
    out = []
    for a, b, new, kind, fn, line in found:
        mut = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            compile(mut, "x", "exec")
        except SyntaxError:
            continue
        out.append((mut, kind, fn, line, raw[a:b].decode(), new))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--lanes", type=int, default=2)
    ap.add_argument("--per-file", type=int, default=20)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--out", required=True)
    ap.add_argument("--file", default=None, help="only files containing this text")
    ap.add_argument("--func", default=None)
    ap.add_argument("ids", nargs="*")
    o = ap.parse_args()
    os.makedirs(o.out, exist_ok=True)
    rng = random.Random(o.seed)
    byfile = {}
    for l in open(f"{VERIF}/properties.jsonl"):
        p = json.loads(l)
        if o.ids and p["id"] not in o.ids:
            continue
        for f in p["anchors"]["files"]:
            if f.endswith(".py") and "/cli/" not in f and (not o.file or o.file in f):
                byfile.setdefault(f, []).append(p["id"])
    jobs = queue.Queue()
    todo = []
    for f, ids in byfile.items():
        text = open(f"{o.repo}/{f}").read()
        s = sites(text)
        if o.func:
            s = [x for x in s if x[2] in o.func.split(",")]
        rng.shuffle(s)
        for m in s[:o.per_file]:
            todo.append((f, ids, m))
    rng.shuffle(todo)
    for t in todo:
        jobs.put(t)
    print(len(todo), "mutants", flush=True)
    index = json.load(open(f"{VERIF}/lib/checks/index.json"))
    known = [[f["scenario"], f["label"]] for f in json.load(open(f"{VERIF}/known_findings.json"))["findings"]
             if f.get("status") == "known"] or [["", ""]]
    lock = threading.Lock()
    log = open(f"{o.out}/log.txt", "a")

    def lane(k):
        repo = f"{o.out}/repo{k}"
        shutil.rmtree(repo, ignore_errors=True)
        shutil.copytree(o.repo, repo, ignore=shutil.ignore_patterns(".git", "__pycache__", "improver_tests"))
        scratch = f"{o.out}/scratch{k}"
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        env = dict(os.environ, PYTHONPATH=os.pathsep.join([f"{VERIF}/lib/stubs", f"{VERIF}/lib", repo]),
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   TMPDIR=scratch, HOME=scratch, VERIF_REPO=repo, VERIF_SCRATCH=scratch)
        while True:
            try:
                f, ids, (mut, kind, fn, line, old, new) = jobs.get_nowait()
            except queue.Empty:
                break
            keep = open(f"{repo}/{f}").read()
            open(f"{repo}/{f}", "w").write(mut)
            verdict = "SURVIVED"
            for i in ids:
                out = f"{scratch}/out.json"
                if os.path.exists(out):
                    os.remove(out)
                spec = {"property": i, "module": index[i], "tier": "quick", "seed": 1, "worker": 0, "workers": 1,
                        "deadline": 150, "out": out, "cases": None, "scale": 1.0, "failfast": known}
                try:
                    subprocess.run(["/opt/venv/bin/python", "-m", "harness.worker", json.dumps(spec)], env=env,
                                   cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
                except subprocess.TimeoutExpired:
                    verdict = "timeout " + i
                    break
                try:
                    rep = json.load(open(out))
                except (OSError, ValueError):
                    verdict = "crash " + i
                    break
                if rep["error"] and not rep.get("error_gap"):
                    verdict = "killed " + i
                    break
                v = [x for x in rep["violations"] if [x["scenario"], x["label"]] not in known]
                if v:
                    verdict = f"killed {i} {v[0]['scenario']}"
                    break
                if rep["inconclusive"]:
                    verdict = "inconclusive " + i
            open(f"{repo}/{f}", "w").write(keep)
            with lock:
                log.write(json.dumps([verdict, f, line, fn, kind, old, new, ids]) + "\n")
                log.flush()
        shutil.rmtree(repo, ignore_errors=True)

    ts = [threading.Thread(target=lane, args=(k,)) for k in range(o.lanes)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
