"""Systematic small changes of the code: which pass the repository's tests, and which of those no check notices.

mutants.py list FILE [FILE...]                    the mutants, one line each
mutants.py run [-j N] [-p PIDS] [--from K] [--step K] FILE...  builds, tests and checks them (in copies, see bug.py)

Each mutant changes one place: an operator, a comparison, a constant, a name for another local one, a keyword's value,
a transposition dropped or added, a call unwrapped, a statement dropped."""
import ast, sys, os, json, subprocess, pathlib, concurrent.futures as cf, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bug
OPS = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+", "/"], ast.MatMult: ["*"], ast.Mod: []}
TXT = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.MatMult: "@", ast.Mod: "%"}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}


class Gen:
    def __init__(self, path):
        self.src = pathlib.Path(path).read_text(); self.tree = ast.parse(self.src)
        self.off = [0]
        for l in self.src.split("\n"): self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = self.src.encode(); self.out = []

    def span(self, n): return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset
    def text(self, n): a, b = self.span(n); return self.b[a:b].decode()

    def put(self, n, new, why):
        a, b = self.span(n); self.spot(a, b, new, n.lineno, why)

    def spot(self, a, b, new, line, why):
        s = (self.b[:a] + new.encode() + self.b[b:]).decode()
        try: t = ast.parse(s)
        except SyntaxError: return
        if ast.dump(t) != ast.dump(self.tree): self.out.append((line, "%s: %s -> %s" % (why, self.b[a:b].decode()[:60].replace("\n", " "), new[:60].replace("\n", " ")), s))

    def go(self):
        for fn in [n for n in ast.walk(self.tree) if isinstance(n, ast.FunctionDef)]:
            names = {a.arg for a in fn.args.args if a.arg != "self"} | {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            doc = ast.get_docstring(fn) is not None
            for k, st in enumerate(fn.body):
                if k == 0 and doc: continue
                for n in ast.walk(st): self.node(n, names, fn)
        return self.out

    def node(self, n, names, fn):
        if isinstance(n, ast.BinOp) and type(n.op) in OPS:
            a, b = self.span(n.left)[1], self.span(n.right)[0]
            mid = self.b[a:b].decode()
            for o in OPS[type(n.op)]: self.spot(a, b, mid.replace(TXT[type(n.op)], o, 1), n.lineno, "operator")
            if not isinstance(n.op, ast.Mod):
                self.put(n, self.text(n.left), "left operand"); self.put(n, self.text(n.right), "right operand")
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            self.put(n, "(%s %s %s)" % (self.text(n.left), CMP[type(n.ops[0])], self.text(n.comparators[0])), "comparison")
        if isinstance(n, ast.BoolOp):
            self.put(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(self.text(v) for v in n.values) + ")", "and/or")
            for v in n.values: self.put(n, "(" + self.text(v) + ")", "one operand")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): self.put(n, "(" + self.text(n.operand) + ")", "not")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool): self.put(n, str(not n.value), "constant")
            elif isinstance(n.value, int):
                self.put(n, str(n.value + 1), "constant"); self.put(n, "(%d)" % (n.value - 1), "constant")
            elif isinstance(n.value, str) and n.value and self.text(n)[:1] in "\"'r": self.put(n, repr(n.value[:-1]), "string"); self.put(n, repr(n.value + "x"), "string")
        if isinstance(n, ast.Attribute) and n.attr == "T": self.put(n, self.text(n.value), "transposition")
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
            if len(n.id) <= 9 and n.id[-1] == "k" or "_" in n.id:
                for o in sorted(names):
                    if o != n.id and (o[-1:] == n.id[-1:] or "_" in o and "_" in n.id): self.put(n, o, "name")
                if n.id[0].isupper() and n.id not in ("U", "Z"): self.put(n, n.id + ".T", "transposed")
        if isinstance(n, ast.Call):
            if len(n.args) >= 1: self.put(n, "(" + self.text(n.args[0]) + ")", "call unwrapped")
            for kw in n.keywords:
                self.spot(self.span(kw)[0], self.span(kw)[1], "", n.lineno, "keyword dropped")
            if len(n.args) == 2:
                self.put(n, "%s(%s, %s)" % (self.text(n.func), self.text(n.args[1]), self.text(n.args[0])), "arguments swapped")
        if isinstance(n, (ast.Assign, ast.Expr, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)): self.put(n, "pass", "statement dropped")
        if isinstance(n, ast.If):
            self.put(n.test, "True", "condition"); self.put(n.test, "False", "condition")
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            self.put(n.value, "%s, %s" % (self.text(n.value.elts[1]), self.text(n.value.elts[0])), "results swapped")


def one(job):
    rel, line, why, s, pids = job
    w = bug.copy("m"); v = bug.copy("mv") if False else pathlib.Path(bug.tempfile.mkdtemp(prefix="v.", dir=bug.T))
    try:
        (w/rel).write_text(s)
        o = v/"o.json"
        try: rc, out = bug.ns(w, "bash /opt/vp/build.sh && timeout 60 bash /opt/vp/test.sh %s" % o, timeout=120)
        except subprocess.TimeoutExpired: return "tests"
        base = json.load(open("/opt/vp/BASELINE.json")); want = base.get("passed") or base.get("stable") or base.get("tests")
        got = json.load(open(o)).get("passed", []) if o.exists() else []
        if any(t not in got for t in want): return "tests"
        subprocess.run(f"git -C /verif archive HEAD | tar x -C {v} && rm -rf {v}/seeded", shell=True, check=True)
        if os.environ.get("WORKTREE"): subprocess.run(f"cp -a /verif/spec /verif/harness /verif/java /verif/tools {v}/", shell=True, check=True)
        subprocess.run(f"cp -a /verif/build {v}/", shell=True)
        for p in pids:
            try: rc, out = bug.ns(w, f"cd /verif && timeout 600 /opt/venv/bin/python -B harness/check.py {p} --no-mc", v, timeout=700)
            except subprocess.TimeoutExpired: return "timeout " + p
            if rc == 1 and "VIOLATION property=" in out: return "caught " + p
            if rc: return "rc=%s %s %s" % (rc, p, out[-200:])
        return "SURVIVES"
    finally: bug.rm(w); bug.rm(v)


if __name__ == "__main__":
    a = sys.argv[1:]; cmd = a.pop(0); j, pids, frm, step = 3, None, 0, 1
    while a and a[0].startswith("-"):
        o = a.pop(0)
        if o == "-j": j = int(a.pop(0))
        elif o == "-p": pids = a.pop(0).split(",")
        elif o == "--from": frm = int(a.pop(0))
        elif o == "--step": step = int(a.pop(0))
    jobs = [(f, l, w, s, pids) for f in a for l, w, s in Gen("/repo/" + f).go()][frm::step]
    if cmd == "list":
        for f, l, w, s, _ in jobs: print(f, l, w)
    else:
        with cf.ThreadPoolExecutor(j) as ex:
            for (f, l, w, s, _), r in zip(jobs, ex.map(one, jobs)):
                if r != "tests": print("%s:%d %s => %s" % (f, l, w, r), flush=True)
                elif os.environ.get("ALL"): print("%s:%d %s => tests" % (f, l, w), flush=True)
        print("done", len(jobs), flush=True)
