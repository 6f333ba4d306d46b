#!/usr/bin/env python3
"""Mutation survey (development aid): mutate.py PROP N [SEED] [--files a.py b.py]
Plants N small random changes, one at a time, in lines of the property's anchor files that its quick check executes
(coverage recorded by VF_COV in /tmp/cov) and runs the quick check on each in a mount namespace; /repo is never touched.
Appends a JSON line per mutant to /tmp/mut/PROP.jsonl."""
import ast, glob, json, os, random, subprocess, sys, tempfile, time

REPO = "/repo"


def anchors(prop):
    for l in open("/verif/properties.jsonl"):
        d = json.loads(l)
        if d["id"] == prop:
            return d["anchors"]["files"]


def covered(prop):
    hit = {}
    for f in glob.glob(f"/tmp/cov/{prop}-*.json"):
        for p, n in json.load(open(f)):
            hit.setdefault(p, set()).add(n)
    return hit


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.BitAnd: "|", ast.BitOr: "&"}


class Finder(ast.NodeVisitor):
    def __init__(self, src, lines):
        self.src, self.lines, self.out = src, lines, []
        self.raw = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.raw:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def add(self, n, text, why):
        if any(i in self.lines for i in range(n.lineno, n.end_lineno + 1)):
            a, b = self.span(n)
            self.out.append((n.lineno, a, b, text, why))

    def skip(self, n):
        return

    visit_Raise = visit_AnnAssign = visit_Import = visit_ImportFrom = visit_JoinedStr = skip

    def visit_FunctionDef(self, n):
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
            self.visit(d)
        for s in n.body:
            self.visit(s)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        t = self.seg(n)
        if t.startswith(("logging.", "logger.", "warn", "print", "super().__init__")):
            return
        self.add(n, "pass", "drop statement")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "drop statement")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            self.add(n, f"{self.seg(n.left)} {CMP[type(n.ops[0])]} {self.seg(n.comparators[0])}", "compare")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN:
            self.add(n, f"({self.seg(n.left)} {BIN[type(n.op)]} {self.seg(n.right)})", "arith")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        w = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + w.join(f"({self.seg(v)})" for v in n.values) + ")", "bool")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, self.seg(n.operand), "drop not")
        elif isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            self.add(n, self.seg(n.operand), "drop minus")
        elif isinstance(n.op, ast.USub):
            self.add(n, "0" if n.operand.value == 1 else self.seg(n.operand), "negative constant")
        if not (isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant)):
            self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "constant")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "constant")
        elif isinstance(v, float):
            self.add(n, repr(v * 2 if v else 1.0), "constant")
        elif v is None:
            pass

    def visit_IfExp(self, n):
        self.add(n, f"({self.seg(n.body)})", "always then")
        self.add(n, f"({self.seg(n.orelse)})", "always else")
        self.generic_visit(n)

    def visit_If(self, n):
        if all(isinstance(s, ast.Raise) or (isinstance(s, ast.Expr) and self.seg(s).startswith(("logging", "raise"))) for s in n.body):
            if not n.orelse:
                for s in n.orelse:
                    self.visit(s)
                return
        self.add(n.test, "True", "always")
        self.add(n.test, "False", "never")
        self.generic_visit(n)

    def visit_Call(self, n):
        f = self.seg(n.func)
        if f.startswith(("logging.", "logger.", "isinstance", "super")):
            return
        if len(n.args) == 2 and not n.keywords and self.seg(n.args[0]) != self.seg(n.args[1]) and not isinstance(n.args[0], ast.Lambda):
            self.add(n, f"{f}({self.seg(n.args[1])}, {self.seg(n.args[0])})", "swap arguments")
        for i, k in enumerate(n.keywords):
            if k.arg is None or len(n.keywords) < 2:
                continue
            rest = [self.seg(a) for a in n.args] + [(f"{q.arg}=" if q.arg else "**") + self.seg(q.value) for j, q in enumerate(n.keywords) if j != i]
            if i in self.lines or True:
                self.add(n, f"{f}({', '.join(rest)})", f"drop keyword {k.arg}")
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None:
            self.visit(n.value)


def main():
    args = sys.argv[1:]
    files = None
    if "--files" in args:
        i = args.index("--files")
        files, args = args[i + 1:], args[:i]
    prop, n, seed = args[0], int(args[1]), int(args[2]) if len(args) > 2 else 0
    hit = covered(prop)
    cand = []
    for p in hit:
        rel = os.path.relpath(p, REPO)
        if files is None and not any(rel == a or rel.startswith(a.rstrip("/") + "/") for a in anchors(prop)):
            continue
        if files is not None and rel not in files:
            continue
        src = open(p).read()
        # only lines inside functions
        f = Finder(src, hit[p])
        for node in ast.walk(ast.parse(src)):
            if isinstance(node, ast.FunctionDef):
                f.visit(node)
        cand += [(p, *m) for m in dict.fromkeys(f.out)]
    rng = random.Random(f"{prop}{seed}")
    rng.shuffle(cand)
    done, seen, picked = set(), {}, []
    out = f"/tmp/mut/{prop}.jsonl"
    os.makedirs("/tmp/mut", exist_ok=True)
    if os.path.exists(out):
        done = {tuple(json.loads(l)["id"]) for l in open(out)}
    for c in cand:
        k = (c[0], c[1])
        if (os.path.relpath(c[0], REPO), c[2], c[3], c[4]) in done or seen.get(k, 0) >= 1:
            continue
        new = open(c[0], "rb").read()
        new = new[:c[2]] + c[4].encode() + new[c[3]:]
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        seen[k] = 1
        picked.append((c, new))
        if len(picked) >= n:
            break
    print(f"{prop}: {len(cand)} candidates, {len(picked)} picked", flush=True)
    for c, new in picked:
        path, line, a, b, text, why = c
        rel = os.path.relpath(path, REPO)
        with tempfile.TemporaryDirectory(prefix="mut_", dir="/tmp") as d:
            open(f"{d}/m.py", "wb").write(new)
            os.makedirs(f"{d}/e")
            os.makedirs(f"{d}/r")
            cmd = (f"mount --bind {d}/m.py {path} && mount --bind {d}/e /verif/evidence && mount --bind {d}/r /verif/replays && "
                   f"cd /verif && VF_FAILFAST=1 timeout 700 ./run.sh {prop}")
            t = time.time()
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("  ")]
            res = {0: "SURVIVED", 1: "killed"}.get(r.returncode, f"rc{r.returncode}")
            old = open(path, "rb").read()[a:b].decode()
            rec = dict(id=[rel, a, b, text], res=res, line=line, why=why, old=old[:300], new=text[:300], t=round(time.time() - t, 1),
                       mech=(v[0][:160] if v else (r.stdout + r.stderr)[-400:] if r.returncode not in (0, 1) else ""))
            open(out, "a").write(json.dumps(rec) + "\n")
            print(res, f"{rel}:{line}", why, "|", " ".join(old.split())[:90], "->", " ".join(text.split())[:90], f"{rec['t']}s", rec["mech"][:100].replace("\n", " ") if res != "SURVIVED" else "", flush=True)


main()
