"""
mutate.py OUT.jsonl N [MODULE...]: a sample of small mechanical changes of
the code, each tried in a copy of /repo and /verif (bound over these in a
namespace of its own): does it pass the tests, and which check sees it?
An aid for finding what the checks miss; nothing it makes is kept.
"""
import ast
import json
import os
import random
import shutil
import signal
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

CHECKS = {
    "__init__": "C01 C02 C03 C05 C04 C06 C07 C08 C09",
    "pack": "C04 C01", "opcodes": "C02 C09",
    "change": "C11 C10 C13 C17", "classinfo": "C06 C25",
    "classdiff": "C09 C10 C08 C17 C13", "dirutils": "C14 C15 C16",
    "distdiff": "C15 C16 C17", "distinfo": "C07", "jardiff": "C13 C12 C17",
    "jarinfo": "C25 C07", "jarutil": "C21 C24 C22 C23 C26",
    "crypto": "C21 C23 C22", "manifest": "C18 C19 C20 C21 C22 C26",
    "report": "C17 C11", "ziputils": "C12 C13"}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<",
       ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in",
       ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.BitAnd: "|",
       ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<"}


def seg(src, node):
    return ast.get_source_segment(src, node)


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.split("\n")
        self.starts = [0]
        for ln in self.lines:
            self.starts.append(self.starts[-1] + len(ln.encode()) + 1)
        self.out = []
        self.skip = 0

    def pos(self, line, col):
        return self.starts[line - 1] + col

    def add(self, node, new, kind):
        self.out.append((self.pos(node.lineno, node.col_offset),
                         self.pos(node.end_lineno, node.end_col_offset),
                         new, kind, node.lineno))

    def visit_FunctionDef(self, node):
        if "option" in node.name and node.name.endswith(
                ("_options", "optparser", "optgroup", "parser")):
            return
        for b in node.body:
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                continue
            self.visit(b)

    def visit_ClassDef(self, node):
        for b in node.body:
            if isinstance(b, ast.FunctionDef):
                self.visit(b)

    def visit_Module(self, node):
        for b in node.body:
            if isinstance(b, ast.Assign) and isinstance(
                    b.targets[0], ast.Name) and b.targets[0].id == "__all__":
                continue
            self.visit(b)

    def visit_Raise(self, node):
        self.add(node, "pass", "no raise")

    def visit_Import(self, node):
        pass

    visit_ImportFrom = visit_Import

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            self.add(node, "(%s %s %s)" % (
                seg(self.src, node.left), CMP[type(node.ops[0])],
                seg(self.src, node.comparators[0])), "comparison")

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        op = " or " if isinstance(node.op, ast.And) else " and "
        self.add(node, "(%s)" % op.join(
            "(%s)" % seg(self.src, v) for v in node.values), "and/or")
        for i in range(len(node.values)):
            rest = node.values[:i] + node.values[i + 1:]
            op2 = " and " if isinstance(node.op, ast.And) else " or "
            self.add(node, "(%s)" % op2.join(
                "(%s)" % seg(self.src, v) for v in rest), "drop operand")

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            self.add(node, "(%s)" % seg(self.src, node.operand), "no not")

    def visit_BinOp(self, node):
        if isinstance(node.op, ast.Mod) and isinstance(
                node.left, ast.Constant) and isinstance(node.left.value, str):
            self.visit(node.right)
            return
        self.generic_visit(node)
        if type(node.op) in BIN:
            self.add(node, "(%s %s %s)" % (
                seg(self.src, node.left), BIN[type(node.op)],
                seg(self.src, node.right)), "arithmetic")

    def visit_Constant(self, node):
        if isinstance(node.value, bool):
            self.add(node, repr(not node.value), "constant")
        elif isinstance(node.value, int):
            self.add(node, repr(node.value + 1), "constant")
        elif isinstance(node.value, str) and node.value:
            self.add(node, repr(node.value + "x"), "constant")

    def visit_JoinedStr(self, node):
        pass

    def visit_If(self, node):
        self.generic_visit(node)
        t = seg(self.src, node.test)
        if not isinstance(node.test, ast.Compare):
            self.add(node.test, "not (%s)" % t, "negated if")
        self.add(node.test, "((%s) and False)" % t, "if never")
        self.add(node.test, "((%s) or True)" % t, "if always")

    def visit_IfExp(self, node):
        self.generic_visit(node)
        self.add(node.test, "not (%s)" % seg(self.src, node.test),
                 "negated if")

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is not None and not (
                isinstance(node.value, ast.Constant) and
                node.value.value is None):
            self.add(node, "return None", "return none")

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        if isinstance(node.value, ast.Call):
            f = node.value.func
            if (f.id if isinstance(f, ast.Name) else f.attr) in (
                    "print", "add_argument", "clear"):
                for a in node.value.args:
                    if not isinstance(a, ast.Constant):
                        self.visit(a)
                return
        self.generic_visit(node)
        if isinstance(node.value, (ast.Call, ast.Yield)):
            self.add(node, "pass", "deleted")

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        self.add(node, "pass", "deleted")

    def visit_Assign(self, node):
        if isinstance(node.targets[0], ast.Attribute) and isinstance(
                node.value, ast.Constant):
            return
        self.generic_visit(node)
        if isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(node, "pass", "deleted")

    def visit_Break(self, node):
        self.add(node, "continue", "break")

    def visit_Continue(self, node):
        self.add(node, "break", "continue")

    def visit_Call(self, node):
        self.generic_visit(node)
        if len(node.args) == 2 and not node.keywords and not any(
                isinstance(a, ast.Starred) for a in node.args):
            self.add(node, "%s(%s, %s)" % (
                seg(self.src, node.func), seg(self.src, node.args[1]),
                seg(self.src, node.args[0])), "swapped arguments")
        if isinstance(node.func, ast.Name) and node.func.id in (
                "sorted", "set", "tuple", "list", "reversed", "abs") and \
                len(node.args) == 1 and not node.keywords:
            self.add(node, "(%s)" % seg(self.src, node.args[0]), "no call")

    def visit_Slice(self, node):
        self.generic_visit(node)
        for x in (node.lower, node.upper):
            if x is not None and not isinstance(x, ast.Constant):
                self.add(x, "(%s) + 1" % seg(self.src, x), "slice")


def mutants(path):
    src = open(path).read()
    f = Finder(src)
    f.visit(ast.parse(src))
    raw = src.encode()
    for a, b, new, kind, line in f.out:
        data = raw[:a] + new.encode() + raw[b:]
        try:
            compile(data, path, "exec")
        except SyntaxError:
            continue
        yield line, kind, raw[a:b].decode(), new, data


def ns(slot, cmd, timeout=420):
    full = ("mount --bind %s/repo /repo && mount --bind %s/verif /verif && "
            "cd /verif && %s" % (slot, slot, cmd))
    p = subprocess.Popen(["unshare", "-Urm", "bash", "-c", full],
                         start_new_session=True, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    try:
        out = p.communicate(timeout=timeout)[0]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return "timeout", b""
    return p.returncode, out


def attempt(slot, mod, m, checks):
    line, kind, old, new, data = m
    path = "%s/repo/javatools/%s.py" % (slot, mod)
    orig = open(path, "rb").read()
    res = {"mod": mod, "line": line, "kind": kind, "old": old[:100],
           "new": new[:100]}
    try:
        open(path, "wb").write(data)
        rc, out = ns(slot, "timeout 60 bash /opt/vp/test.sh %s/t.json >/dev/null 2>&1"
                     % slot, 90)
        try:
            t = json.load(open(slot + "/t.json"))
            got = set(t.get("passed", t))
        except Exception:
            got = set()
        if BASE - got:
            res["by"] = "tests"
            return res
        res["by"] = None
        for c in checks.split():
            rc, out = ns(slot, "./run.sh %s --jobs 1 --scale .2" % c)
            if rc == 1 or rc == 3 or rc == "timeout":
                res["by"] = c
                res["how"] = rc
                break
        return res
    finally:
        open(path, "wb").write(orig)
        if os.path.exists(slot + "/t.json"):
            os.unlink(slot + "/t.json")


BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def main():
    out, n = sys.argv[1], int(sys.argv[2])
    mods = sys.argv[3:] or sorted(CHECKS)
    work = "/tmp/mut"
    slots = Queue()
    for i in range(int(os.environ.get("SLOTS", "8"))):
        s = "%s/%s-%d" % (work, os.path.basename(out), i)
        shutil.rmtree(s, ignore_errors=True)
        shutil.copytree("/repo", s + "/repo", symlinks=True)
        shutil.copytree("/verif", s + "/verif", symlinks=True,
                        ignore=shutil.ignore_patterns("seeded", ".git"))
        slots.put(s)
    every = []
    for m in mods:
        every += [(m, x) for x in mutants("/repo/javatools/%s.py" % m)]
    kinds = os.environ.get("KINDS")
    if kinds:
        every = [e for e in every if e[1][1] in kinds.split(",")]
    done = set()
    for fn in os.environ.get("DONE", "").split():
        for ln in open(fn):
            d = json.loads(ln)
            if "mod" in d:
                done.add((d["mod"], d["kind"], d["old"], d["new"]))
    every = [e for e in every
             if (e[0], e[1][1], e[1][2][:100], e[1][3][:100]) not in done]
    print(len(every), "mutants")
    random.Random(int(os.environ.get("SEED", "1"))).shuffle(every)

    def one(job):
        slot = slots.get()
        try:
            r = attempt(slot, job[0], job[1], CHECKS[job[0]])
        except Exception as e:
            r = {"error": repr(e)}
        finally:
            slots.put(slot)
        with open(out, "a") as fd:
            fd.write(json.dumps(r) + "\n")
    with ThreadPoolExecutor(slots.qsize()) as ex:
        list(ex.map(one, every[:n]))


if __name__ == "__main__":
    main()
