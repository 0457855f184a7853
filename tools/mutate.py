#!/opt/veriftools/pyvenv/bin/python3
"""Development tool: which small changes of the code do the checks not notice?

  mutate.py OUT.jsonl [--n N] [--seed S] [--scale F] [--jobs J] [FILE...]

Draws mutants (one token or one line changed) of the files under echidna/,
runs the checks that concern the file on each (F times the runs of the quick
tier), and writes one line per mutant. Works in scratch copies; nothing of
/repo or /verif is changed.
"""
import argparse
import difflib
import io
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tokenize
from concurrent.futures import ThreadPoolExecutor

MAP = {
    "core/spectra.py": "H01 S01 H02 L01 F01 R01 E01 V01",
    "output/store.py": "S01 S03 S04 S05 S02 S06",
    "core/config.py": "C01 S01 F01 H01 V01",
    "core/parameter.py": "C01 F02 H02 F01 S04 F03 V01",
    "core/scale.py": "H02 F01 V01", "core/shift.py": "H02 F01 V01",
    "core/smear.py": "H02 R01 F01 V01",
    "fit/fit.py": "F02 F01 F03 L01 V01", "fit/minimise.py": "F01 S04 F02 V01",
    "fit/fit_results.py": "S04 S05 F01 L01 L02", "fit/test_statistic.py": "F01 V01",
    "limit/limit.py": "L01 L02 L03 V01", "calc/decay.py": "V01",
    "core/fill_spectrum.py": "E01", "core/dsextract.py": "E01",
    "output/plot.py": "P01", "output/plot_root.py": "P01",
    "util/yaml_loader.py": "C01", "utilities.py": "J01 F01 U01",
}
for s in ("dump_scaled", "dump_shifted", "dump_smeared",
          "dump_smeared_energy", "dump_shrink", "rebin", "combine_hdf5",
          "dump_spectra_root", "dump_spectra_ntuple",
          "multi_ntuple_spectrum"):
    MAP["scripts/%s.py" % s] = "J01"

SWAP = {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"],
        "==": ["!="], "!=": ["=="], "+": ["-"], "-": ["+"], "*": ["/"],
        "/": ["*"], "+=": ["=", "-="], "-=": ["+="], "*=": ["/=", "="],
        "/=": ["*="], "**": ["*"], "True": ["False"], "False": ["True"],
        "and": ["or"], "or": ["and"], "not": [""], "continue": ["break"],
        "break": ["continue"], "is": ["is not"], "in": ["not in"],
        "min": ["max"], "max": ["min"], "deepcopy": ["copy"],
        "any": ["all"], "all": ["any"]}
WRAP = re.compile(r"copy\.(?:deep)?copy\((\w[\w.]*)\)")


def mutants(src):
    """(description, new source) of every mutant."""
    lines = src.split("\n")
    out = []
    toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    strs = set()
    stmt = {}
    depth, start = 0, None
    for t in toks:
        if t.type == tokenize.STRING:
            strs.update(range(t.start[0], t.end[0] + 1))
        if t.type in (tokenize.NL, tokenize.COMMENT, tokenize.INDENT,
                      tokenize.DEDENT, tokenize.ENDMARKER):
            continue
        if start is None:
            start = t
        if t.type == tokenize.NEWLINE:
            stmt[start.start] = (start, t)
            start = None

    def put(row, a, b, new, what):
        l = lines[row - 1]
        m = list(lines)
        m[row - 1] = l[:a] + new + l[b:]
        out.append((what, "\n".join(m)))
    prev = None
    line0 = {}
    for t in toks:
        line0.setdefault(t.start[0], t.string)
    for i, t in enumerate(toks):
        row, col = t.start
        nxt = toks[i + 1].string if i + 1 < len(toks) else ""
        if line0.get(row) in ("import", "from", "raise", "print", "class",
                              "@", "_logger") or \
                lines[row - 1].lstrip().startswith(("_logger", "self._logger",
                                                    "logger")):
            continue
        if t.type in (tokenize.OP, tokenize.NAME) and t.string in SWAP:
            if t.string == "in" and "for " in lines[row - 1]:
                continue
            if t.string == "is" and nxt == "not":
                put(row, col, toks[i + 1].end[1], "is", "%d is not" % row)
                continue
            if t.string == "*" and (prev in ("(", ",")):
                prev = t.string
                continue
            if t.string == "-" and prev in ("(", "[", ",", "=", "return"):
                put(row, col, col + 1, "", "%d unary" % row)
                prev = t.string
                continue
            if t.string == "**" and prev in ("(", ","):
                prev = t.string
                continue
            for new in SWAP[t.string]:
                put(row, col, t.end[1], new, "%d %s -> %s" % (
                    row, t.string, new))
        elif t.type == tokenize.NUMBER:
            v = t.string
            if re.match(r"^\d+$", v):
                put(row, col, t.end[1], str(int(v) + 1), "%d number" % row)
            else:
                put(row, col, t.end[1], "(%s*1.01+0.01)" % v,
                    "%d number" % row)
        if t.type not in (tokenize.NL, tokenize.COMMENT):
            prev = t.string
    for a, b in stmt.values():
        r0, r1 = a.start[0], b.start[0]
        text = "\n".join(lines[r0 - 1:r1])
        if a.string in ("def", "class", "import", "from", "if", "for", "else",
                        "elif", "try", "except", "while", "with", "return",
                        "print", "pass", "@", "finally", "global",
                        "parser", "_logger") or a.type == tokenize.STRING or \
                text.lstrip().startswith(("self._logger", "logger")):
            if a.string == "if" and text.rstrip().endswith(":") and r0 == r1:
                m = list(lines)
                ind = len(text) - len(text.lstrip())
                m[r0 - 1] = " " * ind + "if False:"
                out.append(("%d if False" % r0, "\n".join(m)))
                m = list(lines)
                m[r0 - 1] = " " * ind + "if True:"
                out.append(("%d if True" % r0, "\n".join(m)))
            continue
        m = list(lines)
        ind = len(lines[r0 - 1]) - len(lines[r0 - 1].lstrip())
        m[r0 - 1:r1] = [" " * ind + "pass"]
        out.append(("%d deleted" % r0, "\n".join(m)))
    for n, l in enumerate(lines):
        for x in WRAP.finditer(l):
            put(n + 1, x.start(), x.end(), x.group(1), "%d not copied"
                % (n + 1))
    return out


HELP = """
_mut_seen = {}


def _mut_first(line, obj):
    import os
    key = (line, id(obj))
    if _mut_seen.get(key) is obj:
        return False
    _mut_seen[key] = obj
    return True


def _mut_memo(function):
    store = {}

    def wrapped(self, *args, **kwargs):
        key = (id(self), repr(args), repr(sorted(kwargs.items())))
        if key not in store:
            store[key] = (self, function(self, *args, **kwargs))
        return store[key][1]
    return wrapped
"""


def history(src):
    """Mutants whose effect depends on what happened before: a remembered
    result, a statement carried out only the first time, an error swallowed,
    two statements in the other order."""
    import ast
    out = []
    lines = src.split("\n")
    try:
        tree = ast.parse(re.sub(r"(?m)^(\s*)print (.*)$", r"\1pass", re.sub(
            r"(?ms)^(\s*)print ([^\n]*,)\n[^\n]*\n", r"\1pass\n\1pass\n",
            src)))
    except SyntaxError as e:
        print("history: %s" % e)
        return out

    def text(n):
        return lines[n.lineno - 1:n.end_lineno]

    def calls(n):
        """Is something called that can fail or have an effect?"""
        for c in ast.walk(n):
            if isinstance(c, ast.Call):
                f = c.func
                name = getattr(f, "attr", getattr(f, "id", ""))
                if name not in ("float", "int", "zeros", "append", "copy",
                                "deepcopy", "len", "str", "list", "format",
                                "OrderedDict", "debug", "info", "warning",
                                "get_name", "error", "array", "range"):
                    return True
        return False

    def put(a, b, new, what, head=False):
        m = lines[:a] + new + lines[b:]
        s = "\n".join(m)
        if head:
            s = s + HELP.replace("_mut_seen = {}\n", "", 0)
            # helpers first: after the docstring and __future__ imports
            s = HELP.strip("\n") + "\n\n\n" + "\n".join(m)
        out.append((what, s))
    def odd(n):
        """Goes wrong in unusual cases only."""
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
                n.ops[0], (ast.Is, ast.IsNot)) and n.lineno == n.end_lineno:
            l = lines[n.lineno - 1]
            a = l[n.left.col_offset:n.left.end_col_offset]
            new = ("not (%s)" if isinstance(n.ops[0], ast.Is)
                   else "(%s)") % a
            put(n.lineno - 1, n.lineno, [
                l[:n.col_offset] + new + l[n.end_col_offset:]],
                "%d truth instead of None" % n.lineno)
        if isinstance(n, ast.For) and n.iter.lineno == n.iter.end_lineno:
            l = lines[n.iter.lineno - 1]
            a, b = n.iter.col_offset, n.iter.end_col_offset
            for k in (2, 4):
                put(n.iter.lineno - 1, n.iter.lineno, [
                    l[:a] + "list(%s)[:%d]" % (l[a:b], k) + l[b:]],
                    "%d first %d only" % (n.lineno, k))
            put(n.iter.lineno - 1, n.iter.lineno, [
                l[:a] + "list(%s)[::-1]" % l[a:b] + l[b:]],
                "%d backwards" % n.lineno)
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "float" \
                and n.lineno == n.end_lineno and n.args:
            l = lines[n.lineno - 1]
            put(n.lineno - 1, n.lineno, [
                l[:n.col_offset] + "round(" +
                l[n.col_offset:n.end_col_offset] + ", 5)" +
                l[n.end_col_offset:]], "%d rounded" % n.lineno)
        if isinstance(n, ast.Try):
            ind = " " * n.col_offset
            if n.finalbody:
                f = [l for x in n.finalbody for l in text(x)]
                put(n.finalbody[0].lineno - 2, n.end_lineno,
                    [ind + "except ZeroDivisionError:", ind + "    raise"] +
                    [l[4:] for l in f] if not n.handlers else
                    [l[4:] for l in f], "%d no finally" % n.lineno)
            for h in n.handlers:
                if len(h.body) > 1 and isinstance(h.body[-1], ast.Raise):
                    put(h.body[0].lineno - 1, h.body[-1].lineno - 1, [],
                        "%d no clean-up" % h.lineno)
                if h.type is None or getattr(h.type, "id", "") in (
                        "BaseException", "IOError"):
                    put(h.lineno - 1, h.lineno, [
                        " " * h.col_offset + "except ValueError:"],
                        "%d other errors" % h.lineno)

    for cls in ast.walk(tree):
        if not isinstance(cls, ast.FunctionDef):
            continue
        arg = cls.args.args[0].arg if cls.args.args else None
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom))
                  for x in ast.walk(cls))
        if any(isinstance(x, ast.Return) and x.value is not None
               for x in ast.walk(cls)) and arg and not gen \
                and not cls.decorator_list and cls.name != "__init__":
            ind = " " * cls.col_offset
            put(cls.lineno - 1, cls.lineno - 1, [ind + "@_mut_memo"],
                "%d %s memoised" % (cls.lineno, cls.name), head=True)
        for block in ast.walk(cls):
            odd(block)
            for field in ("body", "orelse"):
                st = getattr(block, field, None)
                if not isinstance(st, list):
                    continue
                for i, x in enumerate(st):
                    if not isinstance(x, (ast.Assign, ast.AugAssign,
                                          ast.Expr)):
                        continue
                    if isinstance(x, ast.Expr) and not isinstance(
                            x.value, ast.Call):
                        continue
                    t = text(x)
                    if re.match(r"\s*(self\.)?_?log", t[0]) or \
                            "parser." in t[0]:
                        continue
                    ind = " " * x.col_offset
                    targets = getattr(x, "targets", None) or (
                        [x.target] if isinstance(x, ast.AugAssign) else [])
                    own = all(isinstance(y, (ast.Attribute, ast.Subscript))
                              for y in targets)
                    if own and arg and cls.name != "__init__":
                        put(x.lineno - 1, x.end_lineno, [
                            ind + "if _mut_first(%d, %s):" % (x.lineno, arg)]
                            + ["    " + y for y in t],
                            "%d only first" % x.lineno, head=True)
                    if own and calls(x):
                        put(x.lineno - 1, x.end_lineno, [ind + "try:"] +
                            ["    " + y for y in t] + [
                            ind + "except Exception:", ind + "    pass"],
                            "%d swallowed" % x.lineno)
                    if i and isinstance(st[i - 1], (ast.Assign, ast.Expr,
                                                    ast.AugAssign)):
                        p = st[i - 1]
                        if p.end_lineno + 1 == x.lineno and (
                                calls(p) or calls(x)) and \
                                cls.name != "__init__":
                            put(p.lineno - 1, x.end_lineno, t + text(p),
                                "%d swapped" % x.lineno)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=200)
    ap.add_argument("--seed", default="1")
    ap.add_argument("--scale", type=float, default=0.15)
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--props")
    ap.add_argument("--history", action="store_true")
    ap.add_argument("files", nargs="*")
    a = ap.parse_args()
    top = "/tmp/mutate-%d" % os.getpid()
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    shutil.copytree("/verif", top + "/verif", ignore=shutil.ignore_patterns(
        ".git", "evidence", "replays", "seeded"))
    shutil.copytree(os.environ.get("ECHIDNA_REPO", "/repo"), top + "/repo")
    rp = top + "/verif/sim/runner.py"
    s = open(rp).read()
    s = s.replace("        small, tries = minimise(prop, plan, viol[0])\n",
                  "        print('%s: %s' % viol)\n"
                  "        print('VIOLATION'); return 1\n")
    open(rp, "w").write(s)
    sys.path.insert(0, "/verif")
    import importlib
    rng = random.Random(a.seed)
    pool = []
    for f in a.files or sorted(MAP):
        src = open(top + "/repo/echidna/" + f).read()
        ms = history(src) if a.history else mutants(src)
        rng.shuffle(ms)
        pool += [(f, src, w, new) for w, new in ms]
    rng.shuffle(pool)
    pool = pool[:a.n]
    free = []
    for k in range(a.jobs):
        shutil.copytree(top + "/repo", "%s/r%d" % (top, k))
        free.append(k)
    out = open(a.out, "a")

    def one(item):
        f, src, what, new = item
        k = free.pop()
        path = "%s/r%d/echidna/%s" % (top, k, f)
        res = {"file": f, "what": what, "diff": "\n".join(
            x for x in list(difflib.unified_diff(
                src.split("\n"), new.split("\n"), lineterm="", n=2))[2:]),
            "caught": None}
        try:
            open(path, "w").write(new)
            env = dict(os.environ, ECHIDNA_REPO="%s/r%d" % (top, k))
            for p in (a.props or MAP[f]).split():
                m = importlib.import_module("props." + p.lower())
                n = max(40, int(m.SIZES["quick"][0] * a.scale))
                r = subprocess.run(
                    [sys.executable, top + "/verif/check.py", p, "--workers",
                     "1", "--runs", str(n)], env=env, stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    t = r.stdout.strip().split("\n")
                    res["caught"] = p
                    res["rc"] = r.returncode
                    res["how"] = (t[-2] if len(t) > 1 else t[-1])[:160]
                    break
        finally:
            open(path, "w").write(src)
            free.append(k)
        out.write(json.dumps(res) + "\n")
        out.flush()
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, pool))
    shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    main()
