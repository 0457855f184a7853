"""Run the repository's Python 2 sources under CPython 3 with Python 2 meaning.

The sources are read from the repository's current working tree, translated in
memory, and compiled.  Nothing is written anywhere.

Syntax that CPython 3 cannot parse goes through lib2to3's *syntactic* fixers
only; everything that differs in meaning is handled on the AST or through a
private builtins table, so that Python 3 compatible rewrites of the same code
mean the same thing:

  * `/` on two integers floors (unless the module imports `division`),
  * `str(float)` has 12 significant digits, `round` rounds half away from zero,
  * `d.keys()/values()/items()` on dicts are lists, `iteritems` etc. exist,
  * map/filter/zip/range build lists, xrange/unicode/basestring/... exist,
  * `__metaclass__` is honoured.
"""
import ast
import builtins
import functools
import warnings

import numpy

_SYNTAX_FIXERS = ["lib2to3.fixes.fix_" + n for n in (
    "print", "except", "raise", "exec", "repr", "ne", "numliterals",
    "tuple_params", "throw", "paren", "has_key")]

_tool = {}


def _lib2to3_tools():
    if not _tool:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            from lib2to3 import refactor
            _tool["t"] = refactor.RefactoringTool(_SYNTAX_FIXERS)
    return _tool["t"]


def to_py3_source(text, name):
    """Source text -> text CPython 3 can parse (same text when it already can)."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            ast.parse(text, name)
            return text
        except SyntaxError:
            pass
    if not text.endswith("\n"):
        text += "\n"
    out = str(_lib2to3_tools().refactor_string(text, name))
    ast.parse(out, name)
    return out


class _Py2(ast.NodeTransformer):
    def __init__(self, floor_div):
        self.floor_div = floor_div

    def _call(self, name, args, node):
        return ast.copy_location(ast.Call(
            ast.Name(name, ast.Load()), args, []), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.floor_div and isinstance(node.op, ast.Div):
            return self._call("__py2_div__", [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if self.floor_div and isinstance(node.op, ast.Div) and \
                isinstance(node.target, ast.Name):
            load = ast.Name(node.target.id, ast.Load())
            return ast.copy_location(ast.Assign(
                [node.target],
                self._call("__py2_idiv__", [load, node.value], node)), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id == "str" and \
                len(node.args) == 1 and not node.keywords and \
                not isinstance(node.args[0], ast.Starred):
            return self._call("__py2_str__", node.args, node)
        if isinstance(f, ast.Attribute) and not node.args and \
                not node.keywords and f.attr in (
                    "keys", "values", "items", "iterkeys", "itervalues",
                    "iteritems", "viewkeys", "viewvalues", "viewitems"):
            return self._call("__py2_view__",
                              [f.value, ast.Constant(f.attr)], node)
        return node

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        for st in list(node.body):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                    isinstance(st.targets[0], ast.Name) and \
                    st.targets[0].id == "__metaclass__":
                node.body.remove(st)
                if not node.body:
                    node.body.append(ast.Pass())
                if not any(k.arg == "metaclass" for k in node.keywords):
                    node.keywords.append(ast.keyword("metaclass", st.value))
        return node


def compile_py2(text, filename):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        src = to_py3_source(text, filename)
        tree = ast.parse(src, filename)
        future = any(isinstance(n, ast.ImportFrom) and
                     n.module == "__future__" and
                     any(a.name == "division" for a in n.names)
                     for n in tree.body)
        tree = _Py2(not future).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, filename, "exec", dont_inherit=True)


_INTS = (int, numpy.integer)


def py2_div(a, b):
    if isinstance(a, _INTS) and isinstance(b, _INTS):
        return a // b
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        ka = a.dtype.kind if isinstance(a, numpy.ndarray) else \
            ("i" if isinstance(a, _INTS) else "f")
        kb = b.dtype.kind if isinstance(b, numpy.ndarray) else \
            ("i" if isinstance(b, _INTS) else "f")
        if ka in "iub" and kb in "iub":
            return a // b
    return a / b


def py2_idiv(a, b):
    if isinstance(a, numpy.ndarray) and a.dtype.kind == "f":
        a /= b
        return a
    return py2_div(a, b)


def _float_str(x):
    s = "%.12g" % x
    if s in ("inf", "-inf", "nan"):
        return s
    if "." not in s and "e" not in s:
        s += ".0"
    return s


def py2_str(x):
    if isinstance(x, numpy.floating) or type(x) is float:
        return _float_str(float(x))
    if isinstance(x, numpy.integer):
        return str(int(x))
    return str(x)


def py2_view(obj, meth):
    if isinstance(obj, dict):
        base = meth.replace("iter", "").replace("view", "")
        return list(getattr(obj, base)())
    if hasattr(obj, meth):
        return getattr(obj, meth)()
    if meth.startswith("iter") or meth.startswith("view"):
        return getattr(obj, meth.replace("iter", "").replace("view", ""))()
    return getattr(obj, meth)()  # raises the natural AttributeError


def py2_round(x, n=0):
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")):
        return x
    from decimal import Decimal, ROUND_HALF_UP
    q = Decimal(1).scaleb(-n)
    d = Decimal(x)
    r = d.copy_abs().quantize(q, rounding=ROUND_HALF_UP) if \
        abs(x) < 1e25 else d.copy_abs()
    return float(-r if x < 0 else r)


def make_builtins(overrides):
    """A private __builtins__ table with Python 2 names and meanings."""
    b = dict(builtins.__dict__)

    def py2_range(*a):
        return list(range(*a))

    def py2_map(f, *its):
        if f is None:
            return list(zip(*its)) if len(its) > 1 else list(its[0])
        return list(map(f, *its))

    def py2_filter(f, it):
        return list(filter(f, it))

    def py2_zip(*its, **kw):
        return list(zip(*its, **kw))

    b.update({
        "__py2_div__": py2_div, "__py2_idiv__": py2_idiv,
        "__py2_str__": py2_str, "__py2_view__": py2_view,
        "range": py2_range, "xrange": range, "map": py2_map,
        "filter": py2_filter, "zip": py2_zip, "round": py2_round,
        "unicode": str, "basestring": str, "long": int, "unichr": chr,
        "reduce": functools.reduce,
        "cmp": lambda x, y: (x > y) - (x < y),
    })
    b.update(overrides)
    return b
