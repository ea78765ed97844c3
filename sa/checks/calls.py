"""C25: names, attributes, calls and library uses that can never succeed."""
import ast
import builtins
import json
import os
import string

from ..core import *
from .. import library
from ..vg import Interp
from ..terms import and_, not_
from . import jobs, effects, convert, edges, batch
from .jobs import Lost

RULE_NAME = "every name is defined"
RULE_KEY = "a dictionary is read at the keys it was given"
RULE_ATTR = "every attribute exists"
RULE_CALL = "every call fits the function it calls"
RULE_LIB = "every library function exists and takes the arguments"
RULE_UNPACK = "results are unpacked into as many names as there are values"
RULE_FORMAT = "format strings get the values they name"
RULE_IMPORT = "every import finds what it names"
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__", "__loader__",
                                 "__builtins__", "__class__", "WindowsError", "__annotations__", "__module__",
                                 "__qualname__", "reveal_type"}
FNS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
_M = None


def members():
    global _M
    if _M is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(library.__file__)), "members.json")) as f:
            _M = json.load(f)
        _M["universe"] = set(_M["universe"])
    return _M


ARRAYISH = ("numpy.ndarray", "builtins.list", "builtins.tuple", "builtins.dict", "builtins.set", "builtins.str",
            "builtins.int", "builtins.float", "pathlib.Path", "io.TextIOWrapper", "builtins.bytes")
ANN = {"str": "builtins.str", "dict": "builtins.dict", "list": "builtins.list", "tuple": "builtins.tuple",
       "int": "builtins.int", "float": "builtins.float", "set": "builtins.set", "List": "builtins.list",
       "Dict": "builtins.dict", "Tuple": "builtins.tuple"}
MAKES_ARRAY = {"zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like", "array", "asarray",
               "linspace", "arange", "stack", "concatenate", "vstack", "hstack", "dstack", "eye", "pad", "unique",
               "ascontiguousarray", "copy", "isin", "flip", "flipud", "fliplr", "rot90", "logical_not_", "nonzero_",
               "argsort", "cumsum_", "meshgrid_", "tile", "repeat", "broadcast_to", "frombuffer", "fromiter", "loadtxt_",
               "atleast_1d_", "identity", "moveaxis", "swapaxes", "rollaxis", "expand_dims"}
RETURNS = {"builtins.open": "io.TextIOWrapper", "builtins.str": "builtins.str", "builtins.list": "builtins.list",
           "builtins.dict": "builtins.dict", "builtins.set": "builtins.set", "builtins.tuple": "builtins.tuple",
           "builtins.sorted": "builtins.list", "builtins.len": "builtins.int", "builtins.int": "builtins.int",
           "builtins.float": "builtins.float", "os.path.join": "builtins.str", "os.path.basename": "builtins.str",
           "os.path.dirname": "builtins.str", "os.path.abspath": "builtins.str", "os.listdir": "builtins.list",
           "os.path.splitext": "builtins.tuple", "os.path.split": "builtins.tuple", "glob.glob": "builtins.list",
           "PIL.Image.open": "PIL.Image.Image", "PIL.Image.fromarray": "PIL.Image.Image", "PIL.Image.new": "PIL.Image.Image",
           "logging.getLogger": "logging.Logger", "argparse.ArgumentParser": "argparse.ArgumentParser",
           "pathlib.Path": "pathlib.Path", "prettytable.PrettyTable": "prettytable.PrettyTable",
           "multiprocessing.Pool": "multiprocessing.pool.Pool", "scipy.io.loadmat": "builtins.dict",
           "collections.OrderedDict": "collections.OrderedDict", "scipy.ndimage.distance_transform_edt": "numpy.ndarray",
           "scipy.signal.convolve2d": "numpy.ndarray", "scipy.ndimage.correlate": "numpy.ndarray",
           "cv2.distanceTransform": "numpy.ndarray", "os.getcwd": "builtins.str", "os.getpid": "builtins.int"}
METHOD_RETURNS = {
    "builtins.str": {**{x: "builtins.str" for x in "replace strip lstrip rstrip lower upper format join zfill ljust rjust "
                                                    "center title capitalize removeprefix removesuffix".split()},
                     "split": "builtins.list", "splitlines": "builtins.list", "rsplit": "builtins.list",
                     "encode": "builtins.bytes", "partition": "builtins.tuple"},
    "numpy.ndarray": {x: "numpy.ndarray" for x in "astype copy reshape ravel flatten transpose squeeze".split()},
    "builtins.list": {"copy": "builtins.list"}, "builtins.dict": {"copy": "builtins.dict"},
    "io.TextIOWrapper": {"read": "builtins.str", "readlines": "builtins.list"},
}


class Found:
    """Violations of a run, once per place."""
    def __init__(self, c):
        self.c = c
        self.seen = {}
        self.n = {}

    def count(self, what, k=1):
        self.n[what] = self.n.get(what, 0) + k

    def bad(self, rel, line, rule, text):
        self.seen.setdefault((rel, line, text), rule)


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from targets(x)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


def own(node):
    """Nodes of a scope, without those of nested functions and classes (their headers are included)."""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo += x.decorator_list + x.args.defaults + [d for d in x.args.kw_defaults if d is not None]
        elif isinstance(x, ast.ClassDef):
            todo += x.decorator_list + x.bases + [k.value for k in x.keywords]
        elif isinstance(x, ast.Lambda):
            todo += x.args.defaults + [d for d in x.args.kw_defaults if d is not None]
        else:
            todo += list(ast.iter_child_nodes(x))


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]


def binds(node):
    """Names a scope assigns."""
    out = set()
    comp = set()
    for x in own(node):
        if isinstance(x, COMPS):
            for g in x.generators:
                comp |= {id(y) for y in ast.walk(g.target)}
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add((x.id, id(x)))
        elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add((x.name, id(x)))
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                out.add(((a.asname or a.name).split(".")[0] if isinstance(x, ast.Import) else a.asname or a.name, id(x)))
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add((x.name, id(x)))
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            out.add((x.name, id(x)))
    return {n for n, i in out if i not in comp}


def declared(node, kind):
    return {n for x in own(node) if isinstance(x, kind) for n in x.names}


class Walker:
    """One function body (or module body), in order, with the kinds of values its names may hold."""
    def __init__(self, w, mod, node, q, cls=None, outer=(), local=None, env=None):
        self.w, self.ix, self.mod, self.node, self.q, self.cls = w, w.ix, mod, node, q, cls
        self.rel = w.ix.modules[mod].rel
        self.outer = outer                     # enclosing function scopes: sets of names
        self.module_level = isinstance(node, ast.Module)
        g = declared(node, ast.Global)
        nl = declared(node, ast.Nonlocal)
        b = binds(node)
        if isinstance(node, FNS):
            self.local = (b | set(params(node))) - g - nl
        else:
            self.local = b
        if local is not None:
            self.local |= local
        self.env = env or {}
        self.quiet = []                        # what is being tried: names of exceptions caught around here
        self.hints = self.feature_tests()

    def feature_tests(self):
        """Attributes and names a function asks for before it uses them."""
        out = set()
        for x in ast.walk(self.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr", "setattr"):
                for a in x.args[1:2]:
                    if isinstance(a, ast.Constant):
                        out.add(a.value)
                    else:
                        out.add("*")
        return out

    def bad(self, node, rule, text):
        who = self.q
        self.w.f.bad(self.rel, getattr(node, "lineno", 0), rule, f"{who}: {text}")

    def caught(self, *names):
        return any(n in names for q in self.quiet for n in q)

    # -- names
    def known(self, name):
        if name in self.local or any(name in o for o in self.outer) or name in BUILTINS:
            return True
        m = self.ix.modules[self.mod]
        return name in self.w.module_names(self.mod) or self.ix.resolve(self.mod, name) not in (None,) or (
            "*" in m.defs and any(b not in self.ix.modules for b in m.defs["*"][1])) or (
            m.cinfo is not None and name in self.w.c_names(self.mod))

    def name(self, e, have):
        n = e.id
        self.w.f.count("name uses")
        if not self.known(n):
            if not self.caught("NameError") and n not in self.w.globals_set(self.mod):
                self.bad(e, RULE_NAME, f"name `{n}` is not defined")
            return None
        if n in self.local:
            if isinstance(self.node, ast.ClassDef) and n not in (have or ()):
                return None
            if have is not None and n not in have and not self.caught("NameError", "UnboundLocalError"):
                self.bad(e, RULE_NAME, f"local variable `{n}` is used before anything is assigned to it")
            return self.env.get(n)
        if any(n in o for o in self.outer):
            return None
        return self.w.global_type(self.mod, n)

    # -- expressions: the kinds of value, None when unknown
    def ex(self, e, have):
        """Kinds of the value of `e`; `have`: the names assigned so far, None inside nested functions."""
        if e is None:
            return None
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is not None:
            return m(e, have)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ex(x, have)
            elif isinstance(x, (ast.keyword, ast.FormattedValue)):
                self.ex(x.value, have)
        return None

    def x_Name(self, e, have):
        if isinstance(e.ctx, ast.Load):
            return self.name(e, have)
        return None

    def x_Constant(self, e, have):
        v = e.value
        if isinstance(v, str):
            return frozenset([("obj", "builtins.str")])
        if isinstance(v, (bool, type(None), type(...))):
            return None
        if isinstance(v, (int, float)):
            return frozenset([("obj", "builtins." + type(v).__name__)])
        return None

    def x_JoinedStr(self, e, have):
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                self.ex(x.value, have)
                if x.format_spec is not None:
                    self.ex(x.format_spec, have)
        return frozenset([("obj", "builtins.str")])

    def x_List(self, e, have):
        for x in e.elts:
            self.ex(x, have)
        return frozenset([("obj", "builtins.list")])

    def x_Tuple(self, e, have):
        ts = [self.ex(x, have) for x in e.elts]
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return frozenset([("obj", "builtins.tuple")])
        return frozenset([("tuple", tuple(ts))])

    def x_Dict(self, e, have):
        for x in e.keys + e.values:
            self.ex(x, have)
        if e.keys and all(isinstance(k, ast.Constant) for k in e.keys):
            return frozenset([("dict", frozenset(k.value for k in e.keys))])
        return frozenset([("obj", "builtins.dict")])

    def comp(self, e, have):
        names = set()
        keep = dict(self.env)
        first = True
        local = self.local
        for g in e.generators:
            t = self.ex(g.iter, have if have is None or not names else have | names)
            names |= set(targets(g.target))
            for n in targets(g.target):
                self.env.pop(n, None)
            self.local = self.local | names
            inner = have if have is None else have | names
            for i in g.ifs:
                self.ex(i, inner)
            first = False
        inner = have if have is None else have | names
        if isinstance(e, ast.DictComp):
            self.ex(e.key, inner)
            self.ex(e.value, inner)
        else:
            self.ex(e.elt, inner)
        self.env = keep
        self.local = local
        return {ast.ListComp: frozenset([("obj", "builtins.list")]), ast.DictComp: frozenset([("obj", "builtins.dict")]),
                ast.SetComp: frozenset([("obj", "builtins.set")])}.get(type(e))

    x_ListComp = x_SetComp = x_DictComp = x_GeneratorExp = comp

    def x_Lambda(self, e, have):
        for d in e.args.defaults + [d for d in e.args.kw_defaults if d is not None]:
            self.ex(d, have)
        w = Walker(self.w, self.mod, e, self.q, self.cls, self.scopes())
        w.quiet = self.quiet
        w.ex(e.body, None)
        return None

    def scopes(self):
        return self.outer + ((self.local,) if not self.module_level else ())

    def x_IfExp(self, e, have):
        self.ex(e.test, have)
        return self.join(self.ex(e.body, have), self.ex(e.orelse, have))

    def x_BoolOp(self, e, have):
        ts = [self.ex(x, have) for x in e.values]
        return None

    def x_NamedExpr(self, e, have):
        t = self.ex(e.value, have)
        self.env[e.target.id] = t
        if have is not None:
            have.add(e.target.id)
        return t

    def x_Starred(self, e, have):
        self.ex(e.value, have)
        return None

    def x_Subscript(self, e, have):
        t = self.ex(e.value, have)
        self.ex(e.slice, have)
        if t and all(x[0] == "obj" and x[1] == "builtins.str" for x in t):
            return t
        if t and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and len(t) == 1:
            x, = t
            if x[0] == "tuple":
                k = e.slice.value
                if -len(x[1]) <= k < len(x[1]):
                    return x[1][k]
        return None

    def x_BinOp(self, e, have):
        a, b = self.ex(e.left, have), self.ex(e.right, have)
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            self.percent(e)
            return frozenset([("obj", "builtins.str")])
        s = frozenset([("obj", "builtins.str")])
        if a == s and b == s and isinstance(e.op, ast.Add):
            return s
        if a == b == frozenset([("obj", "numpy.ndarray")]):
            return a
        for x, y in ((a, e.right), (b, e.left)):
            if x and {k[0] for k in x} == {"ann"} and isinstance(y, ast.Constant) and type(y.value) in (int, float):
                return x
        return None

    def percent(self, e):
        import re
        specs = [x for x in re.findall(r"%(?:\(\w+\))?[-#0 +]*(\*|\d*)(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])", e.left.value)
                 if x[2] != "%"]
        if "%(" in e.left.value:
            return
        need = sum(1 + (x[0] == "*") + (x[1] == "*") for x in specs)
        self.w.f.count("format strings")
        if isinstance(e.right, ast.Tuple):
            if not any(isinstance(x, ast.Starred) for x in e.right.elts) and len(e.right.elts) != need:
                self.bad(e, RULE_FORMAT, f"`%` has {need} places for {len(e.right.elts)} values")
        elif isinstance(e.right, (ast.Constant, ast.JoinedStr)) and need != 1:
            self.bad(e, RULE_FORMAT, f"`%` has {need} places for one value")

    def x_Attribute(self, e, have):
        t = self.ex(e.value, have)
        return self.attr(t, e)

    def attr(self, t, e):
        n = e.attr
        self.w.f.count("attribute uses")
        if n in self.hints or "*" in self.hints or self.caught("AttributeError"):
            if t is None:
                return None
            return self.join(*[self.attr_of(x, e, False)[1] for x in t])
        if t is None:
            if n not in members()["universe"] and n not in self.w.package_attrs() and not (
                    n.startswith("__") and n.endswith("__")):
                self.bad(e, RULE_ATTR, f"no object has an attribute `{n}`")
            return None
        rs = [self.attr_of(x, e, True) for x in t]
        if all(r[0] is False for r in rs):
            self.bad(e, rs[0][2], rs[0][3])
            return None
        return self.join(*[r[1] for r in rs])

    def attr_of(self, x, e, report):
        """(exists?, kinds, rule, complaint)"""
        n = e.attr
        if x[0] in ("mod",):
            r = self.ix.resolve(x[1], n)
            if (r is None or r[0] == "missing") and n not in self.w.module_names(x[1]) and not (
                    n.startswith("__")) and n not in self.w.globals_set(x[1]) and not self.ix.modules[x[1]].cinfo:
                return False, None, RULE_ATTR, f"module `{x[1]}` has no `{n}`"
            return True, self.w.global_type(x[1], n), None, None
        if x[0] == "ext":
            d = x[1] + "." + n
            if library.entry(d) == "missing":
                if n.startswith("__"):
                    return True, None, None, None
                return False, None, RULE_LIB, f"`{x[1]}` has no `{n}`"
            return True, frozenset([("ext", self.w.canonical(d))]), None, None
        if x[0] in ("inst", "cls", "super"):
            return self.w.class_attr(x, n)
        if x[0] == "me":
            return self.w.self_attr(x[1], x[2], n)
        if x[0] == "tuple":
            x = ("obj", "builtins.tuple")
        if x[0] == "dict":
            x = ("obj", "builtins.dict")
        if x[0] == "obj":
            ms = members()["types"].get(x[1])
            if ms is not None and n not in ms:
                return False, None, RULE_ATTR, f"`{x[1].rpartition('.')[2]}` has no attribute `{n}`"
            return True, frozenset([("meth", x[1], n)]), None, None
        if x[0] == "ann":
            if not any(n in members()["types"][y] for y in ARRAYISH):
                return False, None, RULE_ATTR, f"an array has no attribute `{n}`"
            return True, frozenset([x + (n,)]) if n in METHOD_RETURNS["numpy.ndarray"] and len(x) == 2 else None, None, None
        return True, None, None, None

    def join(self, *ts):
        if not ts or any(t is None for t in ts):
            return None
        out = frozenset().union(*ts)
        return out if len(out) <= 8 else None

    # -- calls
    def x_Call(self, e, have):
        f = e.func
        ft = self.ex(f, have)
        ats = [self.ex(a.value if isinstance(a, ast.Starred) else a, have) for a in e.args]
        kts = {}
        for k in e.keywords:
            t = self.ex(k.value, have)
            if k.arg is not None:
                kts[k.arg] = t
        # `x.update(...)` and passing a dictionary on: its keys are no longer known
        for a, t in list(zip(e.args, ats)) + [(k.value, None) for k in e.keywords if k.arg is not None]:
            self.spoil(a)
        if isinstance(f, ast.Attribute) and f.attr in ("update", "pop", "setdefault", "clear", "popitem"):
            self.spoil(f.value)
        self.w.f.count("calls")
        if isinstance(f, ast.Attribute) and f.attr == "format":
            v = f.value
            if isinstance(v, ast.Name):
                v = self.sole(v.id)
            if isinstance(v, ast.Constant) and isinstance(v.value, str):
                self.format(e, v.value)
        if isinstance(f, ast.Name) and f.id == "super" and not e.args and self.cls and self.known("super"):
            return frozenset([("super", self.cls)])
        if ft is None:
            return None
        rs = [self.call_of(x, e, ats, kts, have) for x in ft]
        if rs and all(r[0] is False for r in rs) and not self.caught("TypeError"):
            self.bad(e, rs[0][2], rs[0][3])
        return self.join(*[r[1] for r in rs])

    def sole(self, n):
        """The value of a name that is assigned once in this function."""
        vs = [x.value for x in own(self.node) if isinstance(x, ast.Assign) and n in {y for t in x.targets for y in targets(t)}
              ] if n in self.local else []
        k = sum(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) for x in own(self.node))
        return vs[0] if len(vs) == 1 == k and not (isinstance(self.node, FNS) and n in params(self.node)) else None

    def spoil(self, a):
        if isinstance(a, ast.Name) and self.env.get(a.id) and any(x[0] == "dict" for x in self.env[a.id]):
            self.env[a.id] = frozenset([("obj", "builtins.dict")])

    def format(self, e, s):
        self.w.f.count("format strings")
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            return
        try:
            fields = [x[1] for x in string.Formatter().parse(s) if x[1] is not None]
            for x in list(string.Formatter().parse(s)):
                if x[2]:
                    fields += [y[1] for y in string.Formatter().parse(x[2]) if y[1] is not None]
        except ValueError as err:
            self.bad(e, RULE_FORMAT, f"format string: {err}")
            return
        auto = 0
        for x in fields:
            nm = x.split(".")[0].split("[")[0]
            if nm == "" or nm.isdigit():
                k = int(nm) if nm else auto
                auto += nm == ""
                if k >= len(e.args):
                    self.bad(e, RULE_FORMAT, f"format string names value {k} of {len(e.args)}")
                    return
            elif nm not in {k.arg for k in e.keywords}:
                self.bad(e, RULE_FORMAT, f"format string names `{nm}`, which is not given")
                return

    def given(self, e, skip=0):
        """(positional count or None when open, keyword names, open keywords?)"""
        n = 0
        open_pos = False
        for a in e.args[skip:]:
            if isinstance(a, ast.Starred):
                t = self.env.get(a.value.id) if isinstance(a.value, ast.Name) else None
                open_pos = True
            else:
                n += 1
        kws, open_kw = [], False
        for k in e.keywords:
            if k.arg is not None:
                kws.append(k.arg)
                continue
            keys = None
            v = k.value
            if isinstance(v, ast.Name) and self.env.get(v.id) and len(self.env[v.id]) == 1:
                x, = self.env[v.id]
                keys = x[1] if x[0] == "dict" else None
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dict" and not v.args and all(
                    y.arg for y in v.keywords):
                keys = {y.arg for y in v.keywords}
            elif isinstance(v, ast.Dict) and v.keys and all(isinstance(y, ast.Constant) for y in v.keys):
                keys = {y.value for y in v.keys}
            if keys is None:
                open_kw = True
            else:
                kws += sorted(map(str, keys))
        return n, open_pos, kws, open_kw

    def fits(self, fn, e, bound, skip=0, extra=0, partial=()):
        """None when the arguments of call `e` fit function `fn`, otherwise the complaint."""
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        n, open_pos, kws, open_kw = self.given(e, skip)
        n += extra + (1 if bound else 0)
        ko = [x.arg for x in a.kwonlyargs]
        opt = set(pos[len(pos) - len(a.defaults):]) if a.defaults else set()
        optko = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        if n > len(pos) and a.vararg is None:
            return f"takes {len(pos)} positional arguments but {n} are given"
        po = {x.arg for x in a.posonlyargs}
        dup = [k for k in kws if kws.count(k) > 1]
        if dup:
            return f"gets `{dup[0]}` twice"
        for k in kws:
            if k in pos and k not in po:
                if pos.index(k) < n and k not in partial:
                    return f"gets `{k}` twice"
            elif k not in ko and a.kwarg is None:
                return f"has no parameter `{k}`"
        if not open_pos and not open_kw:
            for k in pos[n:]:
                if k not in kws and k not in opt and k not in partial:
                    return f"misses `{k}`"
        if not open_kw:
            for k in ko:
                if k not in kws and k not in optko and k not in partial:
                    return f"misses `{k}`"
        return None

    def fits_sig(self, sig, e, extra=0):
        pos = [s for s in sig if s[1] in ("po", "pk")]
        names = {s[0] for s in sig if s[1] in ("pk", "ko")}
        var, kwv = any(s[1] == "*" for s in sig), any(s[1] == "**" for s in sig)
        n, open_pos, kws, open_kw = self.given(e)
        n += extra
        if n > len(pos) and not var:
            return f"takes {len(pos)} positional arguments but {n} are given"
        for k in kws:
            if k not in names and not kwv:
                return f"has no parameter `{k}`"
            if k in [s[0] for s in pos[:n] if s[1] == "pk"]:
                return f"gets `{k}` twice"
        if not open_pos and not open_kw:
            for s in pos[n:]:
                if s[2] is None and s[0] not in kws:
                    return f"misses `{s[0]}`"
            for s in sig:
                if s[1] == "ko" and s[2] is None and s[0] not in kws:
                    return f"misses `{s[0]}`"
        return None

    def call_of(self, x, e, ats, kts, have):
        """(fits?, kinds of the result, rule, complaint)"""
        if x[0] == "fn":
            q = x[1]
            node, mod = self.w.fn_node(q)
            if node is None or self.w.ix.modules[mod].cinfo is not None and node is None:
                return True, None, None, None
            if self.w.decorated(node):
                return True, None, None, None
            why = self.fits(node, e, x[2])
            if why:
                return False, None, RULE_CALL, f"call of {q.split('.', 1)[1]} {why}" if not why.startswith(
                    ("takes", "has")) else f"{q.split('.', 1)[1]} {why}"
            return True, self.w.returns(q), None, None
        if x[0] == "cls":
            r = self.w.constructor(x[1])
            if r is None:
                return True, frozenset([("inst", x[1])]), None, None
            if r == "none":
                if (e.args or e.keywords):
                    return False, None, RULE_CALL, f"{x[1].rpartition('.')[2]} takes no arguments"
                return True, frozenset([("inst", x[1])]), None, None
            why = self.fits(r[1], e, True)
            if why:
                return False, None, RULE_CALL, f"{x[1].rpartition('.')[2]}() {why}"
            return True, frozenset([("inst", x[1])]), None, None
        if x[0] == "inst":
            m = self.ix.find_method(x[1], "__call__")
            if m is None:
                if self.w.closed_class(x[1]):
                    return False, None, RULE_CALL, f"a {x[1].rpartition('.')[2]} object cannot be called"
                return True, None, None, None
            why = self.fits(m[1], e, True)
            if why:
                return False, None, RULE_CALL, f"call of a {x[1].rpartition('.')[2]} object {why}"
            return True, None, None, None
        if x[0] == "self":
            # a method called on self: every class that gets here through this code has to accept it
            for q in x[1]:
                node, mod = self.w.fn_node(q)
                if node is None or self.w.decorated(node, True):
                    continue
                why = self.fits(node, e, x[2])
                if why:
                    return False, None, RULE_CALL, f"call of {q.split('.', 1)[1]} {why}"
            return True, (self.w.returns(x[1][0]) if len(x[1]) == 1 else None), None, None
        if x[0] == "ext":
            d = x[1]
            if d in ("functools.partial", "builtins.map", "builtins.super"):
                if d == "functools.partial":
                    self.partial(e, ats)
                return True, None, None, None
            en = library.entry(d)
            if en == "missing":
                return True, None, None, None
            sig = library.signature(d)
            self.w.f.count("library calls")
            if sig is not None and d not in SIG_OFF:
                why = self.fits_sig(sig, e)
                if why:
                    return False, None, RULE_LIB, f"`{d}` {why}"
            if d.startswith("numpy.") and d[6:] in MAKES_ARRAY and not any(
                    k.arg in ("return_index", "return_counts", "return_inverse", "retstep") or k.arg is None
                    for k in e.keywords) and not (d == "numpy.unique" and len(e.args) > 1):
                return True, frozenset([("obj", "numpy.ndarray")]), None, None
            if d == "builtins.dict" and not e.args and e.keywords and all(k.arg for k in e.keywords):
                return True, frozenset([("dict", frozenset(k.arg for k in e.keywords))]), None, None
            if d == "builtins.open" and (len(e.args) > 1 or e.keywords):
                mode = e.args[1] if len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == "mode"), None)
                if mode is not None and not (isinstance(mode, ast.Constant) and "b" not in str(mode.value)):
                    return True, None, None, None
            if d in RETURNS:
                return True, frozenset([("obj", RETURNS[d])]), None, None
            return True, None, None, None
        if x[0] == "ann" and len(x) == 3:
            return True, frozenset([x[:2]]), None, None
        if x[0] == "meth":
            sig = members()["types"][x[1]].get(x[2])
            if sig is not None and (x[1], x[2]) not in METH_OFF:
                why = self.fits_sig(sig, e)
                if why:
                    return False, None, RULE_LIB, f"`{x[1].rpartition('.')[2]}.{x[2]}` {why}"
            r = METHOD_RETURNS.get(x[1], {}).get(x[2])
            return True, frozenset([("obj", r)]) if r else None, None, None
        if x[0] == "dict" or x[0] == "tuple" or x[0] == "obj":
            return False, None, RULE_CALL, f"a {x[1].rpartition('.')[2] if x[0] == 'obj' else x[0]} is called"
        if x[0] == "mod":
            return False, None, RULE_CALL, f"module `{x[1]}` is called"
        return True, None, None, None

    def partial(self, e, ats):
        if not e.args or not ats[0]:
            return
        for x in ats[0]:
            if x[0] != "fn":
                continue
            node, mod = self.w.fn_node(x[1])
            if node is None or self.w.decorated(node):
                continue
            a = node.args
            pos = [y.arg for y in a.posonlyargs + a.args]
            n, open_pos, kws, open_kw = self.given(e, 1)
            n += bool(x[2])
            if n > len(pos) and a.vararg is None:
                self.bad(e, RULE_CALL, f"{x[1].split('.', 1)[1]} takes {len(pos)} positional arguments but {n} are given")
            for k in kws:
                if k not in pos + [y.arg for y in a.kwonlyargs] and a.kwarg is None:
                    self.bad(e, RULE_CALL, f"{x[1].split('.', 1)[1]} has no parameter `{k}`")

    # -- statements; `have`: names that may be assigned, or None when nothing can follow
    def body(self, stmts, have):
        for s in stmts:
            have = self.st(s, have)
        return have

    def assign(self, t, ty, have, value=None):
        if isinstance(t, ast.Name):
            self.env[t.id] = ty
            have.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = [None] * len(t.elts)
            star = any(isinstance(x, ast.Starred) for x in t.elts)
            if ty and not star:
                lens = [len(x[1]) if x[0] == "tuple" else None for x in ty]
                if lens and all(n is not None and n != len(t.elts) for n in lens):
                    self.bad(t, RULE_UNPACK, f"{lens[0]} values are unpacked into {len(t.elts)} names")
                elif len(ty) == 1 and lens[0] == len(t.elts):
                    parts = list(next(iter(ty))[1])
            self.w.f.count("unpackings")
            for x, p in zip(t.elts, parts):
                self.assign(x, p, have)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, frozenset([("obj", "builtins.list")]), have)
        elif isinstance(t, ast.Attribute):
            self.ex(t.value, have)
        elif isinstance(t, ast.Subscript):
            self.ex(t.value, have)
            self.ex(t.slice, have)
            self.spoil(t.value)

    def st(self, s, have):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            r = m(s, have)
            return have if r is None else r
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.ex(x, have)
        return have

    def s_Assign(self, s, have):
        t = self.ex(s.value, have)
        for x in s.targets:
            self.assign(x, t, have)

    def s_AnnAssign(self, s, have):
        if s.value is not None:
            self.assign(s.target, self.ex(s.value, have), have)

    def s_AugAssign(self, s, have):
        if isinstance(s.target, ast.Name):
            self.name(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), have)
            t = self.env.get(s.target.id)
            self.ex(s.value, have)
            self.env[s.target.id] = t if t and all(x == ("obj", "builtins.str") for x in t) else None
            have.add(s.target.id)
        else:
            self.assign(s.target, None, have)
            self.ex(s.value, have)

    def s_Delete(self, s, have):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.name(ast.copy_location(ast.Name(t.id, ast.Load()), t), have)
            else:
                self.ex(t, have)

    def branch(self, stmts, have):
        env = dict(self.env)
        h = self.body(stmts, set(have))
        out = self.env
        self.env = env
        return h, out, any(isinstance(s, (ast.Return, ast.Raise)) for s in stmts)

    def merge(self, bs, have):
        live = [b for b in bs if not b[2]] or bs
        h = set().union(*[b[0] for b in live])
        keys = set().union(*[set(b[1]) for b in live])
        self.env = {}
        for k in keys:
            ts = [b[1].get(k) for b in live]
            known = [t for t in ts if t is not None]
            if len(known) == len(ts):
                self.env[k] = self.join(*ts)
        return h

    def narrowed(self, test):
        """Names whose kind a test asks for."""
        return {a.id for x in ast.walk(test) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)
                and x.func.id in ("isinstance", "hasattr", "issubclass", "callable", "type") for a in x.args[:1]
                if isinstance(a, ast.Name)}

    def s_If(self, s, have):
        self.ex(s.test, have)
        for n in self.narrowed(s.test):
            self.env[n] = None
        a = self.branch(s.body, have)
        b = self.branch(s.orelse, have)
        return self.merge([a, b], have)

    def loop(self, s, have, head):
        before = dict(self.env)
        for k in range(2):
            head(have)
            h, env, _ = self.branch(s.body, have)
            have = have | h
            self.env = {n: self.join(before.get(n), env.get(n)) if n in before and n in env else None
                        for n in set(before) | set(env)}
            self.env = {n: t for n, t in self.env.items() if t is not None}
            before = dict(self.env)
        return self.body(s.orelse, set(have))

    def s_For(self, s, have):
        self.ex(s.iter, have)
        have = set(have)
        # names assigned later in the body may hold other things on later turns
        for n in assigned(s.body):
            self.env.pop(n, None)
        return self.loop(s, have, lambda h: self.assign(s.target, None, h))

    s_AsyncFor = s_For

    def s_While(self, s, have):
        for n in assigned(s.body):
            self.env.pop(n, None)
        return self.loop(s, set(have), lambda h: self.ex(s.test, h))

    def s_With(self, s, have):
        for i in s.items:
            t = self.ex(i.context_expr, have)
            if i.optional_vars is not None:
                keep = t and all(x in (("obj", "io.TextIOWrapper"), ("obj", "multiprocessing.pool.Pool"),
                                       ("obj", "PIL.Image.Image")) for x in t)
                self.assign(i.optional_vars, t if keep else None, have)
        return self.body(s.body, have)

    s_AsyncWith = s_With

    def s_Try(self, s, have):
        names = set()
        for h in s.handlers:
            for x in ast.walk(h.type) if h.type is not None else ():
                if isinstance(x, ast.Name):
                    names.add(x.id)
                elif isinstance(x, ast.Attribute):
                    names.add(x.attr)
        self.quiet.append(names)
        start = set(have)
        env0 = dict(self.env)
        h0, env, e0 = self.branch(s.body, have)
        self.quiet.pop()
        inner = start | h0
        bs = []
        for h in s.handlers:
            self.env = {k: v for k, v in env0.items() if env.get(k) == v}
            if h.type is not None:
                self.ex(h.type, inner)
            hv = set(inner)
            if h.name:
                hv.add(h.name)
                self.env.pop(h.name, None)
            bs.append(self.branch(h.body, hv))
        self.env = env
        he, enve, ee = self.branch(s.orelse, h0)
        bs.append((he, enve, e0 or ee))
        out = self.merge(bs, have)
        return self.body(s.finalbody, out | (start | h0))

    s_TryStar = s_Try

    def s_FunctionDef(self, s, have):
        for d in s.decorator_list + s.args.defaults + [d for d in s.args.kw_defaults if d is not None]:
            self.ex(d, have)
        self.env[s.name] = self.w.global_type(self.mod, s.name) if self.module_level else None
        have.add(s.name)
        if not self.module_level:
            self.w.function(self.mod, s, f"{self.q}.{s.name}", self.cls, self.scopes(), self.quiet)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, have):
        for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
            self.ex(d, have)
        self.env[s.name] = self.w.global_type(self.mod, s.name) if self.module_level else None
        have.add(s.name)

    def s_Import(self, s, have):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            have.add(nm)
            self.w.imported(self, s, a.name, None)
            tgt = a.name if a.asname else a.name.split(".")[0]
            self.env[nm] = frozenset([("mod", tgt) if tgt in self.ix.modules else ("ext", tgt)])

    def s_ImportFrom(self, s, have):
        base = self.ix.modules[self.mod]._abs(s)
        for a in s.names:
            nm = a.asname or a.name
            have.add(nm)
            self.w.imported(self, s, base, a.name)
            if base in self.ix.modules:
                self.env[nm] = self.w.global_type(base, a.name)
            else:
                d = self.w.canonical(f"{base}.{a.name}")
                self.env[nm] = frozenset([("ext", d)])

    def s_Return(self, s, have):
        self.ex(s.value, have)

    def s_Global(self, s, have):
        pass

    s_Nonlocal = s_Global

    def s_Match(self, s, have):
        self.ex(s.subject, have)
        bs = []
        for k in s.cases:
            for x in ast.walk(k.pattern):
                for nm in (getattr(x, "name", None), getattr(x, "rest", None)):
                    if isinstance(nm, str):
                        have = have | {nm}
            if k.guard is not None:
                self.ex(k.guard, have)
            bs.append(self.branch(k.body, have))
        return self.merge(bs + [(set(have), dict(self.env), False)], have)


SIG_OFF = {"builtins.print", "builtins.type", "builtins.super", "builtins.property"}
METH_OFF = {("builtins.dict", "fromkeys")}


def assigned(stmts):
    out = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
    return out


class World:
    def __init__(self, c):
        self.c, self.ix, self.f = c, c.ix, Found(c)
        self._names, self._gset, self._ret, self._attrs = {}, {}, {}, None
        self._gt = {}
        self._cls = {}

    # -- modules
    def module_names(self, m):
        if m not in self._names:
            mod = self.ix.modules.get(m)
            out = set()
            if mod is not None:
                out = binds(mod.tree)
                out |= {n for n in mod.defs if n != "*"}
                for x in ast.walk(mod.tree):
                    if isinstance(x, ast.Global):
                        out |= set(x.names)
            self._names[m] = out
        return self._names[m]

    def globals_set(self, m):
        """Names put into a module from outside: globals()[...], setattr(module, ...)"""
        if m not in self._gset:
            out = set()
            for x in ast.walk(self.ix.modules[m].tree):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("globals", "vars", "exec"):
                    out.add("*")
                if isinstance(x, ast.FunctionDef) and x.name == "__getattr__" and x in self.ix.modules[m].tree.body:
                    out.add("*")
            self._gset[m] = All() if out else out
        return self._gset[m]

    def c_names(self, m):
        ci = self.ix.modules[m].cinfo
        return All() if ci is not None else ()

    def canonical(self, d):
        """The dotted name a library knows something by, through its sub-modules."""
        mod, _, nm = d.rpartition(".")
        t = library.table()
        e = (t.get(mod) or {}).get(nm)
        if isinstance(e, str) and e.startswith("module:"):
            return e[7:] if e[7:] in t else d
        return d

    def global_type(self, m, n):
        key = (m, n)
        if key in self._gt:
            return self._gt[key]
        self._gt[key] = None
        r = self.ix.resolve(m, n) if m in self.ix.modules else None
        t = None
        if r is None:
            if n in BUILTINS and m in self.ix.modules and n not in self.module_names(m):
                t = frozenset([("ext", "builtins." + n)])
        elif r[0] == "fn":
            t = frozenset([("fn", r[1], False)])
            if self.redefined(r[3], r[1].rpartition(".")[2]) or self.ix.modules[r[3]].cinfo is not None and False:
                t = None
        elif r[0] == "cls":
            t = frozenset([("cls", r[1])])
            if self.redefined(r[3], r[1].rpartition(".")[2]):
                t = None
        elif r[0] == "mod":
            t = frozenset([("mod", r[1])])
        elif r[0] == "ext":
            d = r[1]
            t = frozenset([("ext", self.canonical(d))])
        elif r[0] == "assign" and len(r[3]) == 1 and isinstance(r[3][0], ast.Assign) and len(r[3][0].targets) == 1 and \
                isinstance(r[3][0].targets[0], ast.Name):
            v = r[3][0].value
            if isinstance(v, (ast.List, ast.ListComp)):
                t = frozenset([("obj", "builtins.list")])
            elif isinstance(v, (ast.Dict, ast.DictComp)):
                t = frozenset([("obj", "builtins.dict")])
            elif isinstance(v, ast.Constant) and isinstance(v.value, str):
                t = frozenset([("obj", "builtins.str")])
        self._gt[key] = t
        return t

    def redefined(self, m, n):
        """A module name bound more than once (or only under a condition)."""
        k = 0
        for x in own(self.ix.modules[m].tree):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == n:
                k += 1
            elif isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store):
                k += 1
            elif isinstance(x, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name) == n for a in x.names):
                k += 1
        return k > 1

    def imported(self, w, s, base, name):
        self.f.count("imports")
        if w.caught("ImportError", "ModuleNotFoundError", "Exception"):
            return
        if base in self.ix.modules:
            if name in (None, "*"):
                return
            r = self.ix.resolve(base, name)
            if (r is None or r[0] == "missing") and name not in self.module_names(base) and \
                    f"{base}.{name}" not in self.ix.modules and not self.globals_set(base):
                w.bad(s, RULE_IMPORT, f"`{base}` has no `{name}`")
            return
        top = (base or "").split(".")[0]
        if top in ("pyEdgeEval", "scripts"):
            w.bad(s, RULE_IMPORT, f"there is no module `{base}`")
            return
        if name not in (None, "*") and library.entry(f"{base}.{name}") == "missing" and f"{base}.{name}" not in library.table():
            w.bad(s, RULE_IMPORT, f"`{base}` has no `{name}`")

    # -- functions and classes
    def fn_node(self, q):
        mod, _, nm = q.rpartition(".")
        m = self.ix.modules.get(mod)
        if m is not None:
            d = m.defs.get(nm)
            if d and d[0] == "def" and isinstance(d[1], FNS):
                return d[1], mod
            return None, None
        node, cm = self.ix.cls(mod)
        for s in node.body if node is not None else ():
            if isinstance(s, ast.FunctionDef) and s.name == nm:
                return s, cm
        return None, None

    def decorated(self, node, method=False):
        ok = {"staticmethod", "classmethod", "abstractmethod", "property"}
        for d in node.decorator_list:
            n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ""
            if n not in ok:
                return True
        return False

    def returns(self, q):
        """Kinds of the tuples a function returns, by their length."""
        if q in self._ret:
            return self._ret[q]
        self._ret[q] = None
        node, mod = self.fn_node(q)
        out = set()
        if node is None or self.decorated(node) or isinstance(node, ast.AsyncFunctionDef):
            return None
        for x in own(node):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return None
            if isinstance(x, ast.Return):
                v = x.value
                if isinstance(v, ast.Tuple) and not any(isinstance(y, ast.Starred) for y in v.elts):
                    out.add(("tuple", tuple([None] * len(v.elts))))
                else:
                    return None
        self._ret[q] = frozenset(out) if out else None
        return self._ret[q]

    def constructor(self, q):
        m = self.ix.find_method(q, "__init__")
        if m is not None:
            if self.new_or_meta(q):
                return None
            return m
        return "none" if self.closed_class(q) and not self.new_or_meta(q) else None

    def new_or_meta(self, q):
        if self.ix.find_method(q, "__new__") is not None:
            return True
        for k in self.ix.mro(q):
            node, _ = self.ix.cls(k)
            if node is not None and node.decorator_list:
                return True
        return False

    def closed_class(self, q):
        """All of a class's bases are in the package (or object, or an abstract-class marker)."""
        for k in self.ix.mro(q):
            node, mod = self.ix.cls(k)
            if node is None:
                return False
            for b in node.bases:
                r = self.ix.resolve(mod, b.id) if isinstance(b, ast.Name) else None
                if r and r[0] == "cls" or isinstance(b, ast.Name) and b.id in ("object", "ABC"):
                    continue
                return False
            for kw in node.keywords:
                if kw.arg != "metaclass" or not (isinstance(kw.value, ast.Name) and kw.value.id == "ABCMeta"):
                    return False
        return True

    def subclasses(self, q):
        if not self._cls:
            for m in self.ix.modules.values():
                for n, d in m.defs.items():
                    if d[0] == "def" and isinstance(d[1], ast.ClassDef):
                        k = f"{m.name}.{n}"
                        for b in self.ix.mro(k):
                            self._cls.setdefault(b, set()).add(k)
        return self._cls.get(q, {q})

    def instance_attrs(self, q):
        """Attributes the methods of a class and its bases set on self (None: open)."""
        out = set()
        for k in self.ix.mro(q):
            node, mod = self.ix.cls(k)
            if node is None:
                return None
            for s in node.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    out.add(s.name)
                    if s.name in ("__getattr__", "__getattribute__", "__setattr__"):
                        return None
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                        out |= set(targets(t))
                elif isinstance(s, (ast.If, ast.For, ast.With, ast.Try)):
                    out |= assigned([s])
                    out |= {x.name for x in ast.walk(s) if isinstance(x, ast.FunctionDef)}
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    out |= {(a.asname or a.name).split(".")[0] for a in s.names}
                if isinstance(s, ast.Assign) and any(n == "__slots__" for t in s.targets for n in targets(t)):
                    out |= {x.value for x in ast.walk(s.value) if isinstance(x, ast.Constant)}
                if isinstance(s, ast.FunctionDef) and s.args.args:
                    me = s.args.args[0].arg
                    for x in ast.walk(s):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(
                                x.value, ast.Name):
                            if x.value.id == me:
                                out.add(x.attr)
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "vars"):
                            return None
                        if isinstance(x, ast.Attribute) and x.attr == "__dict__":
                            return None
        return out

    def class_attr(self, x, n):
        kind, q = x[0], x[1]
        if kind == "super" and n == "__init__":
            # the next class in line depends on the object's class
            ms, mros = [], [self.ix.mro(k) for k in sorted(self.subclasses(q))]
            for mro in mros:
                for y in mro[mro.index(q) + 1:]:
                    if self.own_method(y, n) is not None:
                        ms.append(f"{y}.{n}")
                        break
                else:
                    return True, None, None, None
            if ms and self.closed_class(q):
                return True, frozenset([("self", tuple(sorted(set(ms))), True)]), None, None
            return True, None, None, None
        if n.startswith("__") and n.endswith("__"):
            return True, None, None, None
        if kind == "super":
            for k in self.ix.mro(q)[1:]:
                m = self.own_method(k, n)
                if m is not None:
                    return True, frozenset([("fn", f"{k}.{n}", True)]), None, None
            if self.closed_class(q):
                a = set()
                for k in self.ix.mro(q)[1:]:
                    a |= self.instance_attrs(k) or {n}
                # another class may come between in some subclass
                for k in self.subclasses(q):
                    mro = self.ix.mro(k)
                    for y in mro[mro.index(q) + 1:]:
                        a |= self.instance_attrs(y) or {n}
                if n not in a:
                    return False, None, RULE_ATTR, f"no base of {q.rpartition('.')[2]} has `{n}`"
            return True, None, None, None
        if not self.closed_class(q):
            return True, None, None, None
        a = self.instance_attrs(q)
        if a is None:
            return True, None, None, None
        extra = self.set_elsewhere()
        if kind == "inst":
            if n not in a and n not in extra:
                return False, None, RULE_ATTR, f"a {q.rpartition('.')[2]} object has no attribute `{n}`"
            m = self.ix.find_method(q, n)
            if m is not None:
                decs = [d.id for d in m[1].decorator_list if isinstance(d, ast.Name)]
                if "property" in decs or self.set_on_self(q, n) or n in extra:
                    return True, None, None, None
                return True, frozenset([("fn", m[0], "staticmethod" not in decs)]), None, None
            return True, None, None, None
        m = self.ix.find_method(q, n)
        if m is not None:
            decs = [d.id for d in m[1].decorator_list if isinstance(d, ast.Name)]
            return True, frozenset([("fn", m[0], "classmethod" in decs)]) if "property" not in decs else None, None, None
        if n not in a and n not in extra:
            return False, None, RULE_ATTR, f"class {q.rpartition('.')[2]} has no attribute `{n}`"
        return True, None, None, None

    def reached_by(self, q, name):
        """Classes whose objects run the method `name` that class q defines."""
        out = []
        for k in sorted(self.subclasses(q)):
            mro = self.ix.mro(k)
            for y in mro:
                m = self.own_method(y, name)
                if y == q:
                    out.append(k)
                    break
                if m is not None and not any(
                        isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super"
                        or isinstance(x, ast.Attribute) and x.attr == name for x in ast.walk(m)):
                    break
        return out

    def self_attr(self, q, name, n):
        if n.startswith("__") and n.endswith("__"):
            return True, None, None, None
        ks = self.reached_by(q, name) or [q]
        leaves = [k for k in ks if self.subclasses(k) <= {k}] or ks
        extra = self.set_elsewhere()
        lacks = []
        for k in leaves:
            a = self.instance_attrs(k)
            if a is None or n in a or n in extra or not self.closed_class(k):
                continue
            lacks.append(k)
        if lacks:
            return False, None, RULE_ATTR, f"a {lacks[0].rpartition('.')[2]} object has no attribute `{n}`"
        ms, bound = [], True
        for k in ks:
            m = self.ix.find_method(k, n)
            if m is None:
                continue
            decs = [d.id for d in m[1].decorator_list if isinstance(d, ast.Name)]
            if "property" in decs or self.set_on_self(k, n) or n in extra:
                return True, None, None, None
            bound = "staticmethod" not in decs
            if "abstractmethod" in decs and len(ks) > 1:
                continue
            if m[0] not in ms:
                ms.append(m[0])
        return True, frozenset([("self", tuple(ms), bound)]) if ms else None, None, None

    def own_method(self, k, n):
        node, _ = self.ix.cls(k)
        for s in node.body if node is not None else ():
            if isinstance(s, ast.FunctionDef) and s.name == n:
                return s
        return None

    def set_on_self(self, q, n):
        for k in self.ix.mro(q):
            node, _ = self.ix.cls(k)
            for x in ast.walk(node) if node is not None else ():
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == n:
                    return True
                if isinstance(x, ast.Assign) and any(n == y for t in x.targets for y in targets(t)) and x in node.body:
                    return True
        return False

    def set_elsewhere(self):
        """Attributes set on something that is not self."""
        if getattr(self, "_else", None) is None:
            out = set()
            for m in self.ix.modules.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (
                            isinstance(x.value, ast.Name) and x.value.id == "self"):
                        out.add(x.attr)
            self._else = out
        return self._else

    def package_attrs(self):
        """Every attribute name some object of the package can have."""
        if self._attrs is None:
            out = set(self.set_elsewhere())
            for m in self.ix.modules.values():
                out |= self.module_names(m.name)
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.ClassDef):
                        out |= assigned(x.body) | {s.name for s in x.body if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
                    elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        out.add(x.attr)
                    elif isinstance(x, ast.Call):
                        nm = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")
                        if nm == "add_argument":
                            for a in x.args:
                                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                                    out.add(a.value.lstrip("-").replace("-", "_"))
                        if nm in ("namedtuple", "Namespace", "SimpleNamespace", "setattr"):
                            for y in ast.walk(x):
                                if isinstance(y, ast.Constant) and isinstance(y.value, str):
                                    out |= set(y.value.replace(",", " ").split())
                                if isinstance(y, ast.keyword) and y.arg:
                                    out.add(y.arg)
                    if isinstance(x, ast.keyword) and x.arg == "dest" and isinstance(x.value, ast.Constant):
                        out.add(x.value.value)
            for m in library.table().values():
                out |= set(m or ())
            self._attrs = out
        return self._attrs

    # -- walks
    def function(self, mod, node, q, cls=None, outer=(), quiet=()):
        self.f.count("functions")
        w = Walker(self, mod, node, q, cls, outer)
        w.quiet = list(quiet)
        ps = params(node)
        tested = w.narrowed(node)
        for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            a = x.annotation
            if a is None or x.arg in tested:
                continue
            names = {y.attr if isinstance(y, ast.Attribute) else y.id for y in ast.walk(a)
                     if isinstance(y, (ast.Attribute, ast.Name))}
            if "ndarray" in names:
                w.env[x.arg] = frozenset([("ann", "numpy.ndarray")])
        if cls is not None and not outer and node.args.args and not any(
                isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list):
            me = node.args.args[0].arg
            if any(isinstance(d, ast.Name) and d.id == "classmethod" for d in node.decorator_list):
                w.env[me] = None
            else:
                w.env[me] = frozenset([("me", cls, node.name)])
        w.body(node.body, set(ps))

    def run(self):
        for name, m in sorted(self.ix.modules.items()):
            if m.cinfo is not None or name.startswith("spec."):
                continue
            w = Walker(self, name, m.tree, name)
            w.body(m.tree.body, set())
            for s in own(m.tree):
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.function(name, s, f"{name.split('.', 1)[1]}.{s.name}" if "." in name else s.name)
                elif isinstance(s, ast.ClassDef):
                    self.klass(name, s, f"{name}.{s.name}")

    def klass(self, name, s, q):
        cw = Walker(self, name, s, q.split(".", 1)[1])
        have = set()
        for b in s.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in b.decorator_list + b.args.defaults + [d for d in b.args.kw_defaults if d is not None]:
                    cw.ex(d, None)
                self.function(name, b, f"{q.split('.', 1)[1]}.{b.name}", q)
            elif not isinstance(b, ast.ClassDef):
                cw.st(b, have)


class All:
    def __contains__(self, x):
        return True

    def __bool__(self):
        return True

    def __iter__(self):
        return iter(())


class Order:
    """Runs the imports of the package in the order Python would, from one module on."""
    def __init__(self, w):
        self.w, self.ix = w, w.ix
        self.names, self.done = {}, set()

    def load(self, m):
        if m in self.names or m not in self.ix.modules:
            return
        if "." in m:
            self.load(m.rpartition(".")[0])
        if m in self.names:
            return
        mod = self.ix.modules[m]
        self.names[m] = set(mod.defs) if mod.cinfo is not None else set()
        if mod.cinfo is None:
            self.body(mod, mod.tree.body, False)
        self.done.add(m)
        if "." in m and m.rpartition(".")[0] in self.names:
            self.names[m.rpartition(".")[0]].add(m.rpartition(".")[2])

    def body(self, mod, stmts, tried):
        have = self.names[mod.name]
        for s in stmts:
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.load(a.name)
                    have.add(a.asname or a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = mod._abs(s)
                self.load(base)
                for a in s.names:
                    if base in self.ix.modules and a.name != "*":
                        self.w.f.count("import steps")
                        if a.name not in self.names[base]:
                            self.load(f"{base}.{a.name}")
                        if a.name not in self.names[base] and f"{base}.{a.name}" not in self.names and (
                                base not in self.done) and not tried and not self.w.globals_set(base) and not any(
                                isinstance(x, ast.ImportFrom) and x.names[0].name == "*"
                                for x in self.ix.modules[base].tree.body):
                            self.w.f.bad(mod.rel, s.lineno, RULE_IMPORT,
                                         f"{short(mod.name)}: `{a.name}` is imported from `{base}` while that module "
                                         f"is still being imported and has not defined it")
                    have.add(a.asname or a.name)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                have.add(s.name)
            elif isinstance(s, ast.If):
                t = ast.dump(s.test)
                if "__name__" in t or "TYPE_CHECKING" in t:
                    continue
                self.body(mod, s.body, tried)
                self.body(mod, s.orelse, tried)
            elif isinstance(s, ast.Try):
                self.body(mod, s.body, True)
                for h in s.handlers:
                    self.body(mod, h.body, tried)
                self.body(mod, s.orelse, tried)
                self.body(mod, s.finalbody, tried)
            elif isinstance(s, (ast.For, ast.While, ast.With)):
                have |= assigned([s])
                self.body(mod, s.body, tried)
            else:
                have |= assigned([s])


class watching:
    """Records the calls that cannot succeed on the paths an interpretation takes."""
    def __init__(self, f):
        self.f = f

    def __enter__(self):
        self.keep = Interp.event
        f, keep = self.f, self.keep

        def event(I, kind, name, args, st, node, value=None, full=None):
            e = keep(I, kind, name, args, st, node, value, full)
            if e is not None:
                f.count("calls interpreted", kind in ("enter", "call", "ext"))
                if kind in ("badcall", "noattr", "unbound", "keyerror") and e.guard is not FALSE and not e.file.startswith("<"):
                    if kind == "unbound":
                        f.bad(e.file, e.line, RULE_NAME, f"{short(e.fn)}: nothing has set `{name}`")
                    elif kind == "keyerror":
                        if caught(I.ix, e.file, e.line):
                            return e
                        f.bad(e.file, e.line, RULE_KEY, f"{short(e.fn)}: the dictionary has no entry {pretty(args['key'])}")
                    elif kind == "badcall":
                        f.bad(e.file, e.line, RULE_CALL, f"{short(e.fn)}: {short(str(name))}: {args['why']}")
                    else:
                        f.bad(e.file, e.line, RULE_ATTR, f"{short(e.fn)}: object of {short(str(args['cls'].a[0]))} "
                                                         f"has no attribute `{name}`")
            return e
        load = self.load = Interp.load_name

        def load_name(I, name, st, node):
            v = load(I, name, st, node)
            if not I.mute and v.op in ("ite", "undef") and name in st.env and st.pc is not FALSE:
                f.count("names read on conditional paths")
                rel, line = I.where(node)
                for path in unset(v):
                    if not rel.startswith("<") and may_meet(and_(I.guard(), st.pc), and_(*path)):
                        f.bad(rel, line, RULE_NAME, f"{short(I.frames[-1].qual)}: nothing has set `{name}` when " +
                              " and ".join(sorted(short_text(x) for x in path)))
            return v
        Interp.event = event
        Interp.load_name = load_name
        return self

    def __exit__(self, *a):
        Interp.event = self.keep
        Interp.load_name = self.load


def caught(ix, rel, line):
    """Is a missing key expected there?"""
    names = {"KeyError", "LookupError", "Exception", "BaseException"}
    for m in ix.modules.values():
        if m.rel == rel:
            for t in ast.walk(m.tree):
                if isinstance(t, ast.Try) and t.body[0].lineno <= line <= t.body[-1].end_lineno and any(
                        h.type is None or names & {getattr(x, "id", "") for x in ast.walk(h.type)} for h in t.handlers):
                    return True
    return False


def short_text(x):
    t = str(x)
    return t if len(t) < 80 else t[:77] + "..."


def unset(v):
    """The conditions under which a value is missing."""
    out, todo = [], [(v, ())]
    while todo and len(out) < 8:
        t, path = todo.pop()
        if t.op == "undef" and path:
            out.append(path)
        elif t.op == "ite":
            todo += [(t.a[1], path + (t.a[0],)), (t.a[2], path + (not_(t.a[0]),))]
    return out


def atoms(t, out):
    if t.op in ("and", "or", "not"):
        for x in t.a:
            atoms(x, out)
    elif t.op != "bool":
        out.setdefault(t, None)
    return out


def truth(t, env):
    if t.op == "bool":
        return t.a[0]
    if t.op == "not":
        return not truth(t.a[0], env)
    if t.op == "and":
        return all(truth(x, env) for x in t.a)
    if t.op == "or":
        return any(truth(x, env) for x in t.a)
    return env[t]


def measures(t):
    """A condition on quantities, which another one on the same data may decide."""
    return not (t.op in ("sym", "truth") and (t.op == "sym" or t.a[0].op in ("sym", "attr")) or
                t.op == "cmp" and t.a[0] in ("in", "is") or
                t.op == "cmp" and t.a[0] == "==" and any(x.op in ("str", "bool", "none") for x in t.a[1:]))


def symbols(t, out=None):
    out = set() if out is None else out
    if isinstance(t, type(TRUE)):
        if t.op in ("sym", "param"):
            out.add(t)
        for x in t.a:
            symbols(x, out)
    return out


def lost(t):
    return isinstance(t, type(TRUE)) and (t.op in ("opq", "undef", "carry", "loop", "iter") or any(lost(x) for x in t.a))


def may_meet(guard, path):
    """Can a path be taken on which both conditions hold?  False whenever that is unclear."""
    if guard is FALSE or path is FALSE:
        return False
    g, p = atoms(guard, {}), atoms(path, {})
    if any(lost(x) for x in p):
        return False
    for x in p:
        for y in g:
            if x is not y and measures(x) and measures(y) and symbols(x) & symbols(y):
                return False
    both = sorted({**g, **p}, key=lambda x: x.key)
    if len(both) > 14:
        return False
    for bits in range(1 << len(both)):
        env = {x: bool(bits >> i & 1) for i, x in enumerate(both)}
        if not (truth(guard, env) and truth(path, env)):
            continue
        # one thing cannot equal two constants
        same = {}
        for x, v in env.items():
            if v and x.op == "cmp" and x.a[0] == "==":
                for u, k in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                    if k.op in ("str", "num", "none", "bool"):
                        same.setdefault(u, set()).add(k)
        if all(len(v) < 2 for v in same.values()):
            return True
    return False


def short(q):
    return q.split(".", 1)[1] if q.startswith("pyEdgeEval.") else q


def runs(c):
    """Whole evaluations, commands and conversions: name -> what to interpret."""
    for key in jobs.MULTI:
        for mode in ("pre-seal", "post-seal", None):
            for IS in (False,) if mode == "pre-seal" else (False, True):
                if key in ("reanno",) and IS and mode == "pre-seal":
                    continue
                yield f"{key} {mode or 'custom'} {'IS' if IS else 'nonIS'}", (
                    lambda key=key, mode=mode, IS=IS: jobs.job(c, key, mode=mode, IS=IS))
    yield "BSDS", lambda: jobs.bsds_job(c)
    for fn, wh, semantic, combos in jobs.commands(c):
        for o in combos:
            o = dict(o)
            o["--thresholds"] = const(jobs.THRS)
            if semantic:
                o["--categories"] = const(jobs.CATS)
            o["--output-path"] = jobs.SAVE
            name = fn.split(".")[1] + "".join(" " + k for k, v in o.items() if v is TRUE)
            yield name, lambda fn=fn, o=o: jobs.cli_run(c, fn, o)
    yield "Cityscapes conversion", lambda: convert.city_runs(c)
    yield "half-resolution Cityscapes conversion", lambda: convert.city_runs(c, **{"only-full-scale": TRUE})
    yield "SBD conversion", lambda: convert.sbd_run(c, False)
    yield "reannotated SBD conversion", lambda: convert.sbd_run(c, True)
    yield from edges.entries(c)
    yield from batch.entries(c)
    for path, spec, opq in effects.TABLE:
        yield f"{path}({', '.join(spec)})", lambda path=path, spec=spec, opq=opq: function(c, path, spec, opq)


def function(c, path, spec, opq):
    q = c.ix.need(effects.P + path)[1]
    I = Interp(c.ix, opaque=[c.q(o) for o in opq if c.q(o) != q])
    st = State()
    I.frames.append(Frame("root", "root"))
    a = effects.Args(I, st, spec)
    a.cell = lambda r: st.heap.get(r)
    c.run(effects.P + path, [], a.kw, interp=I, state=st)


def C25(c):
    jobs.spec(c)
    convert.spec(c)
    w = World(c)
    w.run()
    f = w.f
    for m in sorted(w.ix.modules):
        if m.startswith("pyEdgeEval"):
            Order(w).load(m)
    for name, go in runs(c):
        with watching(f):
            try:
                go()
                c.ok(f"{name}: calls on its paths")
            except (Lost, jobs.Lost, convert.Lost, AnalysisError) as e:
                c.undecided(f"{name}: calls on its paths", str(e))
    for (rel, line, text), rule in sorted(f.seen.items()):
        c.violate(text, rel, line, rule, text)
    bad = {rel for rel, _, _ in f.seen}
    for m in sorted(w.ix.modules.values(), key=lambda m: m.name):
        if m.rel not in bad and m.cinfo is None and not m.name.startswith("spec."):
            c.ok(f"{m.rel}: names, attributes, calls")
    return ", ".join(f"{n} {k}" for k, n in sorted(f.n.items()))
