"""Value-graph abstract interpreter for the Python sources of the repository.

It computes, for a function and symbolic arguments, one merged value term per output
(return value, attribute, recorded call argument), by forward dataflow over the syntax
tree: branches are merged with `ite`, loops are summarised in one symbolic iteration
(fold / map / array tabulation / canonical recurrence), calls inside the repository are
inlined, external calls are uninterpreted or normalised by table.  No path enumeration,
no solver, and nothing of the analysed program is executed."""
import ast
import re
import string as _string

from . import terms as X
from . import library, strings
from .terms import (
    T, mk, const, num, NONE, TRUE, FALSE, UNDEF, ZERO, ONE, EMPTY, and_, or_, not_,
    truth, ite, index, length, cat, tostr, join, add, sub, mul, neg, div, cmp_, attr,
    total, astype, mk_dict, dict_items, mk_obj, obj_attrs, bor, band,
)
from .index import AnalysisError

UNROLL = 8
MAXDEPTH = 60

PYBUILTINS = set(
    "abs all any ascii bin bool bytearray bytes callable chr classmethod complex "
    "delattr dict dir divmod enumerate eval exec filter float format frozenset "
    "getattr globals hasattr hash help hex id input int isinstance issubclass iter "
    "len list locals map max memoryview min next object oct open ord pow print "
    "property range repr reversed round set setattr slice sorted staticmethod str "
    "sum super tuple type vars zip Exception ValueError TypeError KeyError IndexError "
    "AssertionError RuntimeError NotImplementedError AttributeError FileNotFoundError "
    "StopIteration OSError IOError ImportError ArithmeticError ZeroDivisionError "
    "OverflowError FileExistsError PermissionError KeyboardInterrupt BaseException "
    "Warning UserWarning DeprecationWarning RuntimeWarning NotImplemented Ellipsis "
    "__name__ __file__ __import__ __debug__ __cast__ __cdecl__".split()
)

DTYPE_CANON = {
    "numpy.bool_": "builtins.bool", "numpy.bool": "builtins.bool",
    "numpy.float64": "builtins.float", "numpy.float_": "builtins.float",
    "numpy.double": "builtins.float", "numpy.int_": "builtins.int",
    "numpy.ubyte": "numpy.uint8",
}
DTYPE_STR = {
    "bool": "builtins.bool", "float64": "builtins.float", "float": "builtins.float",
    "uint8": "numpy.uint8", "uint32": "numpy.uint32", "int32": "numpy.int32",
    "int64": "numpy.int64", "float32": "numpy.float32", "int": "builtins.int",
    "f8": "builtins.float", "u1": "numpy.uint8",
}
EXT_CANON = {
    "os.path.join": "os.path.join", "posixpath.join": "os.path.join",
    "numpy.asanyarray": "numpy.asarray",
    "numpy.absolute": "numpy.abs", "numpy.bitwise_or": "op.|",
    "numpy.logical_or": "op.lor", "numpy.bitwise_and": "op.&",
    "numpy.logical_and": "op.land", "numpy.logical_not": "op.not",
    "numpy.invert": "op.~", "numpy.bitwise_not": "op.~", "numpy.add": "op.+",
    "numpy.subtract": "op.-", "numpy.multiply": "op.*", "numpy.divide": "op./",
    "numpy.true_divide": "op./", "numpy.greater": "op.>",
    "numpy.greater_equal": "op.>=", "numpy.less": "op.<",
    "numpy.less_equal": "op.<=", "numpy.equal": "op.==", "numpy.not_equal": "op.!=",
    "math.sqrt": "numpy.sqrt", "math.hypot": "numpy.hypot",
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
    "scipy.ndimage.morphology.distance_transform_edt":
        "scipy.ndimage.distance_transform_edt",
    "numpy.in1d": "numpy.isin", "math.floor": "numpy.floor",
    "PIL.Image.Image.open": "PIL.Image.open",
    "PIL.Image.NEAREST": "PIL.Image.Resampling.NEAREST",
    "numpy.float": "builtins.float", "operator.itemgetter": "operator.itemgetter",
    "multiprocessing.pool.Pool": "multiprocessing.Pool",
    "numpy.ma.array": "numpy.ma.array", "numpy.pow": "op.**", "numpy.power": "op.**",
    "numpy.mod": "op.%", "numpy.remainder": "op.%", "numpy.negative": "op.neg",
    "numpy.floor_divide": "op.//", "operator.add": "op.+", "operator.mul": "op.*",
    "operator.truediv": "op./", "operator.or_": "op.|", "operator.and_": "op.&",
    "operator.ge": "op.>=", "operator.gt": "op.>", "operator.le": "op.<=",
    "operator.lt": "op.<", "operator.eq": "op.==",
}
# keyword -> position binding of external callables
EXT_SIG = {
    "numpy.linspace": ["start", "stop", "num"],
    "numpy.arange": ["start", "stop", "step"],
    "numpy.interp": ["x", "xp", "fp", "left", "right"],
    "numpy.unique": ["ar", "return_index"],
    "numpy.isin": ["element", "test_elements"],
    "numpy.round": ["a", "decimals"],
    "numpy.clip": ["a", "a_min", "a_max"],
    "numpy.pad": ["array", "pad_width", "mode"],
    "numpy.transpose": ["a", "axes"],
    "numpy.unpackbits": ["a", "axis", "count", "bitorder"],
    "numpy.packbits": ["a", "axis", "bitorder"],
    "numpy.stack": ["arrays", "axis"],
    "numpy.concatenate": ["arrays", "axis"],
    "numpy.full": ["shape", "fill_value", "dtype"],
    "numpy.array": ["object", "dtype"],
    "numpy.frombuffer": ["buffer", "dtype"],
    "numpy.reshape": ["a", "shape"],
    "numpy.sqrt": ["x"],
    "numpy.hypot": ["x1", "x2"],
    "PIL.Image.open": ["fp"],
    "PIL.Image.fromarray": ["obj", "mode"],
    "cv2.distanceTransform": ["src", "distanceType", "maskSize"],
    "scipy.ndimage.distance_transform_edt": ["input"],
    "builtins.open": ["file", "mode"],
    "os.makedirs": ["name", "mode", "exist_ok"],
    "skimage.io.imread": ["fname"],
}
EXT_DEFAULT = {
    ("numpy.arange", "step"): ONE,
    ("numpy.round", "decimals"): ZERO,
    ("builtins.open", "mode"): const("r"),
}
# ndarray methods equivalent to numpy functions of the same name
NDMETH = {
    "sum", "any", "all", "max", "min", "argmax", "argmin", "mean", "round", "clip",
    "transpose", "cumsum", "prod", "squeeze", "ravel", "reshape", "nonzero", "repeat",
    "std", "var",
}
MUTATORS = {
    "append", "extend", "insert", "remove", "sort", "reverse", "clear", "pop", "popitem", "update", "setdefault", "add",
    "discard", "difference_update", "intersection_update", "symmetric_difference_update", "move_to_end", "appendleft",
    "popleft", "fill", "partition", "put", "itemset", "resize", "byteswap", "setfield", "__setitem__", "__delitem__",
    "setflags",
}
STR_METH = {
    "format", "join", "split", "replace", "lower", "upper", "strip", "zfill",
    "startswith", "endswith", "splitlines", "rstrip", "lstrip", "rsplit", "encode",
    "decode", "ljust", "rjust", "removesuffix", "removeprefix",
}


class State:
    __slots__ = ("env", "heap", "pc")

    def __init__(self, env=None, heap=None, pc=TRUE):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc)


class Frame:
    def __init__(self, qual, module, cls=None):
        self.qual = qual
        self.module = module
        self.cls = cls
        self.exits = []  # (kind, guard, value, state)
        self.loop_exits = []  # stack of lists
        self.globals = set()
        self.outer_env = None
        self.base_pc = TRUE
        self.loop_pcs = []


class Event:
    __slots__ = ("kind", "name", "args", "guard", "loops", "file", "line", "fn", "node",
                 "value", "full")

    def __repr__(self):
        return f"<{self.kind} {self.name} @{self.file}:{self.line}>"


class Interp:
    def __init__(self, index_, opaque=(), pure_opaque=(), unroll=UNROLL):
        self.ix = index_
        self.stand_ins = {}
        self.opaque = set()
        for q in opaque:
            self.opaque.add(q)
        self.events = []
        self.mute = 0
        self.frames = []
        self.nref = 0
        self.shared = set()
        self.niv = 0
        self.closures = {}
        self.stops = {}
        self.initial = {}
        self.bare = set()  # decorated functions whose next call is the undecorated one
        self.caching = set()
        self.made = {}  # constructors of dataclasses
        self.pending = []  # results of a pool nobody has waited for
        self.started = {}  # events of a pool's initializer
        self.lasting = set()  # results of cached functions
        self.mu_init = {}  # what a loop-carried variable holds before and after an iteration
        self.loopctx = []  # (iv number, dom)
        self.callstack = []
        self.unroll = unroll
        self.inlined = set()
        self.unknown = []
        self.outer_guard = [TRUE]
        self.modcache = {}
        self.nexc = 0
        self.convs = []
        self.cli = {}       # option -> value given on the command line
        self.cli_opts = {}  # option -> (dest, kind, default, symbol)
        self.files = {}

    # ------------------------------------------------------------ bookkeeping
    def where(self, node):
        return (getattr(node, "_sa_file", "?"), getattr(node, "lineno", 0))

    def event(self, kind, name, args, st, node, value=None, full=None):
        if self.mute:
            return None
        e = Event()
        e.kind, e.name, e.args = kind, name, args
        e.guard = and_(self.guard(), st.pc)
        e.loops = list(self.loopctx)
        e.file, e.line = self.where(node)
        e.fn = self.frames[-1].qual if self.frames else "?"
        e.node = node
        e.value = value
        e.full = full
        self.events.append(e)
        return e

    def guard(self):
        return self.outer_guard[-1]

    def new_ref(self, st, content, kind):
        self.nref += 1
        r = mk("ref", self.nref, kind)
        st.heap[r] = content
        return r

    # ------------------------------------------------------------ heap access
    def cell(self, st, t):
        """Content of a value (dereference, one level)."""
        t = self.alias(st, t)
        if t.op == "ref":
            c = st.heap.get(t)
            if c is None:
                c = self.initial.get(t)
            if c is None:
                return mk("lost", t)
            return c
        if t.op == "ite" and t.refs:
            return ite(t.a[0], self.cell(st, t.a[1]), self.cell(st, t.a[2]))
        return t

    def alias(self, st, t):
        while t.op not in ("num", "str", "bool", "none"):
            r = st.heap.get(("alias", t))
            if r is None:
                return t
            t = r
        return t

    def deep(self, st, t, seen=(), keep_files=True):
        """Resolve every heap reference in a term to its current content."""
        has_alias = any(isinstance(k, tuple) and k[0] == "alias" for k in st.heap)
        memo = {}

        def go(x, stack):
            if not x.refs and not has_alias:
                return x
            k = x
            if k in memo:
                return memo[k]
            y = self.alias(st, x) if has_alias else x
            if y is not x and y in stack:
                y = x  # the original value, inside the content that replaced it
            if y.op == "ref":
                if y in stack:
                    return mk("cycle")
                c = st.heap.get(y, self.initial.get(y))
                if y.a[1] == "file" and y in self.files and keep_files:
                    c = mk("file", self.files[y][0], const(self.files[y][1]))
                r = go(c, stack + (y,)) if c is not None else mk("lost", y)
            elif y.op in ("fn", "cls", "ext", "mod", "num", "str", "closure"):
                r = y
            else:
                ch = False
                na = []
                for a in y.a:
                    if isinstance(a, T):
                        b = go(a, stack)
                        ch = ch or b is not a
                        na.append(b)
                    else:
                        na.append(a)
                r = X.rebuild(y.op, na) if ch else y
            if not stack:
                memo[k] = r
            return r

        return go(t, tuple(seen))

    def resolve_new(self, st, t, minid):
        """Replace references allocated after minid by their content."""
        def go(x, stack):
            if not x.refs:
                return x
            if x.op == "ref":
                if x.a[0] <= minid or x in stack:
                    return x
                c = st.heap.get(x)
                return go(c, stack + (x,)) if c is not None else x
            if x.op in ("closure",):
                return x
            na = []
            ch = False
            for a in x.a:
                if isinstance(a, T):
                    b = go(a, stack)
                    ch = ch or b is not a
                    na.append(b)
                else:
                    na.append(a)
            return X.rebuild(x.op, na) if ch else x
        return go(t, ())

    # ------------------------------------------------------------ merging
    def merge(self, c, s1, s2):
        """State that is s1 where c holds and s2 elsewhere."""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        if c is TRUE:
            return s1
        if c is FALSE:
            return s2
        env = {}
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k), s2.env.get(k)
            if a is None:
                a = UNDEF
            if b is None:
                b = UNDEF
            if a is UNDEF and b is not UNDEF and False:
                env[k] = b
            else:
                env[k] = a if a is b else ite(c, a, b)
        heap = {}
        h1, h2 = s1.heap, s2.heap
        keys = set(h1) | set(h2)
        for k in keys:
            if isinstance(k, tuple) and k[0] == "rebind":
                a, b = h1.get(k), h2.get(k)
                if a is not None and b is not None and a is not b:
                    # both mutated: unify on a
                    heap[k] = a
                    ca = h1[a]
                    cb = h2[b]
                    heap[a] = ca if ca is cb else ite(c, ca, cb)
                    heap.setdefault(b, cb)
                elif a is None or b is None:
                    r = a or b
                    heap[k] = r
                    ca = h1.get(r, k[1])
                    cb = h2.get(r, k[1])
                    heap[r] = ca if ca is cb else ite(c, ca, cb)
                else:
                    heap[k] = a
        for k in keys:
            if k in heap:
                continue
            a, b = h1.get(k), h2.get(k)
            if a is None or b is None:
                ini = self.initial.get(k)
                if ini is not None:
                    a = ini if a is None else a
                    b = ini if b is None else b
                else:
                    heap[k] = a if b is None else b
                    continue
            heap[k] = a if a is b else self.merge_cell(c, a, b, s1, s2)
        pc = s1.pc if s1.pc is s2.pc else or_(s1.pc, s2.pc)
        return State(env, heap, pc)

    def merge_cell(self, c, a, b, s1, s2):
        if a.op == "obj" and b.op == "obj" and a.a[0] is b.a[0]:
            da, db = obj_attrs(a), obj_attrs(b)
            out = {}
            for k in sorted(set(da) | set(db)):
                va, vb = da.get(k), db.get(k)
                if va is None:
                    va = self.class_attr_or(a.a[0], k, s1)
                if vb is None:
                    vb = self.class_attr_or(b.a[0], k, s2)
                out[k] = va if va is vb else ite(c, va, vb)
            return mk_obj(a.a[0], out)
        # stores at the same place merge pointwise
        if a.op == "dstore" and b.op == "dstore" and a.a[0] is b.a[0] and a.a[1] is b.a[1]:
            return mk("dstore", a.a[0], a.a[1], ite(c, a.a[2], b.a[2]))
        if a.op == "store" and b.op == "store" and a.a[0] is b.a[0] and a.a[1] is b.a[1]:
            return mk("store", a.a[0], a.a[1], ite(c, a.a[2], b.a[2]))
        if a.op == "store" and a.a[0] is b:
            return mk("store", b, a.a[1], ite(c, a.a[2], index(b, a.a[1])))
        if b.op == "store" and b.a[0] is a:
            return mk("store", a, b.a[1], ite(c, index(a, b.a[1]), b.a[2]))
        if a.op == "store" and b.op == "store":
            # chains over the same base writing the same places
            sa, ba = self.chain(a)
            sb, bb = self.chain(b)
            if ba is bb and set(sa) == set(sb):
                r = ba
                for k in sorted(sa):
                    r = mk("store", r, k, ite(c, sa[k], sb[k]))
                return r
        return ite(c, a, b)

    def chain(self, t):
        d = {}
        while t.op == "store":
            d.setdefault(t.a[1], t.a[2])
            t = t.a[0]
        return d, t

    def class_attr_or(self, cls, k, st):
        try:
            r = self.class_attr(cls.a[0], k, st)
        except AnalysisError:
            r = None
        return r if r is not None else UNDEF

    # ------------------------------------------------------------ statements
    def exec_block(self, body, st):
        for s in body:
            if st is None:
                return None
            if st.pc is FALSE:
                return None
            st = self.exec_stmt(s, st)
        return st

    def exec_stmt(self, s, st):
        X.CUR_LOC[0] = self.where(s)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise NotImplementedError(f"statement {type(s).__name__} at {self.where(s)}")
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st)
        return self.after(st)

    def after(self, st):
        """Raise exits inside expressions mark the state dead by pc FALSE."""
        return None if st.pc is FALSE else st

    def s_Pass(self, s, st):
        return st

    def s_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            tgt = a.name if a.asname else a.name.split(".")[0]
            st.env[nm] = (
                mk("mod", tgt) if tgt in self.ix.modules else mk("ext", tgt)
            )
        return st

    def s_ImportFrom(self, s, st):
        mod = self.ix.modules.get(self.frames[-1].module)
        base = mod._abs(s) if mod else s.module
        for a in s.names:
            if base in self.ix.modules:
                st.env[a.asname or a.name] = self.global_value(base, a.name, st, s)
            else:
                st.env[a.asname or a.name] = self.ext(f"{base}.{a.name}")
        return st

    def s_Global(self, s, st):
        self.frames[-1].globals.update(s.names)
        return st

    def s_Nonlocal(self, s, st):
        return st

    def s_FunctionDef(self, s, st):
        f = self.closure(s, st)
        for d in reversed(self.decorators(s)[1]):
            f = self.call(self.ev(d, st), [f], {}, st, d)
        st.env[s.name] = f
        return st

    def closure(self, node, st):
        cid = len(self.closures)
        self.closures[cid] = (node, dict(st.env), self.frames[-1].module,
                              self.frames[-1].cls)
        return mk("closure", cid)

    def s_ClassDef(self, s, st):
        st.env[s.name] = mk("opq", f"class {s.name}")
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return self.after(st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return self.after(st)

    def s_AugAssign(self, s, st):
        op = type(s.op).__name__
        t = s.target
        rhs = self.ev(s.value, st)
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, st, t)
            if cur.op == "ref" and cur.a[1] == "array":
                old = self.cell(st, cur)
                st.heap[cur] = self.binop(op, old, self.deref(st, rhs), st, s)
                self.event("inplace", "aug", dict(target=cur), st, s)
            elif cur.op == "ref" and cur.a[1] == "list" and op == "Add":
                st.heap[cur] = self.concat(self.cell(st, cur), self.iter_list(st, rhs))
            else:
                self.event("inplace", "augname", dict(target=cur), st, s)
                v = self.binop(op, cur, rhs, st, s)
                self.assign(t, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            i = self.ev_index(t.slice, st)
            cur = self.getitem(o, i, st, t)
            self.setitem(o, i, self.binop(op, cur, rhs, st, s), st, t)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr_(o, t.attr, st, t)
            if cur.op == "ref" and cur.a[1] == "list" and op == "Add":
                st.heap[cur] = self.concat(self.cell(st, cur), self.iter_list(st, rhs))
            else:
                self.setattr_(o, t.attr, self.binop(op, cur, rhs, st, s), st, t)
        return self.after(st)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                i = self.ev_index(t.slice, st)
                self.method_pop(o, [i, NONE], st, t)
        return st

    def s_Assert(self, s, st):
        c = truth(self.ev(s.test, st))
        if st.pc is FALSE:
            return None
        self.event("assert", "assert", dict(cond=c), st, s)
        st.pc = and_(st.pc, c)
        return self.after(st)

    def s_Raise(self, s, st):
        v = self.ev(s.exc, st) if s.exc is not None else mk("opq", "reraise")
        self.event("raise", "raise", dict(exc=self.deep(st, v)), st, s)
        self.frames[-1].exits.append(("raise", st.pc, v, st))
        return None

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if st.pc is FALSE:
            return None
        self.frames[-1].exits.append(("return", self.local_pc(st), v, st))
        return None

    def local_pc(self, st):
        """Path condition of the state relative to the function's entry."""
        g = st.pc
        for p in self.frames[-1].loop_pcs:
            g = and_(g, p)
        return g

    def s_Break(self, s, st):
        fr = self.frames[-1]
        if fr.loop_exits:
            fr.loop_exits[-1].append(("break", st.pc, None, st))
        return None

    def s_Continue(self, s, st):
        fr = self.frames[-1]
        if fr.loop_exits:
            fr.loop_exits[-1].append(("continue", st.pc, None, st))
        return None

    def s_If(self, s, st):
        c = truth(self.ev(s.test, st))
        if st.pc is FALSE:
            return None
        c = self.under(c, and_(self.guard(), st.pc))
        if c is TRUE:
            return self.exec_block(s.body, st)
        if c is FALSE:
            return self.exec_block(s.orelse, st)
        base = st.pc
        s1 = st.copy()
        s1.pc = and_(base, c)
        s2 = st
        s2.pc = and_(base, not_(c))
        # (a pc that cannot be merged syntactically is still exact)
        r1 = self.exec_block(s.body, s1)
        r2 = self.exec_block(s.orelse, s2)
        if r1 is not None and r2 is not None:
            r = self.merge(c, r1, r2)
            if r1.pc is and_(base, c) and r2.pc is and_(base, not_(c)):
                r.pc = base
            return r
        return r1 if r1 is not None else r2

    def under(self, c, facts):
        """Simplify a boolean term under conjunctive facts."""
        fs = set(facts.a) if facts.op == "and" else {facts}
        if facts is TRUE or c.op == "bool":
            return c

        def go(x):
            if x in fs:
                return TRUE
            n = not_(x)
            if n in fs:
                return FALSE
            if x.op == "and":
                return and_(*[go(y) for y in x.a])
            if x.op == "or":
                return or_(*[go(y) for y in x.a])
            if x.op == "not":
                return not_(go(x.a[0]))
            return x

        return go(c)

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.exec_block(s.body, st)

    def s_Try(self, s, st):
        base = st.copy()
        fr = self.frames[-1]
        n0 = len(fr.exits)
        nconv = len(self.convs)
        r = self.exec_block(s.body, st)
        convs = [v for v, lo in self.convs[nconv:] if lo == len(self.loopctx)]
        if convs and any(h.type is None or ast.unparse(h.type) in CATCHES for h in s.handlers):
            fine = not_(raises(convs))  # the body returns only when its conversions succeed
            if fine is not TRUE:
                rets = [e for e in fr.exits[n0:] if e[0] == "return" and and_(e[1], fine) is not FALSE]
                fr.exits[n0:] = [e for e in fr.exits[n0:] if e[0] != "return"] + [
                    (e[0], and_(e[1], fine)) + tuple(e[2:]) for e in rets]
        # explicit raises in the body reach the handlers
        raised = [e for e in fr.exits[n0:] if e[0] == "raise"]
        if s.handlers:
            fr.exits[n0:] = [e for e in fr.exits[n0:] if e[0] != "raise"]
        outs = []
        for h in s.handlers:
            hs = base.copy()
            self.nexc += 1
            typ = ast.unparse(h.type) if h.type is not None else "BaseException"
            if convs and typ in CATCHES:
                c = raises(convs)  # a text that is no number
            else:
                c = mk("exc", typ, self.nexc, len(outs))
            hs.pc = and_(hs.pc, c)
            if h.name:
                hs.env[h.name] = mk("opq", "exception")
            o = self.exec_block(h.body, hs)
            outs.append((c, o))
        if r is not None and s.orelse:
            r = self.exec_block(s.orelse, r)
        for c, o in outs:
            if o is not None:
                if r is None:
                    r = o
                else:
                    # what the body asserted need not hold after the handler
                    r = self.merge(c, o, r)
                    r.pc = base.pc
            elif c is TRUE:
                r = None  # the handler always runs and does not fall through
            elif r is not None and c.op == "raises":
                r.pc = and_(r.pc, not_(c))
        if s.finalbody and r is not None:
            r = self.exec_block(s.finalbody, r)
        return r

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            if t.id in self.frames[-1].globals:
                k = ("glob", self.frames[-1].module, t.id)
                if k not in self.initial:
                    self.global_value(self.frames[-1].module, t.id, st, t)
                st.heap[k] = v
                self.event("globalwrite", t.id, dict(value=v), st, t)
            else:
                st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            c = self.cell(st, v)
            for k, e in enumerate(t.elts):
                if star and k == star[0]:
                    rest = mk("slice", num(k), num(k - n + 1) if k - n + 1 else NONE, NONE)
                    self.assign(e.value, self.getitem(v, rest, st, t), st)
                elif star and k > star[0]:
                    self.assign(e, self.getitem(v, num(k - n), st, t), st)
                else:
                    if c.op == "call" and c.a[0].op == "ext" or c.op == "method":
                        self.assign(e, self.getitem(v, num(k), st, t), st)
                    else:
                        self.assign(e, self.getitem(v, num(k), st, t), st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            i = self.ev_index(t.slice, st)
            self.setitem(o, i, v, st, t)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr_(o, t.attr, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def setattr_(self, o, name, v, st, node):
        o = self.alias(st, o)
        if o.op == "ref":
            c = st.heap[o]
            if c.op == "obj":
                d = obj_attrs(c)
                d[name] = v
                st.heap[o] = mk_obj(c.a[0], d)
                return
            if o.a[1] == "ns" and c.op == "dict":
                items = [(k, x) for k, x in X.dict_items(c) if k is not const(name)]
                st.heap[o] = mk_dict(items + [(const(name), v)])
                return
        if o.op == "cls":
            st.heap[("clsattr", o, name)] = v
            self.event("classwrite", name, dict(cls=o, value=v), st, node)
            return
        if o.op == "ite" and o.refs:
            for br, c in ((o.a[1], o.a[0]), (o.a[2], not_(o.a[0]))):
                if br.op == "ref":
                    old = self.getattr_(br, name, st, node)
                    self.setattr_(br, name, ite(c, v, old), st, node)
            return
        self.event("setattr", name, dict(obj=self.deep(st, o), value=self.deep(st, v)), st, node)

    def setitem(self, o, i, v, st, node):
        o = self.alias(st, o)
        if o.op == "cview" and o.a[0].op == "cdata":
            r = o.a[0].a[0]
            c = st.heap.get(r)
            v = self.deep(st, v)
            while v.op == "index" and all_of_it(v.a[1]):
                v = v.a[0]
            self.event("setitem", "native", dict(target=r, index=i, value=v), st, node)
            if all_of_it(norm_index(i)):
                st.heap[r] = mk("cmatrix", c.a[0], c.a[1], mk("laid", o.a[2], o.a[1], v))
            else:
                st.heap[r] = mk("cmatrix", c.a[0], c.a[1], mk("opq", "partly written"))
            return
        if o.op == "ite" and o.refs:
            full = None
            if o.a[1].op != "ref" or o.a[2].op != "ref":
                # partly an untracked value: give the whole an identity
                full = self.deep(st, o)
                i, v = self.deref(st, i), self.deref(st, v)
            for br, c in ((o.a[1], o.a[0]), (o.a[2], not_(o.a[0]))):
                if br.op == "ref":
                    old = self.getitem(br, i, st, node)
                    self.setitem(br, i, ite(c, v, old), st, node)
                else:
                    self.event("mutate", "setitem", dict(target=ite(c, br, NONE)), st, node)
            if full is not None:
                r = self.identify(st, o, "array")
                st.heap[r] = self.store(full, i, v)
            return
        if o.op == "ref":
            kind = o.a[1]
            c = st.heap.get(o)
            if c is None:
                c = self.initial.get(o)
            if kind == "view":
                # view of another array: write through
                base, idx = c.a
                self.event("setitem", "view", dict(target=base), st, node)
                self.setitem(base, self.compose(idx, i), v, st, node)
                return
            i = self.deref(st, i)
            if kind == "dict":
                i = self.deep(st, i)
                if c.op == "dict" and X.is_const(i) and all(
                    X.is_const(k) for k, _ in dict_items(c)
                ):
                    d = dict(dict_items(c))
                    d[i] = v
                    st.heap[o] = mk_dict(d.items())
                elif c.op == "dict" and any(k is i for k, _ in dict_items(c)):
                    d = dict(dict_items(c))
                    d[i] = v
                    st.heap[o] = mk_dict(d.items())
                else:
                    st.heap[o] = mk("dstore", c, i, v)
                return
            if kind == "list":
                if c.op == "list" and i.op == "num" and isinstance(i.a[0], int) and -len(c.a) <= i.a[0] < len(c.a):
                    e = list(c.a)
                    e[i.a[0]] = v
                    st.heap[o] = mk("list", *e)
                else:
                    st.heap[o] = mk("store", c, i, v)
                return
            if kind == "array":
                self.event("setitem", "array", dict(target=o, index=i, value=v), st, node)
                st.heap[o] = self.store(c, i, self.deref(st, v))
                return
            if kind == "obj":
                return self.method_call(o, "__setitem__", [i, v], {}, st, node)
            st.heap[o] = mk("store", c, i, v)
            return
        # in-place write to a value that is not a tracked allocation: give it identity
        self.event("setitem", "value", dict(target=self.deep(st, o), index=self.deep(st, i),
                                            value=self.deep(st, v)), st, node)
        i, v = self.deref(st, i), self.deref(st, v)
        r = self.identify(st, o, "array")
        st.heap[r] = self.store(o, i, v)

    def identify(self, st, o, kind):
        """Give the value o an identity: everything that holds it now holds the new reference."""
        r = self.new_ref(st, o, kind)
        if X.is_const(o):
            return r
        self.rebind(st, o, r)
        st.heap[("rebind", o)] = r
        return r

    def rebind(self, st, o, r):
        def sub(v):
            if v is o:
                return r
            if v.op in ("tuple", "list", "dict", "obj", "kw") and any(c is o for c in v.a):
                return mk(v.op, *[r if c is o else c for c in v.a])
            return v
        for k, v in list(st.env.items()):
            if isinstance(v, T):
                st.env[k] = sub(v)
        for k, v in list(st.heap.items()):
            if isinstance(v, T) and v.op in ("tuple", "list", "dict", "obj") and k is not r:
                st.heap[k] = sub(v)

    def compose(self, idx, i):
        return mk("tuple", *(list(idx.a) if idx.op == "tuple" else [idx]),
                  *(list(i.a) if i.op == "tuple" else [i]))

    def store(self, base, i, v):
        i = norm_index(i)
        if i.op == "call" and i.a[0].op == "ext" and i.a[0].a[0] in ("numpy.where", "numpy.nonzero") \
                and len(i.a[1].a) == 1 and not i.a[2].a and X.boolish(i.a[1].a[0]):
            i = i.a[1].a[0]  # x[np.where(mask)] = v
        if i.op == "slice" and all(x.op == "none" for x in i.a) or i.op == "ellipsis":
            # x[:] = v  keeps the shape, takes the value
            if X.is_const(v):
                return mk("store", base, i, v)
            return mk("store", base, i, v) if not shape_like(base, v) else v
        if i.op in ("cmp", "not", "and", "or") or i.op == "sym" and i.a[1] == "barray":
            # masked assignment
            return X.sel(i, v, base)
        if base.op == "store" and base.a[1] is i:
            return self.store(base.a[0], i, v)
        # order-independent: constant distinct places sort
        if base.op == "store" and distinct(base.a[1], i) and i.key < base.a[1].key:
            return mk("store", self.store(base.a[0], i, v), base.a[1], base.a[2])
        return mk("store", base, i, v)

    # ------------------------------------------------------------ loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        if st.pc is FALSE:
            return None
        v = self.alias(st, it)
        if v.op == "ref":
            v = self.cell(st, v)
        if v.op == "ite" and not s.orelse:
            # one of the two candidates is empty: the loop runs under the other's condition
            g, a, b = v.a
            ca, cb = [self.cell(st, self.alias(st, x)) for x in (a, b)]
            if ca.op in ("list", "tuple") and not ca.a:
                g, a, cb = not_(g), b, ca
            if cb.op in ("list", "tuple") and not cb.a:
                g = self.under(truth(g), and_(self.guard(), st.pc))
                if g is FALSE:
                    return st
                base = st.pc
                s1 = st.copy()
                s1.pc = and_(base, g)
                st.pc = and_(base, not_(g))
                pc1, pc2 = s1.pc, st.pc
                r1 = self.for_over(s, a, s1)
                if r1 is None:
                    return st
                r = self.merge(g, r1, st)
                if r1.pc is pc1 and st.pc is pc2:
                    r.pc = base
                return r
        return self.for_over(s, it, st)

    def for_over(self, s, it, st):
        dom = self.domain(it, st, s.iter, guarded=True)
        if dom.known is not None and len(dom.known) <= (
                self.unroll if dom.n.op == "num" and self.cell(st, self.alias(st, it)).op == "range" else
                512 if all(X.is_const(v) for v in dom.known) else 64):
            return self.unrolled(s, dom, st)
        return self.sym_loop(s, dom, st, s.orelse)

    def unrolled(self, s, dom, st):
        fr = self.frames[-1]
        brk = []
        for e in dom.known:
            if st is None:
                break
            fr.loop_exits.append([])
            self.assign(s.target, e, st)
            pc0 = st.pc
            r = self.exec_block(s.body, st)
            ex = fr.loop_exits.pop()
            conts = [x for x in ex if x[0] == "continue"]
            brk += [x for x in ex if x[0] == "break"]
            st = r
            for k, g, _, sx in reversed(conts):
                if st is None:
                    st = sx
                else:
                    pcs = (sx.pc, st.pc)
                    st = self.merge(self.rel(sx.pc, pc0), sx, st)
                    st.pc = self.joinpc(pcs, pc0, brk)
        if st is not None and s.orelse:
            st = self.exec_block(s.orelse, st)
        for k, g, _, sx in reversed(brk):
            if st is None:
                st = sx
            else:
                pcs = (sx.pc, st.pc)
                st = self.merge(sx.pc, sx, st)
                st.pc = or_(*pcs)
        return st

    def rel(self, pc, base):
        """Conjuncts of pc not already in base."""
        b = set(base.a) if base.op == "and" else {base}
        cs = pc.a if pc.op == "and" else (pc,)
        return and_(*[x for x in cs if x not in b])

    def joinpc(self, pcs, base, brk):
        a, b = self.rel(pcs[0], base), self.rel(pcs[1], base)
        j = or_(a, b)
        return and_(base, j)

    def loc_get(self, st, loc):
        if loc[0] == "v":
            return st.env.get(loc[1], UNDEF)
        return st.heap.get(loc[1], self.initial.get(loc[1], UNDEF))

    def loc_set(self, st, loc, v):
        if loc[0] == "v":
            st.env[loc[1]] = v
        else:
            st.heap[loc[1]] = v

    def diff_locs(self, s0, s1, minref):
        out = []
        for k, v in s1.env.items():
            if s0.env.get(k) is not v:
                out.append(("v", k))
        for k, v in s1.heap.items():
            if isinstance(k, T) and k.op == "ref" and k.a[0] > minref and k not in self.initial:
                continue
            if isinstance(k, tuple) and k[0] in ("alias", "rebind"):
                continue
            old = s0.heap.get(k, self.initial.get(k))
            if old is not None and old is not v or old is None and isinstance(k, tuple):
                if isinstance(k, tuple) and k[0] == "glob" and old is None:
                    continue
                out.append(("h", k))
        return out

    def loop_body(self, s, elem, st, guard=TRUE):
        """One iteration from st; returns (end state or None, has_break, exits)."""
        fr = self.frames[-1]
        fr.loop_exits.append([])
        n0 = len(fr.exits)
        outer_pc = st.pc
        st.pc = TRUE
        fr.loop_pcs.append(outer_pc)
        self.outer_guard.append(and_(self.outer_guard[-1], outer_pc))
        try:
            if elem is not None:
                if guard is not TRUE:
                    skipped = st.copy()
                    skipped.pc = not_(guard)
                    fr.loop_exits[-1].append(("continue", skipped.pc, None, skipped))
                    st.pc = guard
                self.assign(s.target, elem, st)
            r = self.exec_block(s.body, st)
        finally:
            self.outer_guard.pop()
            fr.loop_pcs.pop()
        ex = fr.loop_exits.pop()
        brk = [x for x in ex if x[0] == "break"]
        for k, g, _, sx in reversed([x for x in ex if x[0] == "continue"]):
            if r is None:
                r = sx
            else:
                pcs = (sx.pc, r.pc)
                r = self.merge(sx.pc, sx, r)
                r.pc = or_(*pcs)
        rets = fr.exits[n0:]
        del fr.exits[n0:]
        return r, brk, [x for x in rets if x[0] == "return"], [
            x for x in rets if x[0] != "return"
        ]

    def sym_loop(self, s, dom, st, orelse=()):
        if dom.n is ZERO:
            return self.exec_block(orelse, st) if orelse else st
        self.niv += 1
        ivn = self.niv
        iv = mk("iv", ivn)
        entry = st
        minref = self.nref
        changed = []
        self.loopctx.append((ivn, dom.n))
        iswhile = isinstance(s, ast.While)
        try:
            self.mute += 1
            try:
                for _ in range(12):
                    s0 = entry.copy()
                    for loc in changed:
                        self.loc_set(s0, loc, mk("mu", ivn, str(loc[1]), _lk(loc)))
                    b0 = s0.copy()
                    if iswhile:
                        self.ev(s.test, b0)
                    r, brk, rets, raises = self.loop_body(
                        s, None if iswhile else dom.elem(iv), b0, dom.guard(iv))
                    new = []
                    ends = [x for x in [r] + [b[3] for b in brk] if x is not None]
                    for e in ends:
                        for loc in self.diff_locs(s0, e, minref):
                            if loc not in changed and loc not in new:
                                new.append(loc)
                    if not new:
                        break
                    changed += new
            finally:
                self.mute -= 1
            # loop-carried only if the old value is observable; others are temporaries
            s0 = entry.copy()
            mus = {}
            for loc in changed:
                m = mk("mu", ivn, str(loc[1]), _lk(loc))
                mus[loc] = m
                self.mu_init[m] = [self.loc_get(entry, loc)]
                self.loc_set(s0, loc, m)
            b0 = s0.copy()
            cond = TRUE
            if iswhile:
                cond = truth(self.ev(s.test, b0))
                # counter pattern -> bounded iteration
                rc = self.while_counter(s, cond, mus, entry, minref, ivn)
                if rc is not None:
                    return rc
            r, brk, rets, raises = self.loop_body(
                s, None if iswhile else dom.elem(iv), b0, dom.guard(iv))
        finally:
            self.loopctx.pop()
        fr = self.frames[-1]
        for x in raises:
            fr.exits.append(x)
        out = entry.copy()
        if r is None and not brk and not rets:
            return None if not iswhile else out
        irregular = bool(brk or rets)
        nexts = {}
        for loc in changed:
            v = self.loc_get(r, loc) if r is not None else mus[loc]
            if v is not mus[loc]:
                self.mu_init[mus[loc]].append(v)
            v = self.resolve_new(r, v, minref) if r is not None else v
            nexts[loc] = v
        inits = {loc: self.loc_get(entry, loc) for loc in changed}
        stop = FALSE
        if irregular:
            stop = or_(*[x[1] for x in brk + rets])
            self.stops[ivn] = stop
            for x in brk:
                # value at a break is the value at the stop
                for loc in changed:
                    vb = self.resolve_new(x[3], self.loc_get(x[3], loc), minref)
                    nexts[loc] = ite(x[1], vb, nexts[loc])
        early = self.stops_early(r, brk, rets, changed, mus, minref, ivn, inits, nexts) if (
            brk and not rets and not iswhile) else None
        for loc in changed:
            if early is not None and loc in early:
                k, a, b = early[loc]
                g = X.abstract(stop, ivn)
                if k == "find":
                    v = ite(mk("exists", dom.n, g), a if ivn not in a.fiv and not a.mus else mk(
                        "firstwhere", dom.n, g, X.abstract(a, ivn)), b)
                else:
                    v = self.closed(mus[loc], a, inits[loc], mk("until", dom.n, g), ivn,
                                    set(mus.values()) - {mus[loc]})
                if v is not None:
                    self.loc_set(out, loc, v)
                    continue
            v = self.summarise(loc, inits, nexts, mus, dom.n, ivn, iswhile, cond,
                               irregular, stop, entry)
            self.loc_set(out, loc, v)
        if irregular and rets:
            for k, g, val, sx in rets:
                any_ = mk("exists", dom.n, X.abstract(self.nomu(g, nexts, inits, mus), ivn))
                val = self.resolve_new(sx, val, minref)
                v2 = val if ivn not in val.fiv and not val.mus else mk(
                    "firstwhere", dom.n, X.abstract(self.nomu(g, nexts, inits, mus), ivn),
                    X.abstract(self.nomu(val, nexts, inits, mus), ivn))
                e = out.copy()
                e.pc = and_(entry.pc, any_)
                fr.exits.append(("return", self.local_pc(e), v2, e))
                out.pc = and_(out.pc, not_(any_))
        if r is not None:
            # facts that hold throughout do not leave the loop
            out.pc = out.pc
        if not iswhile and isinstance(getattr(s, "target", None), ast.AST):
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name) and ("v", n.id) not in changed:
                    out.env[n.id] = mk("opq", "last " + n.id)
        if orelse:
            return self.exec_block(orelse, out)
        return out

    def stops_early(self, r, brk, rets, changed, mus, minref, ivn, inits, nexts):
        """Locations whose value after a loop with breaks has a closed form."""
        if any(b[1].mus for b in brk):
            return None
        out = {}
        for loc in changed:
            m = mus[loc]
            vb = [self.resolve_new(b[3], self.loc_get(b[3], loc), minref) for b in brk]
            vr = m if r is None else self.resolve_new(r, self.loc_get(r, loc), minref)
            if all(v is m for v in vb):
                stop = or_(*[b[1] for b in brk])
                facts = not_(stop)
                fs = set(facts.a) if facts.op == "and" else {facts}
                v = X.subst(vr, lambda x: TRUE if x in fs else FALSE if X.boolish(x) and not_(x) in fs else None)
                out[loc] = ("until", v, None)
            elif vr is m and all(not v.mus for v in vb):
                v = vb[-1]
                for b, x in zip(reversed(brk[:-1]), reversed(vb[:-1])):
                    v = ite(b[1], x, v)
                out[loc] = ("find", v, inits[loc])
        return out

    def nomu(self, t, nexts, inits, mus):
        if not t.mus:
            return t
        rev = {m: inits[l] for l, m in mus.items()}
        return X.subst(t, lambda x: mk("prevof", rev[x]) if x in rev else None)

    def while_counter(self, s, cond, mus, entry, minref, ivn):
        if cond.op != "cmp" or cond.a[0] not in ("<", "<="):
            return None
        lo, hi = cond.a[1], cond.a[2]
        for loc, m in mus.items():
            if lo is m and m not in hi.mus and loc[0] == "v":
                init = self.loc_get(entry, loc)
                if init is UNDEF:
                    return None
                # does every iteration add one?
                self.mute += 1
                try:
                    t = entry.copy()
                    for l2, m2 in mus.items():
                        self.loc_set(t, l2, m2)
                    r, brk, rets, raises = self.loop_body(s, None, t)
                finally:
                    self.mute -= 1
                if r is None or brk or rets:
                    return None
                if self.loc_get(r, loc) is not add(m, ONE) or hi.mus:
                    return None
                n = sub(hi, init)
                if cond.a[0] == "<=":
                    n = add(n, ONE)
                # rewrite as: for loc in range(init, init+n): body without its counter
                d = Domain(n, lambda i: add(init, i), None)
                body = strip_counter(s.body, loc[1])
                if body is None:
                    return None
                f = ast.For(target=ast.Name(id=loc[1], ctx=ast.Store()), iter=s.test,
                            body=body, orelse=[])
                ast.copy_location(f, s)
                f._sa_file = getattr(s, "_sa_file", "?")
                self.loopctx.pop()
                try:
                    if n.op == "num" and 0 <= n.a[0] <= self.unroll:
                        d.known = [add(init, num(k)) for k in range(n.a[0])]
                        out = self.unrolled(f, d, entry.copy())
                    else:
                        out = self.sym_loop(f, d, entry.copy())
                finally:
                    self.loopctx.append((ivn, n))
                if out is not None:
                    out.env[loc[1]] = hi
                return out
        return None

    def s_While(self, s, st):
        d = Domain(mk("opq", "while"), None, None)
        return self.sym_loop(s, d, st, s.orelse)

    # closed forms of one loop-carried location
    def summarise(self, loc, inits, nexts, mus, n, ivn, iswhile, cond, irregular, stop, entry):
        m, nx, init = mus[loc], nexts[loc], inits[loc]
        if nx is m:
            return init
        others = set(mus.values()) - {m}
        if not iswhile and not irregular:
            r = self.closed(m, nx, init, n, ivn, others)
            if r is not None:
                return r
        return self.loopgen(loc, inits, nexts, mus, n, ivn, iswhile, cond, irregular, stop)

    def closed(self, m, nx, init, n, ivn, others):
        ab = lambda t: X.abstract(t, ivn)
        free = lambda t: not t.mus
        if free(nx):
            # no loop-carried dependence: the value of the last iteration
            if ivn not in nx.fiv and init is nx:
                return nx
            return mk("lastval", n, init, ab(nx)) if ivn in nx.fiv else mk("lastval", n, init, nx)
        # m + g
        p = X.poly_of(nx)
        if ((m, 1),) in [k for k in p] and p[((m, 1),)] == 1 and nx.op == "poly":
            g = X.from_poly({k: c for k, c in p.items() if k != ((m, 1),)})
            if free(g):
                return X.reduce_("+", init, n, ab(g)) if ivn in g.fiv else add(init, mul(n, g))
        if nx.op in ("or", "and") and m not in nx.a and X.truth(m) in nx.a and (
                X.boolish(init) or init.op == "astype" and X.boolish(init.a[0])):
            init = init if X.boolish(init) else init.a[0]  # 0 or 1 either way
            nx = mk(nx.op, m, *[x for x in nx.a if x is not X.truth(m)])
        if nx.op in ("or", "and", "bor", "band") and m in nx.a:
            rest = [x for x in nx.a if x is not m]
            if all(free(x) for x in rest):
                g = {"or": or_, "and": and_}.get(nx.op, lambda *z: X._fold(bor if nx.op == "bor" else band, z))(*rest)
                return X.reduce_(nx.op, init, n, ab(g))
        if nx.op == "call" and nx.a[0].op == "ext" and nx.a[0].a[0] in (
                "numpy.maximum", "numpy.minimum", "builtins.max", "builtins.min") and m in nx.a[1].a and len(
                    nx.a[1].a) == 2 and not nx.a[2].a:
            g = [x for x in nx.a[1].a if x is not m]
            if len(g) == 1 and free(g[0]):
                return X.reduce_(nx.a[0].a[0].split(".")[1][:3], init, n, ab(g[0]))
        if nx.op == "poly" and len(p) == 1:
            ((mono, c),) = p.items()
            if (m, 1) in mono:
                g = X.from_poly({tuple(fe for fe in mono if fe[0] is not m): c})
                if free(g):
                    return X.reduce_("*", init, n, ab(g))
        # text building
        if nx.op == "cat" and nx.a[0] is m and all(free(x) for x in nx.a[1:]):
            return cat(init, self.str_method(X.EMPTY, "join", [
                mk("maplist", n, ab(cat(*nx.a[1:]) if len(nx.a) > 2 else nx.a[1]), TRUE)], {}))
        if nx.op == "ite":
            for cc, y, z in ((nx.a[0], nx.a[1], nx.a[2]), (not_(nx.a[0]), nx.a[2], nx.a[1])):
                if z is m and y.op == "cat" and y.a[0] is m and free(cc) and all(free(x) for x in y.a[1:]):
                    return cat(init, self.str_method(X.EMPTY, "join", [
                        mk("maplist", n, ab(cat(*y.a[1:]) if len(y.a) > 2 else y.a[1]), ab(cc))], {}))
        # list building
        if nx.op == "concat" and nx.a[0] is m:
            rest = nx.a[1:]
            if all(free(x) for x in rest) and len(rest) == 1 and rest[0].op == "list":
                if len(rest[0].a) == 1:
                    return self.concat(init, mk("maplist", n, ab(rest[0].a[0]), TRUE))
            if all(free(x) for x in rest):
                return self.concat(init, mk("flatmap", n, mk("lam", ab(mk("concat", *rest)))))
        if nx.op == "ite":
            c, a, b = nx.a
            if free(c):
                for cc, y, z in ((c, a, b), (not_(c), b, a)):
                    if z is m and y.op == "concat" and y.a[0] is m and len(y.a) == 2 and y.a[1].op == "list" and len(y.a[1].a) == 1 and free(y.a[1]):
                        return self.concat(init, mk("maplist", n, ab(y.a[1].a[0]), ab(cc)))
                    if z is m and X.poly_of(y).get(((m, 1),)) == 1:
                        g = sub(y, m)
                        if free(g):
                            return X.reduce_("+", init, n, ab(ite(cc, g, ZERO)))
                    if z is m and y.op == "store":
                        nn = mk("store", m, y.a[1], ite(cc, y.a[2], index(m, y.a[1]))) if y.a[0] is m else None
                        if nn is not None:
                            r = self.closed(m, nn, init, n, ivn, others)
                            if r is not None:
                                return r
                    if z is m and free(y):
                        if ivn not in y.fiv and not y.mus and n.op != "until":
                            return ite(mk("exists", n, ab(cc)), y, init)
                        return mk("lastwhere", n, init, ab(cc), ab(y))
                # both branches append one element
                if a.op == "concat" and b.op == "concat" and a.a[0] is m and b.a[0] is m and len(a.a) == 2 and len(b.a) == 2 and a.a[1].op == "list" and b.a[1].op == "list" and len(a.a[1].a) == len(b.a[1].a) == 1:
                    e = ite(c, a.a[1].a[0], b.a[1].a[0])
                    if free(e):
                        return self.concat(init, mk("maplist", n, ab(e), TRUE))
                if a.op == "concat" and b.op == "concat" and a.a[0] is m and b.a[0] is m:
                    pass
        # masked writes
        if nx.op == "sel":
            c, a, b = nx.a
            if free(c) and b is m and a is TRUE and (X.boolish(init) or init.op == "zeros"):
                return X.reduce_("or", init, n, ab(c))
            if free(c) and a is m and b is TRUE and (X.boolish(init) or init.op == "zeros"):
                return X.reduce_("or", init, n, ab(not_(c)))
            if free(c) and b is m and free(a):
                return mk("elast", n, init, ab(c), ab(a))
            if free(c) and a is m and free(b):
                return mk("elast", n, init, ab(not_(c)), ab(b))
        # array writes
        if nx.op == "store":
            d, base = self.chain(nx)
            if base is m:
                cur = init
                for idx in sorted(d, key=lambda t: t.key):
                    v = d[idx]
                    if idx.mus:
                        return None
                    at = index(m, idx)
                    dep = ivn in idx.fiv
                    if dep:
                        if not X.contains(v, lambda x: x is at) or X.distinct_in(idx, ivn):
                            # distinct places: the old content there is the initial one
                            v2 = X.subst(v, lambda x: index(init, idx) if x is at else None)
                            if v2.mus:
                                return None
                            cur = mk("tab", cur, n, ab(idx), ab(v2))
                        else:
                            # a place may come up again: its content builds up
                            v2 = X.subst(v, lambda x: X.SOFAR if x is at else None)
                            if v2.mus:
                                return None
                            cur = mk("tabacc", cur, n, ab(idx), ab(v2))
                    else:
                        # the same place each time: an accumulator cell
                        cellmu = mk("mu", ivn, "cell", "cell")
                        v2 = X.subst(v, lambda x: cellmu if x is at else None)
                        if v2.mus - {cellmu}:
                            return None
                        if v2 is cellmu:
                            continue
                        r = self.closed(cellmu, v2, index(init, idx), n, ivn, others)
                        if r is None:
                            return None
                        cur = mk("store", cur, idx, r)
                return cur
        if nx.op == "dstore" and nx.a[0] is m and free(nx.a[1]) and free(nx.a[2]):
            if init.op == "dict" and not init.a:
                return mk("mdict", n, ab(nx.a[1]), ab(nx.a[2]))
            return mk("mdictupd", init, mk("mdict", n, ab(nx.a[1]), ab(nx.a[2])))
        # dictionaries of lists
        g = self.grouping(m, nx)
        if g is not None and init.op in ("dict", "ddict") and len(init.a) <= 1 and all(free(x) for x in g):
            return mk("mgroup", n, mk("lam", mk("tuple", *[ab(x) for x in g])))
        g = self.firsts(m, nx)
        if g is not None and init.op == "dict" and not init.a and all(free(x) for x in g):
            return mk("mfirst", n, mk("lam", mk("tuple", *[ab(x) for x in g])))
        # objects: attribute-wise
        if nx.op == "obj" and init.op == "obj" and m in nx.mus:
            return None
        return None

    def grouping(self, m, nx):
        """(guard, key, values) when nx is m with values appended to the list at key."""
        if nx.op == "ite":
            c, a, b = nx.a
            for cc, y, z in ((c, a, b), (not_(c), b, a)):
                if z is m:
                    r = self.grouping(m, y)
                    if r is not None:
                        return (and_(cc, r[0]),) + r[1:]
            # one branch extends, the other starts the list
            ga, gb = self.grouping(m, a), self.grouping(m, b)
            return None
        if nx.op != "dstore":
            return None
        base, k, v = nx.a
        while base.op == "dstore" and base.a[1] is k:
            base = base.a[0]
        if base is not m:
            return None
        old = index(m, k)
        has = mk("cmp", "in", k, m)

        def tail(t):
            """values appended after the old list"""
            if t.op == "concat" and t.a[0] is old:
                return t.a[1:]
            return None
        if v.op == "concat" and v.a[0].op == "ite" and v.a[0].a[0] is has and v.a[0].a[1] is old:
            if v.a[0].a[2].op == "list" and not v.a[0].a[2].a:
                return TRUE, k, mk("concat", *v.a[1:])
        if v.op == "ite" and v.a[0] is has:
            t = tail(v.a[1])
            if t is not None and self.concat(*t) is v.a[2]:
                return TRUE, k, mk("concat", *t)
            if t is not None and v.a[2].op == "list":  # the first entry differs
                return TRUE, k, mk("concat", *t), v.a[2]
        if v.op == "concat" and v.a[0] is old:  # default dictionary
            return TRUE, k, mk("concat", *v.a[1:])
        return None

    def firsts(self, m, nx):
        """(guard, key, value) when nx is m with a value for the key unless it has one."""
        cs = []
        while nx.op == "ite":
            c, a, b = nx.a
            if b is m:
                cs.append(c)
                nx = a
            elif a is m:
                cs.append(not_(c))
                nx = b
            else:
                return None
        if nx.op != "dstore" or nx.a[0] is not m:
            return None
        g = and_(*cs)
        parts = list(g.a) if g.op == "and" else [g]
        new = not_(mk("cmp", "in", nx.a[1], m))
        if new not in parts:
            return None
        return and_(*[x for x in parts if x is not new]), nx.a[1], nx.a[2]

    def loopgen(self, loc, inits, nexts, mus, n, ivn, iswhile, cond, irregular, stop):
        """Canonical recurrence over the dependency cone of one location."""
        rev = {m: l for l, m in mus.items()}
        order = []

        def visit(l):
            if l in order:
                return
            order.append(l)
            for t in dfs_mus(nexts[l]):
                if t in rev:
                    visit(rev[t])

        visit(loc)
        extra = []
        if iswhile:
            extra.append(cond)
        if irregular:
            extra.append(not_(stop))
        for e in extra:
            for t in dfs_mus(e):
                if t in rev:
                    visit(rev[t])
        lvl = 0
        for l in order:
            for x in X.subterms(nexts[l]):
                if x.op == "mv":
                    lvl = max(lvl, x.a[0] + 1)
        sub_ = {mus[l]: mk("mv", lvl, k) for k, l in enumerate(order)}
        f = lambda t: X.abstract(X.subst(t, lambda x: sub_.get(x)), ivn)
        ns = [f(nexts[l]) for l in order]
        ex = [f(e) for e in extra]
        return mk("loopgen", mk("opq", "while") if iswhile else n,
                  mk("tuple", *[inits[l] for l in order]),
                  mk("lam", mk("tuple", *ns)), mk("lam", mk("tuple", *ex)))

    # ------------------------------------------------------------ iteration domains
    def domain(self, it, st, node=None, guarded=False):
        it = self.alias(st, it)
        c = self.cell(st, it)
        if guarded and c.op == "maplist" and c.a[2] is not TRUE:
            return Domain(c.a[0], lambda i: X.instantiate(c.a[1], i), None,
                          lambda i: X.instantiate(c.a[2], i))
        if guarded and c.op == "index":
            fa = filtered_array(c)
            if fa is not None:
                return Domain(length(fa[0]), lambda i: index(fa[0], i), None, fa[1])
        if guarded and c.op == "tolist":
            return self.domain(c.a[0], st, node, True)
        if c.op in ("list", "tuple", "set") and all(e.op != "star" for e in c.a):
            els = list(c.a) if c.op != "set" else sorted(c.a)
            return Domain(num(len(els)), lambda i: index(c, i), els)
        if c.op == "str":
            return Domain(num(len(c.a[0])), lambda i: index(c, i), [const(x) for x in c.a[0]])
        if c.op == "dict":
            ks = [k for k, _ in dict_items(c)]
            return Domain(num(len(ks)), lambda i: index(mk("list", *ks), i), ks)
        if c.op == "range":
            n, start, step = c.a
            known = None
            if n.op == "num" and isinstance(n.a[0], int) and n.a[0] <= 4 * self.unroll:
                known = [add(start, mul(step, num(k))) for k in range(max(0, n.a[0]))]
            return Domain(n, lambda i: add(start, mul(step, i)), known)
        if c.op == "enumerate":
            d = self.domain(c.a[0], st)
            s0 = c.a[1]
            return Domain(d.n, lambda i: mk("tuple", add(s0, i), d.elem(i)),
                          None if d.known is None else [
                              mk("tuple", add(s0, num(k)), e) for k, e in enumerate(d.known)])
        if c.op == "zip" and any(x.op == "star" for x in c.a):
            if len(c.a) != 1:
                raise NotImplementedError("zip of several unpacked arguments")
            d = self.domain(c.a[0].a[0], st)
            if d.known is not None:
                return self.domain(mk("zip", *d.known), st)
            self.niv += 1
            niv, row = self.niv, self.deep(st, d.elem(mk("iv", self.niv)))

            def column(k):
                return mk("maplist", d.n, X.abstract(index(row, k), niv), TRUE)
            if row.op in ("list", "tuple") and all(x.op != "star" for x in row.a):
                cols = [column(num(k)) for k in range(len(row.a))]
                return Domain(num(len(cols)), column, cols)
            return Domain(length(row), column, None)
        if c.op == "zip":
            ds = [self.domain(x, st) for x in c.a]
            if all(d.known is not None for d in ds):
                kn = [mk("tuple", *e) for e in zip(*[d.known for d in ds])]
                return Domain(num(len(kn)), None if False else (lambda i: mk("tuple", *[d.elem(i) for d in ds])), kn)
            ns = []
            for d in ds:
                if d.n not in ns:
                    ns.append(d.n)
            n = ns[0] if len(ns) == 1 else mk("minlen", *sorted(ns))
            return Domain(n, lambda i: mk("tuple", *[d.elem(i) for d in ds]), None)
        if c.op == "reversed":
            d = self.domain(c.a[0], st)
            return Domain(d.n, lambda i: d.elem(sub(sub(d.n, ONE), i)),
                          None if d.known is None else d.known[::-1])
        if c.op == "ditems":
            return Domain(length(c.a[0]), lambda i: mk("tuple", mk("dkey", c.a[0], i),
                                                       mk("dval", c.a[0], i)), None)
        if c.op == "maplist" and c.a[2] is TRUE:
            return Domain(c.a[0], lambda i: X.instantiate(c.a[1], i), None)
        if c.op == "tab":
            return Domain(length(c), lambda i: index(c, i), None)
        if c.op == "unordered":
            return Domain(length(c.a[0]), lambda i: mk("index", c, i), None)
        if c.op == "file":
            return Domain(mk("len", c), lambda i: mk("index", c, i), None)
        return Domain(length(c), lambda i: index(c, i), None)

    def iter_list(self, st, v):
        """list(v) as a term."""
        d = self.domain(v, st)
        if d.known is not None:
            return mk("list", *d.known)
        c = self.cell(st, v)
        if c.op in ("maplist", "concat", "list", "flatmap"):
            return c
        if c.op in ("range", "enumerate", "zip", "reversed", "ditems", "mdict"):
            self.niv += 1
            iv = mk("iv", self.niv)
            return mk("maplist", d.n, X.abstract(d.elem(iv), self.niv), TRUE)
        if c.op == "ite":
            return ite(c.a[0], self.iter_list(st, c.a[1]), self.iter_list(st, c.a[2]))
        return mk("tolist", c)

    def concat(self, *parts):
        out = []
        for p in parts:
            for x in p.a if p.op == "concat" else (p,):
                if x.op == "list" and out and out[-1].op == "list":
                    out[-1] = mk("list", *(out[-1].a + x.a))
                elif x.op == "list" and not x.a:
                    continue
                else:
                    out.append(x)
        if not out:
            return mk("list")
        if len(out) == 1:
            return out[0]
        return mk("concat", *out)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unknown.append((type(e).__name__, self.where(e)))
            return mk("opq", type(e).__name__ + ":" + ast.dump(e)[:60])
        X.CUR_LOC[0] = self.where(e)
        return m(e, st)

    def deref(self, st, t):
        """Array/scalar value usable inside pure terms (dereferences arrays)."""
        t = self.alias(st, t)
        if t.op == "ref" and t.a[1] in ("array", "view"):
            return self.deep(st, t)
        if t.op == "ite" and t.refs:
            return self.deep(st, t)
        return t

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        return self.load_name(e.id, st, e)

    def load_name(self, name, st, node):
        fr = self.frames[-1]
        if name not in fr.globals and name in st.env:
            v = st.env[name]
            return self.alias(st, v)
        return self.global_value(fr.module, name, st, node)

    def global_value(self, mod, name, st, node):
        r = self.ix.resolve(mod, name)
        if r is None:
            if name in PYBUILTINS:
                if name == "__name__":
                    return const(mod)
                return mk("ext", "builtins." + name)
            ci = self.ix.modules[mod].cinfo if mod in self.ix.modules else None
            if ci and name in ci["extern"]:
                return mk("ext", "native." + name)
            if ci and name in ("__mview__", "__cdecl__", "__cast__"):
                return mk("ext", "builtins." + name)
            self.event("unbound", name, {}, st, node)
            return mk("opq", "unbound " + name)
        if r[0] == "fn":
            return mk("fn", r[1])
        if r[0] == "cls":
            return mk("cls", r[1])
        if r[0] == "mod":
            return mk("mod", r[1])
        if r[0] == "ext":
            return self.ext(r[1])
        if r[0] == "missing":
            self.event("unbound", r[1], {}, st, node)
            return mk("opq", "missing " + r[1])
        # module-level variable
        _, m, nm, stmts = r
        k = ("glob", m, nm)
        if k in st.heap:
            return st.heap[k]
        if k in self.initial:
            return self.initial[k]
        v = self.eval_module_var(m, nm, stmts)
        self.initial[k] = v
        return v

    def ext(self, name):
        if name.startswith("builtins."):
            return mk("ext", name)
        name = EXT_CANON.get(name, name)
        name = DTYPE_CANON.get(name, name)
        if name in ("numpy.pi", "math.pi"):
            return mk("ext", "math.pi")
        return mk("ext", name)

    def eval_module_var(self, m, nm, stmts):
        stack = (m, nm)
        if stack in self.callstack:
            return mk("opq", f"cyclic {m}.{nm}")
        self.callstack.append(stack)
        self.frames.append(Frame(m, m))
        self.mute += 1
        self.outer_guard.append(TRUE)
        st = State({}, dict(self.initial_heap()))
        v = mk("opq", f"{m}.{nm}")
        try:
            for s in stmts:
                if isinstance(s, ast.Assign):
                    val = self.ev(s.value, st)
                    for t in s.targets:
                        self.assign(t, val, st)
                elif isinstance(s, ast.AnnAssign):
                    self.assign(s.target, self.ev(s.value, st), st)
                elif isinstance(s, ast.AugAssign):
                    self.s_AugAssign(s, st)
                else:
                    st = self.exec_stmt(s, st) or st
            v = st.env.get(nm, v)
        finally:
            self.outer_guard.pop()
            self.mute -= 1
            self.frames.pop()
            self.callstack.pop()
        for k, c in st.heap.items():
            self.initial.setdefault(k, c)
        return v

    def initial_heap(self):
        return {}

    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.alias(st, self.getattr_(o, e.attr, st, e))

    def getattr_(self, o, name, st, node):
        o = self.alias(st, o)
        if o.op == "ite":
            a, b = o.a[1], o.a[2]
            if a.op == "ref" or b.op == "ref" or name in ("shape", "ndim", "dtype", "size"):
                return ite(o.a[0], self.getattr_(a, name, st, node),
                           self.getattr_(b, name, st, node))
        if o.op == "mod":
            if o.a[0] + "." + name in self.ix.modules and name not in self.ix.modules[o.a[0]].defs:
                return mk("mod", o.a[0] + "." + name)
            return self.global_value(o.a[0], name, st, node)
        if o.op == "ext":
            return self.ext(o.a[0] + "." + name)
        if o.op == "ref":
            c = st.heap.get(o, self.initial.get(o))
            if c is None:
                return mk("opq", "attr " + name)
            if c.op == "obj":
                d = obj_attrs(c)
                if name == "__dict__":
                    return mk("opq", "__dict__")
                if name == "__class__":
                    return c.a[0]
                # properties take precedence
                meth = self.ix.find_method(c.a[0].a[0], name)
                if meth is not None and any(
                    (isinstance(x, ast.Name) and x.id in ("property", "cached_property"))
                    or (isinstance(x, ast.Attribute) and x.attr in ("cached_property",))
                    for x in meth[1].decorator_list
                ):
                    return self.call_fn(meth[0], meth[1], meth[2], [o], {}, st, node,
                                        cls=c.a[0].a[0], defcls=meth[0].rpartition(".")[0])
                if name in d and d[name] is not UNDEF:
                    return d[name]
                if meth is not None:
                    decs = [x.id for x in meth[1].decorator_list if isinstance(x, ast.Name)]
                    if "staticmethod" in decs:
                        return mk("fn", meth[0])
                    if "classmethod" in decs:
                        return mk("bound", c.a[0], mk("fn", meth[0]))
                    return mk("bound", o, mk("fn", meth[0]))
                r = self.class_attr(c.a[0].a[0], name, st)
                if r is not None:
                    return r
                if name in d:
                    return UNDEF
                if not self.ext_base(c.a[0].a[0]) and not self.ix.cls(c.a[0].a[0])[0].decorator_list:
                    self.event("noattr", name, dict(cls=c.a[0]), st, node)
                return mk("opq", f"noattr {name}")
            if o.a[1] == "ns" and c.op == "dict":
                for k, v in X.dict_items(c):
                    if k.op == "str" and k.a[0] == name:
                        return v
                self.event("noattr", name, dict(cls=mk("ext", "argparse.Namespace")), st, node)
                return mk("opq", f"noattr {name}")
            if o.a[1] in ("array", "view"):
                return attr(self.deep(st, o), name)
            return attr(o, name)
        if o.op == "cls":
            meth = self.ix.find_method(o.a[0], name)
            if meth is not None:
                decs = [x.id for x in meth[1].decorator_list if isinstance(x, ast.Name)]
                if "classmethod" in decs:
                    return mk("bound", o, mk("fn", meth[0]))
                return mk("fn", meth[0])
            r = self.class_attr(o.a[0], name, st)
            if r is not None:
                return r
            if name == "__name__":
                return const(o.a[0].split(".")[-1])
            return mk("attr", o, name)
        if o.op == "super":
            inst, cls = o.a
            c = st.heap[inst] if inst.op == "ref" else None
            dyn = c.a[0].a[0] if c is not None and c.op == "obj" else cls.a[0]
            mro = self.ix.mro(dyn)
            rest = mro[mro.index(cls.a[0]) + 1:] if cls.a[0] in mro else []
            for q in rest:
                node_, mod = self.ix.cls(q)
                for s in node_.body if node_ else ():
                    if isinstance(s, ast.FunctionDef) and s.name == name:
                        if any(isinstance(x, ast.Name) and x.id == "property" for x in s.decorator_list):
                            return self.call_fn(f"{q}.{name}", s, mod, [inst], {}, st, node, cls=dyn, defcls=q)
                        return mk("bound", inst, mk("fn", f"{q}.{name}"))
            return mk("bound", inst, mk("ext", "builtins.object." + name))
        if o.op == "str" and name not in STR_METH:
            return mk("attr", o, name)
        return attr(self.deref(st, o), name)

    def class_attr(self, q, name, st):
        k = ("clsattr", mk("cls", q), name)
        for c in self.ix.mro(q):
            kk = ("clsattr", mk("cls", c), name)
            if kk in st.heap:
                return st.heap[kk]
        r = self.ix.find_classattr(q, name)
        if r is None:
            return None
        key = ("clsval", r[0], name)
        if key in self.initial:
            return self.initial[key]
        self.frames.append(Frame(r[0], r[2]))
        self.mute += 1
        self.outer_guard.append(TRUE)
        tmp = State({}, {})
        # other class-level names are visible in the class body
        try:
            node_, mod = self.ix.cls(r[0])
            for s in node_.body:
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                    if s.value is r[1]:
                        break
                    used = {n.id for n in ast.walk(r[1]) if isinstance(n, ast.Name)}
                    if s.targets[0].id in used:
                        tmp.env[s.targets[0].id] = self.ev(s.value, tmp)
            v = self.ev(r[1], tmp)
        finally:
            self.outer_guard.pop()
            self.mute -= 1
            self.frames.pop()
        for kk, c in tmp.heap.items():
            self.initial.setdefault(kk, c)
        self.initial[key] = v
        return v

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        i = self.ev_index(e.slice, st)
        return self.alias(st, self.getitem(o, i, st, e))

    def ev_index(self, s, st):
        if isinstance(s, ast.Slice):
            f = lambda x: NONE if x is None else self.ev(x, st)
            a, b, c = f(s.lower), f(s.upper), f(s.step)
            if c is ONE:
                c = NONE
            if a is ZERO and c is NONE:
                a = NONE
            return mk("slice", a, b, c)
        if isinstance(s, ast.Tuple):
            return mk("tuple", *[self.ev_index(x, st) for x in s.elts])
        v = self.ev(s, st)
        return self.deref(st, v)

    def getitem(self, o, i, st, node):
        o = self.alias(st, o)
        if o.op == "cview" and o.a[0].op == "cdata":
            d = st.heap.get(o.a[0].a[0]).a[2]
            r = mk("unlaid", o.a[2], o.a[1], d)
            if d.op == "laid" and d.a[0] is o.a[2] and d.a[1] is o.a[1]:
                r = d.a[2]
            return r if all_of_it(norm_index(i)) else index(r, norm_index(i))
        if o.op == "ref":
            kind = o.a[1]
            c = st.heap.get(o, self.initial.get(o))
            if kind in ("array", "view"):
                return index(self.deep(st, o), norm_index(i))
            if kind == "obj":
                return self.method_call(o, "__getitem__", [i], {}, st, node)
            if kind == "dict":
                i = self.deep(st, i)
            if kind == "list" and i.op == "slice":
                if c.op == "list" and all(x.op in ("num", "none") for x in i.a):
                    return self.new_ref(st, index(c, i), "list")
                return index(c, i)
            r = index(c, i)
            if r.op == "index" and r.a[0] is c and kind == "dict" and c.op == "dict":
                if X.is_const(i) and all(X.is_const(k) for k, _ in dict_items(c)):
                    self.event("keyerror", "dict", dict(key=i), st, node)
            self.in_range(c, i, st, node)
            return r
        if o.op == "ite" and o.refs:
            return ite(o.a[0], self.getitem(o.a[1], i, st, node), self.getitem(o.a[2], i, st, node))
        if o.op in ("tuple", "list", "dict"):
            self.in_range(o, i, st, node)
            return index(o, i)
        return index(self.deref(st, o), norm_index(self.deref(st, i)))

    def in_range(self, c, i, st, node):
        """Report an element that a list of known length does not have."""
        if c.op in ("list", "tuple") and i.op == "num" and not any(x.op == "star" for x in c.a) and not (
                -len(c.a) <= i.a[0] < len(c.a)):
            self.event("indexerror", c.op, dict(index=i, n=num(len(c.a))), st, node)

    def e_Tuple(self, e, st):
        return mk("tuple", *self.elements(e.elts, st))

    def elements(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                d = self.domain(v, st)
                if d.known is not None:
                    out.extend(d.known)
                else:
                    sel_ = self.deep(st, v)
                    if sel_.op == "index" and sel_.a[1].op == "tuple" and sel_.a[1].a and sel_.a[1].a[-1].op in (
                            "list", "tuple") and all(x.op == "num" for x in sel_.a[1].a[-1].a) and all(
                            x.op in ("num", "iv", "bv") for x in sel_.a[1].a[:-1]):
                        # *x[i, [a, b, c]]
                        out += [index(sel_.a[0], mk("tuple", *sel_.a[1].a[:-1], x)) for x in sel_.a[1].a[-1].a]
                        continue
                    if sel_.op == "index" and sel_.a[1].op in ("list",) and all(x.op == "num" for x in sel_.a[1].a):
                        out += [index(sel_.a[0], x) for x in sel_.a[1].a]
                        continue
                    out.append(mk("star", self.cell(st, v)))
            else:
                out.append(self.ev(x, st))
        return out

    def e_List(self, e, st):
        els = self.elements(e.elts, st)
        if any(x.op == "star" for x in els):
            parts = [x.a[0] if x.op == "star" else mk("list", x) for x in els]
            return self.new_ref(st, self.concat(*parts), "list")
        return self.new_ref(st, mk("list", *els), "list")

    def e_Set(self, e, st):
        return self.new_ref(st, mk("set", *sorted(set(self.elements(e.elts, st)))), "set")

    def e_Dict(self, e, st):
        items = []
        base = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.cell(st, self.ev(v, st))
                if d.op == "dict":
                    items += dict_items(d)
                else:
                    items.append((mk("star", d), mk("star", d)))
            else:
                items.append((self.deep(st, self.ev(k, st)), self.ev(v, st)))
        return self.new_ref(st, mk_dict(items), "dict")

    def e_IfExp(self, e, st):
        c = truth(self.ev(e.test, st))
        c = self.under(c, and_(self.guard(), st.pc))
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        pc = st.pc
        st.pc = and_(pc, c)
        a = self.ev(e.body, st)
        st.pc = and_(pc, not_(c))
        b = self.ev(e.orelse, st)
        st.pc = pc
        return ite(c, a, b)

    def e_BoolOp(self, e, st):
        vals = []
        pc = st.pc
        isand = isinstance(e.op, ast.And)
        for x in e.values:
            v = self.ev(x, st)
            vals.append(v)
            t = truth(v)
            if st.pc is not FALSE:
                st.pc = and_(st.pc, t if isand else not_(t))
            if st.pc is FALSE:
                break
        st.pc = pc
        if all(X.boolish(v) or v.op in ("bool",) for v in vals):
            return and_(*vals) if isand else or_(*vals)
        r = vals[-1]
        for v in reversed(vals[:-1]):
            t = truth(v)
            r = ite(t, r, v) if isand else ite(t, v, r)
        # in boolean position only the truth matters
        return r

    def e_UnaryOp(self, e, st):
        v = self.deref(st, self.ev(e.operand, st))
        if isinstance(e.op, ast.Not):
            return not_(truth(v))
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return invert(v)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(type(e.op).__name__, a, b, st, e)

    def binop(self, op, a, b, st, node):
        ca, cb = self.cell(st, a), self.cell(st, b)
        if op == "Add":
            if is_seq(ca) or is_seq(cb):
                if ca.op == "tuple" and cb.op == "tuple":
                    return mk("tuple", *(ca.a + cb.a))
                r = self.concat(ca if is_seq(ca) else mk("tolist", ca), cb if is_seq(cb) else mk("tolist", cb))
                return self.new_ref(st, r, "list")
        if op == "Mult":
            for x, y in ((ca, cb), (cb, ca)):
                if x.op == "list" and y.op == "num" and isinstance(y.a[0], int) and y.a[0] <= 64:
                    return self.new_ref(st, mk("list", *(x.a * y.a[0])), "list")
                if x.op == "list":
                    return self.new_ref(st, mk("repeat", x, y), "list")
        a, b = self.deref(st, a), self.deref(st, b)
        if a.refs:
            a = self.deep(st, a)
        if b.refs:
            b = self.deep(st, b)
        if op in ("Div", "FloorDiv", "Mod"):
            self.event("div", op, dict(num=a, den=b), st, node)
        r = arith(op, a, b)
        if (r is a or r is b) and r.op == "sym" and r.a[1] == "array":
            return self.new_ref(st, r, "array")  # the same values in a new array
        return r

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            out.append(self.compare(type(op).__name__, left, right, st, e))
            left = right
        return and_(*out)

    def compare(self, op, a, b, st, node=None):
        if op in ("In", "NotIn"):
            r = self.contains(a, b, st)
            return r if op == "In" else not_(r)
        a0, b0 = a, b
        if op in ("Is", "IsNot"):
            a, b = self.alias(st, a), self.alias(st, b)
            if a.op == "ref" and b.op == "ref":
                return const((a is b) == (op == "Is"))
            return cmp_("is" if op == "Is" else "isnot", a, b)
        a = self.deep(st, a) if a.refs else self.deref(st, a)
        b = self.deep(st, b) if b.refs else self.deref(st, b)
        a, b = self.alias(st, a), self.alias(st, b)
        a = self.deep(st, a) if a.refs else a
        b = self.deep(st, b) if b.refs else b
        return compare_terms(op, a, b)

    def contains(self, a, b, st):
        cb = self.cell(st, b)
        a = self.deep(st, a)
        if cb.op in ("list", "tuple", "set"):
            els = [self.deep(st, x) for x in cb.a]
            if all(x.op != "star" for x in els) and len(els) <= 64:
                return or_(*[compare_terms("Eq", a, x) for x in els])
        if cb.op == "dict":
            ks = [k for k, _ in dict_items(cb)]
            return or_(*[compare_terms("Eq", a, k) for k in ks])
        if cb.op == "keys":
            return self.contains(a, cb.a[0], st)
        if cb.op == "str" and a.op == "str":
            return const(a.a[0] in cb.a[0])
        if cb.op == "dstore":
            return or_(compare_terms("Eq", a, cb.a[1]), self.contains(a, cb.a[0], st))
        if cb.op == "range" and all(x.op == "num" for x in cb.a) and a.op == "num":
            n, lo, step = [x.a[0] for x in cb.a]
            k = (a.a[0] - lo) / step
            return const(k == int(k) and 0 <= k < n)
        if cb.op == "range" and cb.a[2] is ONE and a.op == "sym" and a.a[1] == "int":
            return and_(compare_terms("LtE", cb.a[1], a), compare_terms("Lt", a, add(cb.a[1], cb.a[0])))
        return mk("cmp", "in", a, self.deep(st, cb))

    def e_Lambda(self, e, st):
        return self.closure(e, st)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.ev(v, st))
        return cat(*parts)

    def e_FormattedValue(self, e, st):
        v = self.deep(st, self.ev(e.value, st))
        if e.conversion == 114:
            v = mk("repr", v)
        spec = ""
        if e.format_spec is not None:
            s = self.e_JoinedStr(e.format_spec, st)
            if s.op != "str":
                return mk("fmtdyn", v, s)
            spec = s.a[0]
        return fmt(v, spec)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Starred(self, e, st):
        return mk("star", self.ev(e.value, st))

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        acc = st.env.get("$yield")
        if acc is not None:
            st.heap[acc] = self.concat(self.cell(st, acc), mk("list", v))
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        acc = st.env.get("$yield")
        if acc is not None:
            st.heap[acc] = self.concat(self.cell(st, acc), self.iter_list(st, v))
        return NONE

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # comprehensions
    def e_ListComp(self, e, st):
        return self.new_ref(st, self.comp(e.elt, e.generators, st), "list")

    def e_GeneratorExp(self, e, st):
        return self.new_ref(st, self.comp(e.elt, e.generators, st), "list")

    def e_SetComp(self, e, st):
        c = self.comp(e.elt, e.generators, st)
        return self.new_ref(st, mk("set", *sorted(set(c.a))) if c.op == "list" else mk("setof", c), "set")

    def e_DictComp(self, e, st):
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        ast.copy_location(pair, e)
        pair._sa_file = getattr(e, "_sa_file", "?")
        c = self.comp(pair, e.generators, st)
        if c.op == "list":
            return self.new_ref(st, mk_dict([(self.deep(st, p.a[0]), p.a[1]) for p in c.a]), "dict")
        if c.op == "maplist" and c.a[2] is TRUE:
            b = c.a[1]
            if b.op == "tuple":
                return self.new_ref(st, mk("mdict", c.a[0], b.a[0], b.a[1]), "dict")
        return self.new_ref(st, mk("mdictof", c), "dict")

    def comp(self, elt, gens, st):
        g = gens[0]
        it = self.ev(g.iter, st)
        d = self.domain(it, st, guarded=True)
        saved = dict(st.env)
        if d.known is not None and len(d.known) <= (512 if all(X.is_const(v) for v in d.known) and self.cell(
                st, self.alias(st, it)).op == "list" else 4 * self.unroll):
            out = []
            ok = True
            for v in d.known:
                self.assign(g.target, v, st)
                c = TRUE
                for f in g.ifs:
                    c = and_(c, truth(self.ev(f, st)))
                if c is FALSE:
                    continue
                if len(gens) > 1:
                    e = self.comp(elt, gens[1:], st)
                    out.append(e if c is TRUE else ite(c, e, mk("list")))
                else:
                    e = self.ev(elt, st)
                    e = mk("list", e)
                    out.append(e if c is TRUE else mk("optlist", c, e.a[0]))
            st.env = saved
            return self.concat(*out)
        self.niv += 1
        ivn = self.niv
        iv = mk("iv", ivn)
        minref = self.nref
        self.loopctx.append((ivn, d.n))
        try:
            self.assign(g.target, d.elem(iv), st)
            c = d.guard(iv)
            pc = st.pc
            for f in g.ifs:
                c = and_(c, truth(self.ev(f, st)))
            st.pc = and_(st.pc, c)
            if len(gens) > 1:
                inner = self.comp(elt, gens[1:], st)
                inner = self.resolve_new(st, inner, minref)
                r = mk("flatmap", d.n, mk("lam", X.abstract(inner if c is TRUE else ite(c, inner, mk("list")), ivn)))
            else:
                v = self.ev(elt, st)
                v = self.resolve_new(st, v, minref)
                r = mk("maplist", d.n, X.abstract(v, ivn), X.abstract(c, ivn))
            st.pc = pc
        finally:
            self.loopctx.pop()
        st.env = saved
        return r

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            fr = self.frames[-1]
            if e.args:
                c = self.ev(e.args[0], st)
                o = self.ev(e.args[1], st) if len(e.args) > 1 else NONE
                return mk("super", o, c)
            first = next(iter(fr.argnames), None) if getattr(fr, "argnames", None) else None
            return mk("super", st.env.get(first, NONE), mk("cls", fr.defcls))
        if isinstance(e.func, ast.Attribute):
            o = self.ev(e.func.value, st)
            args, kw = self.call_args(e, st)
            if st.pc is FALSE:
                return UNDEF
            X.CUR_LOC[0] = self.where(e)
            return self.method_call(o, e.func.attr, args, kw, st, e)
        f = self.ev(e.func, st)
        args, kw = self.call_args(e, st)
        if st.pc is FALSE:
            return UNDEF
        X.CUR_LOC[0] = self.where(e)
        return self.call(f, args, kw, st, e)

    def call_args(self, e, st):
        args = self.elements(e.args, st)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                c = self.cell(st, v)
                if c.op == "dict" and all(x.op == "str" for x, _ in dict_items(c)):
                    for kk, vv in dict_items(c):
                        if kk.a[0] in kw:
                            self.event("dupkw", kk.a[0], {}, st, e)
                        kw[kk.a[0]] = vv
                elif c.op == "dstore":
                    base = c
                    sts = []
                    while base.op == "dstore" and base.a[1].op == "str":
                        sts.append((base.a[1].a[0], base.a[2]))
                        base = base.a[0]
                    if base.op == "dict":
                        for kk, vv in dict_items(base):
                            kw[kk.a[0]] = vv
                        for kk, vv in reversed(sts):
                            kw[kk] = vv
                    else:
                        kw["**"] = c
                else:
                    kw["**"] = self.deep(st, c)
            else:
                kw[k.arg] = v
        return args, kw

    def call(self, f, args, kw, st, node):
        f = self.alias(st, f)
        if f.op == "ite":
            # dispatch on the two callees (effects merged by condition)
            s1 = st.copy()
            s2 = st.copy()
            base = st.pc
            s1.pc = and_(base, f.a[0])
            s2.pc = and_(base, not_(f.a[0]))
            v1 = self.call(f.a[1], list(args), dict(kw), s1, node)
            v2 = self.call(f.a[2], list(args), dict(kw), s2, node)
            m = self.merge(f.a[0], s1, s2)
            st.env, st.heap = m.env, m.heap
            st.pc = base
            return ite(f.a[0], v1, v2)
        if f.op == "fn":
            return self.call_qual(f.a[0], args, kw, st, node)
        if f.op == "bound":
            return self.call(f.a[1], [f.a[0]] + list(args), kw, st, node) if f.a[1].op == "fn" else (
                self.call_ext(f.a[1], args, kw, st, node))
        if f.op == "closure":
            nd, env, mod, cls = self.closures[f.a[0]]
            return self.call_closure(f, nd, env, mod, cls, args, kw, st, node)
        if f.op == "cls":
            return self.instantiate(f, args, kw, st, node)
        if f.op == "partial":
            d = dict(dict_items(f.a[2]))
            k2 = {k.a[0]: v for k, v in d.items()}
            k2.update(kw)
            return self.call(f.a[0], list(f.a[1].a) + list(args), k2, st, node)
        if f.op == "ref":
            c = st.heap.get(f, self.initial.get(f))
            if c is not None and c.op == "obj":
                return self.method_call(f, "__call__", args, kw, st, node)
            return mk("opq", "call of ref")
        if f.op == "ext":
            return self.call_ext(f, args, kw, st, node)
        if f.op == "attr":
            return self.method_call(f.a[0], f.a[1], args, kw, st, node)
        # unknown callee (a callable parameter)
        A = mk("tuple", *[self.deep(st, a) for a in args])
        K = mk_kw({k: self.deep(st, v) for k, v in kw.items()})
        self.event("call", f, dict(args=A, kw=K), st, node)
        return mk("call", f, A, K)

    def find_fn(self, q):
        mod, _, nm = q.rpartition(".")
        m = self.ix.modules.get(mod)
        if m is not None:
            d = m.defs.get(nm)
            if d and d[0] == "def":
                return d[1], mod, None
        node, cm = self.ix.cls(mod)
        if node is not None:
            for s in node.body:
                if isinstance(s, ast.FunctionDef) and s.name == nm:
                    return s, cm, mod
        return None

    def call_qual(self, q, args, kw, st, node):
        r = self.find_fn(q)
        if r is None:
            raise AnalysisError(f"function {q} is gone")
        fn, mod, defcls = r
        cls = None
        if defcls is not None:
            cls = defcls
        return self.call_fn(q, fn, mod, args, kw, st, node, cls=cls, defcls=defcls)

    def bind(self, fn, args, kw, st, node, mod, qual, defaults=True):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        rest = []
        stars = [x for x in args if x.op == "star"]
        plain = [x for x in args if x.op != "star"]
        for k, v in enumerate(plain):
            if k < len(names):
                env[names[k]] = v
            else:
                rest.append(v)
        if stars:
            for nm in names[len(plain):]:
                if nm not in kw:
                    k = names.index(nm) - len(plain)
                    env[nm] = index(stars[0].a[0], num(k))
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k == "**":
                extra["**"] = v
            elif k in names or k in kwonly:
                if k in env and k in names[: len(plain)]:
                    self.event("badcall", qual, dict(why=f"multiple values for {k}"), st, node)
                env[k] = v
            else:
                extra[k] = v
        if rest and a.vararg is None:
            self.event("badcall", qual, dict(why=f"{len(plain)} positional arguments"), st, node)
        if extra and a.kwarg is None and set(extra) - {"**"}:
            self.event("badcall", qual, dict(why=f"unexpected {sorted(extra)}"), st, node)
        if "**" in extra and a.kwarg is None:
            src = extra["**"]
            for nm in names + kwonly:
                if nm not in env:
                    has = [d for d in self.default_of(fn, nm)]
                    env[nm] = index(src, const(nm)) if not has else ite(
                        mk("cmp", "in", const(nm), src), index(src, const(nm)), self.default_val(has[0], mod))
        ds = a.defaults
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(ds):], ds)) + [
            (x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None
        ]:
            if x.arg not in env and defaults:
                env[x.arg] = self.default_val(d, mod)
        for nm in names + kwonly:
            if nm not in env and defaults:
                self.event("badcall", qual, dict(why=f"missing {nm}"), st, node)
                env[nm] = mk("opq", f"missing argument {nm}")
        if a.vararg is not None:
            env[a.vararg.arg] = mk("tuple", *(rest + [mk("star", s.a[0]) for s in stars[:0]]))
        if a.kwarg is not None:
            ex = {k: v for k, v in extra.items() if k != "**"}
            if "**" in extra:
                env[a.kwarg.arg] = extra["**"] if not ex else mk("opq", "kwargs")
            else:
                env[a.kwarg.arg] = self.new_ref(
                    st, mk_dict([(const(k), v) for k, v in ex.items()]), "dict")
        return env

    def default_of(self, fn, nm):
        a = fn.args
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(
            zip(a.kwonlyargs, a.kw_defaults)
        ):
            if x.arg == nm and d is not None:
                yield d

    def default_val(self, d, mod):
        if isinstance(d, ast.Constant):
            return const(d.value)
        key = ("default", id(d))
        if key in self.initial:
            return self.initial[key]
        self.frames.append(Frame(mod, mod))
        self.mute += 1
        self.outer_guard.append(TRUE)
        tmp = State({}, {})
        try:
            v = self.ev(d, tmp)
        finally:
            self.outer_guard.pop()
            self.mute -= 1
            self.frames.pop()
        for kk, c in tmp.heap.items():
            self.initial.setdefault(kk, c)
        self.initial[key] = v
        return v

    def is_opaque(self, q):
        return q in self.opaque

    def decorators(self, fn):
        """Decorators that change what a call does: (cached, the others)."""
        if isinstance(fn, ast.Lambda) or not fn.decorator_list:
            return False, []
        cached, rest = False, []
        for d in fn.decorator_list:
            x = d.func if isinstance(d, ast.Call) else d
            nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else ""
            if nm in ("lru_cache", "cache", "memoize"):
                cached = True
            elif nm not in ("property", "staticmethod", "classmethod", "abstractmethod", "cached_property", "overload",
                            "setter", "getter", "deleter", "njit", "jit", "final", "override", "no_type_check",
                            "wraps", "contextmanager", "boundscheck", "wraparound", "cdivision", "profile",
                            "deprecated", "deprecated_api_warning", "ccall", "cfunc", "inline", "nonecheck"):
                rest.append(d)
        return cached, rest

    def call_fn(self, q, fn, mod, args, kw, st, node, cls=None, defcls=None):
        cached, rest = self.decorators(fn)
        if q in self.bare:
            self.bare.discard(q)
        elif rest and not self.is_opaque(q):
            self.frames.append(Frame(mod, mod))
            try:
                tmp = State({}, st.heap, st.pc)
                f = mk("fn", q)
                for d in reversed(rest):
                    f = self.call(self.ev(d, tmp), [f], {}, tmp, d)
                st.heap = tmp.heap
            finally:
                self.frames.pop()
            self.bare.add(q)
            try:
                return self.call(f, args, kw, st, node)
            finally:
                self.bare.discard(q)
        if cached and q not in self.caching:
            self.caching.add(q)
            try:
                v = self.call_fn(q, fn, mod, args, kw, st, node, cls, defcls)
            finally:
                self.caching.discard(q)
            for x in X.subterms(v):
                if x.op == "ref":
                    self.lasting.add(x)
            return v
        env = self.bind(fn, args, kw, st, node, mod, q)
        if self.is_opaque(q):
            b = {k: self.deep(st, v) for k, v in env.items()}
            A = mk_kw(b)
            val = mk("call", mk("fn", q), mk("tuple"), A)
            self.event("call", mk("fn", q), dict(b), st, node, value=val)
            return val
        if len(self.callstack) > MAXDEPTH or self.callstack.count(q) > 1:
            self.unknown.append(("recursion " + q, self.where(node)))
            return mk("call", mk("fn", q), mk("tuple"), mk_kw({k: self.deep(st, v) for k, v in env.items()}))
        self.event("enter", q, dict(env), st, node)
        self.inlined.add(q)
        ci = self.ix.modules[mod].cinfo if mod in self.ix.modules else None
        for nm, ty in (ci or {}).get("cfuncs", {}).get(fn.name, ()):
            if "[" in ty and nm in env:
                # a typed memoryview parameter refuses buffers of another rank
                ok = compare_terms("Eq", attr(self.deep(st, env[nm]), "ndim"), num(ty.count(",") + 1))
                if ok is not TRUE:
                    self.event("raise", "raise", dict(exc=mk("str", "Buffer has wrong number of dimensions")),
                               st, node)
                    st.pc = and_(st.pc, ok)
        return self.run_body(q, fn, mod, env, st, node, cls, defcls)

    def run_body(self, q, fn, mod, env, st, node, cls, defcls, outer_env=None):
        fr = Frame(q, mod, cls)
        fr.defcls = defcls
        fr.argnames = [x.arg for x in fn.args.posonlyargs + fn.args.args]
        isgen = not isinstance(fn, ast.Lambda) and has_yield(fn)
        sub_ = State(dict(env), st.heap, TRUE)
        if isgen:
            sub_.heap = dict(st.heap)
            self.nref += 1
            acc = mk("ref", self.nref, "list")
            sub_.heap[acc] = mk("list")
            sub_.env["$yield"] = acc
        else:
            sub_.heap = dict(st.heap)
        self.frames.append(fr)
        self.callstack.append(q)
        self.outer_guard.append(and_(self.outer_guard[-1], st.pc))
        try:
            if isinstance(fn, ast.Lambda):
                v = self.ev(fn.body, sub_)
                end = sub_
                if end.pc is not FALSE:
                    fr.exits.append(("return", end.pc, v, end))
            else:
                end = self.exec_block(fn.body, sub_)
                if end is not None:
                    fr.exits.append(("return", end.pc, NONE, end))
        finally:
            self.outer_guard.pop()
            self.callstack.pop()
            self.frames.pop()
        rets = [x for x in fr.exits if x[0] == "return"]
        rs = [x for x in fr.exits if x[0] == "raise"]
        if self.frames:
            for x in rs:
                self.frames[-1].exits.append(("raise", and_(st.pc, x[1]), x[2], x[3]))
        if not rets:
            st.pc = FALSE
            return UNDEF
        # fold the exits
        guards = []
        neg_ = set()
        for k, g, v, s in rets:
            cs = list(g.a) if g.op == "and" else [g]
            cs = [x for x in cs if x not in neg_]
            guards.append(and_(*cs))
            n = not_(g)
            for x in n.a if n.op == "and" else (n,):
                neg_.add(x)
            n2 = not_(guards[-1])
            for x in n2.a if n2.op == "and" else (n2,):
                neg_.add(x)
        val = rets[-1][2]
        fin = rets[-1][3]
        if isgen:
            val = fin.env["$yield"]
        for (k, g0, v, s), g in list(zip(rets, guards))[-2::-1]:
            if isgen:
                v = s.env["$yield"]
            if v is not val:
                va = v
                val = ite(g, va, val)
            m = self.merge(g, State({}, s.heap, TRUE), State({}, fin.heap, TRUE))
            fin = m
        old = st.heap
        st.heap = fin.heap
        for k in [k for k in st.heap if isinstance(k, tuple) and k[0] == "rebind"]:
            if old.get(k) is not st.heap[k]:
                self.rebind(st, k[1], st.heap[k])
        # what must hold for the function to return (its asserts and raises)
        if rs or len(rets) == 1:
            post = or_(*[x[1] for x in rets])
            if post is not TRUE and len(rets) == 1:
                st.pc = and_(st.pc, post)
        return val

    def call_closure(self, f, nd, env, mod, cls, args, kw, st, node):
        q = getattr(nd, "name", "<lambda>")
        loc = self.bind(nd, args, kw, st, node, mod, q)
        e2 = dict(env)
        if not isinstance(nd, ast.Lambda):
            e2[nd.name] = f
        # the defining frame may have rebound captured names since
        if self.frames and self.frames[-1].module == mod:
            for k in env:
                if k in st.env and not isinstance(nd, ast.Lambda):
                    e2[k] = st.env[k]
        e2.update(loc)
        key = f"{mod}.<{q}@{f.a[0]}>"
        if self.callstack.count(key) > 1:
            self.unknown.append(("recursion " + q, self.where(node)))
            return mk("call", mk("fn", key), mk("tuple"), mk_kw({k: self.deep(st, v) for k, v in loc.items()}))
        fr_env = e2
        v = self.run_body(key, nd, mod, fr_env, st, node, cls, getattr(self.frames[-1], "defcls", None))
        for x in ast.walk(nd):
            if isinstance(x, ast.Nonlocal):
                for k in x.names:
                    if k in st.env:
                        st.env[k] = mk("opq", "nonlocal " + k)
        return v

    def instantiate(self, f, args, kw, st, node):
        q = f.a[0]
        if self.is_opaque(q):
            b = {k: self.deep(st, v) for k, v in kw.items()}
            A = mk("tuple", *[self.deep(st, a) for a in args])
            val = mk("call", f, A, mk_kw(b))
            self.event("call", f, dict(args=A, kw=mk_kw(b)), st, node, value=val)
            return val
        o = self.new_ref(st, mk_obj(f, {}), "obj")
        meth = self.ix.find_method(q, "__init__") or self.made_init(q)
        if meth is not None:
            self.call_fn(meth[0], meth[1], meth[2], [o] + list(args), kw, st, node, cls=q,
                         defcls=meth[0].rpartition(".")[0])
        elif (args or kw) and not self.ext_base(q) and not self.ix.cls(q)[0].decorator_list:
            self.event("badcall", q, dict(why="constructor takes no arguments"), st, node)
        return o

    def made_init(self, q):
        """The constructor a dataclass or a typing.NamedTuple gets from its fields."""
        if q in self.made:
            return self.made[q]
        fields, mod, is_data, post = {}, None, False, False
        for k in reversed(self.ix.mro(q)):
            node, m = self.ix.cls(k)
            if node is None:
                continue
            ds = [d.func if isinstance(d, ast.Call) else d for d in node.decorator_list]
            names = {(d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else "") for d in ds}
            bases = {(b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else "")
                     for b in node.bases}
            if "dataclass" not in names and "NamedTuple" not in bases:
                continue
            is_data, mod = True, m
            post = post or any(isinstance(s, ast.FunctionDef) and s.name == "__post_init__" for s in node.body)
            for s in node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if "ClassVar" in ast.unparse(s.annotation):
                        continue
                    fields[s.target.id] = s.value
        if not is_data:
            self.made[q] = None
            return None
        pars, body = [], []
        for n, v in fields.items():
            if isinstance(v, ast.Call) and ast.unparse(v.func).rpartition(".")[2] == "field":
                ks = {k.arg: k.value for k in v.keywords}
                if "default" in ks:
                    v = ks["default"]
                elif "default_factory" in ks:
                    v = ast.Call(ks["default_factory"], [], [])
                    body.append((n, v))
                    pars.append((n, ast.Constant(None), True))
                    continue
                else:
                    v = None
            pars.append((n, v, False))
        text = [n if v is None else f"{n}={ast.unparse(v)}" for n, v, _ in pars]
        made = {n: v for n, v in body}
        lines = [f"    self.{n} = " + (f"{n} if {n} is not None else {ast.unparse(made[n])}" if n in made else n)
                 for n, _, _ in pars] + (["    self.__post_init__()"] if post else []) or ["    pass"]
        fn = ast.parse(f"def __init__({', '.join(['self'] + text)}):\n" + "\n".join(lines) + "\n").body[0]
        at = self.ix.cls(q)[0]
        for x in ast.walk(fn):
            if hasattr(x, "lineno"):
                x.lineno = x.end_lineno = at.lineno
        self.made[q] = (q + ".__init__", fn, mod)
        return self.made[q]

    def ext_base(self, q):
        for c in self.ix.mro(q):
            node, mod = self.ix.cls(c)
            for b in node.bases if node is not None else ():
                r = self.ix.resolve(mod, b.id) if isinstance(b, ast.Name) else None
                if not (r and r[0] == "cls") and not (isinstance(b, ast.Name) and b.id == "object"):
                    return True
        return False

    # methods --------------------------------------------------------------
    def method_call(self, o, name, args, kw, st, node):
        o = self.alias(st, o)
        if o.op in ("mod", "cls", "super") or (
            o.op == "ref" and o.a[1] == "obj"
        ):
            f = self.getattr_(o, name, st, node)
            if o.op == "ref" and f.op == "opq":
                return mk("opq", f"method {name}")
            if f.op == "attr" and f.a[0] is o:
                A = mk("tuple", *[self.deep(st, a) for a in args])
                K = mk_kw({k: self.deep(st, x) for k, x in kw.items()})
                return mk("method", name, self.deep(st, o), A, K)
            return self.call(f, args, kw, st, node)
        if o.op == "ext":
            return self.call_ext(self.ext(o.a[0] + "." + name), args, kw, st, node)
        if o.op == "ite" and o.refs:
            refs = [x for x in (o.a[1], o.a[2])]
            vals = []
            for br, c in ((o.a[1], o.a[0]), (o.a[2], not_(o.a[0]))):
                s2 = st.copy()
                v = self.method_call(br, name, list(args), dict(kw), s2, node)
                if br.op == "ref":
                    for k, cell in s2.heap.items():
                        old = st.heap.get(k)
                        if old is not None and old is not cell:
                            st.heap[k] = ite(c, cell, old)
                        elif old is None:
                            st.heap[k] = cell
                vals.append(v)
            return ite(o.a[0], vals[0], vals[1])
        if name in ("open", "write_text") and o.op in ("str", "cat", "join") and args:
            if name == "open":
                return self.call_ext(mk("ext", "builtins.open"), [o] + list(args), kw, st, node)
            f = self.call_ext(mk("ext", "builtins.open"), [o, const("w")], {}, st, node)
            return self.file_write(f, self.deep(st, args[0]), st, node)
        if o.op == "ref" and o.a[1] == "file" and o in self.files:
            if name == "write" and len(args) == 1:
                return self.file_write(o, self.deep(st, args[0]), st, node)
            if name == "writelines" and len(args) == 1:
                return self.file_write(o, join(X.EMPTY, self.deep(st, args[0])) if False else
                                       self.str_method(X.EMPTY, "join", [self.deep(st, args[0])], {}), st, node)
            if name in ("close", "flush", "__enter__", "__exit__"):
                return NONE
            return mk("opq", "file." + name)
        c = self.cell(st, o)
        kind = o.a[1] if o.op == "ref" else None
        if name in MUTATORS:
            self.event("mutate", name, dict(target=o), st, node)
        if kind == "list" or (kind is None and c.op in ("list", "maplist", "concat", "tolist") and c.op != "tuple") or (
                kind is None and name in ("append", "extend") and self.held_by(st, c)):
            r = self.list_method(o, c, name, args, kw, st, node)
            if r is not None:
                return r
        if kind == "dict" or c.op in ("dict", "dstore", "mdict"):
            r = self.dict_method(o, c, name, args, kw, st, node)
            if r is not None:
                return r
        if name in STR_METH and (c.op in ("str", "cat", "tostr", "zfill", "fmt", "join") or strings.known(c) or name in (
                "zfill", "format", "splitlines")):
            r = self.str_method(c, name, [self.deep(st, a) for a in args],
                                {k: self.deep(st, v) for k, v in kw.items()})
            if r is not None:
                return r
        if kind == "parser":
            r = self.parser_method(o, c, name, args, kw, st)
            if r is not None:
                return r
        if kind == "cmatrix" and name == "data":
            return mk("cdata", o)
        if c.op == "asyncres" and name in ("get", "wait"):
            self.pending = [p for p in self.pending if p[1] is not c.a[0]]
            return c.a[0] if name == "get" else NONE
        if c.op == "pool":
            r = self.pool_method(c, name, args, kw, st, node)
            if r is not None:
                return r
        if kind == "array" and name in ("fill",) and args:
            st.heap[o] = mk("full", attr(c, "shape"), self.deref(st, args[0]))
            return NONE
        if name in ("reshape", "view") and kind == "array" and (
                c.op in ("shared", "copied") or o in self.shared):
            return o
        v = self.deep(st, o) if o.refs else o
        if name == "setflags":
            return NONE
        if kind == "set" and c.op == "set" and name in ("add", "discard") and len(args) == 1:
            x = self.deep(st, args[0])
            hit = [compare_terms("Eq", self.deep(st, y), x) for y in c.a]
            if name == "add" and all(h is FALSE for h in hit):
                st.heap[o] = mk("set", *sorted(set(c.a) | {x}))
                return NONE
            if TRUE in hit and all(h in (TRUE, FALSE) for h in hit):
                if name == "discard":
                    st.heap[o] = mk("set", *[y for y, h in zip(c.a, hit) if h is FALSE])
                return NONE
        if o.op == "ref" and kind in ("list", "dict", "set", "array") and name in (
                "remove", "insert", "popitem", "sort", "partition", "put", "itemset", "discard", "add", "pop",
                "update", "difference_update", "intersection_update", "symmetric_difference_update", "fill") or (
                o.op == "ref" and kind == "array" and name == "resize"):
            st.heap[o] = mk("opq", f"{kind}.{name}")  # changed in place, to what is not followed
            return mk("opq", f"{kind}.{name}")
        if name in ("copy", "__copy__") and not args:
            if c.op in ("list", "dict") or kind in ("list", "dict"):
                return self.new_ref(st, c, kind or c.op)
            return self.fresh_array(st, v)
        if name == "tolist" and not args:
            return mk("tolist", v)
        if name == "item" and not args:
            return v
        if name == "astype" and (args or "dtype" in kw):
            v = astype(v, self.dtype(args[0] if args else kw["dtype"]))
            return self.fresh_array(st, v) if kw.get("copy", TRUE) is TRUE and v.op != "num" else v
        if name == "keys" and not args:
            return mk("keys", v)
        if name == "items" and not args:
            return mk("ditems", v)
        if name == "values" and not args:
            return mk("dvalues", v)
        if name in NDMETH:
            if name == "transpose" and len(args) > 1:
                args = [mk("tuple", *args)]
            if name == "reshape" and len(args) > 1:
                args = [mk("tuple", *args)]
            return self.call_ext(mk("ext", "numpy." + name), [v] + list(args), kw, st, node)
        A = mk("tuple", *[self.deep(st, a) for a in args])
        K = mk_kw({k: self.deep(st, x) for k, x in kw.items()})
        if name == "resize" and not K.a and len(A.a) == 1:
            pass
        if name == "resize":
            A, K = bind_ext(["size", "resample"], A, K)
        if name == "write" and len(A.a) == 1:
            self.event("write", v, dict(data=A.a[0]), st, node)
            return NONE
        if name == "get" and A.a and len(A.a) <= 2 and not K.a:
            r = mk("method", "get", v, A, K)
            return r
        val = mk("method", name, v, A, K)
        self.event("method", name, dict(recv=v, args=A, kw=K), st, node, value=val)
        return val

    def fresh_array(self, st, v):
        return self.new_ref(st, v, "array")

    def dtype(self, d):
        if d.op == "str":
            n = DTYPE_STR.get(d.a[0], "dtype:" + d.a[0])
            return mk("ext", n)
        if d.op == "ext":
            return mk("ext", DTYPE_CANON.get(d.a[0], d.a[0]))
        return d

    def held_by(self, st, o):
        """(dict, key) whose current value is the untracked list o."""
        for r, c in st.heap.items():
            if not isinstance(r, T) or r.op != "ref" or r.a[1] != "dict" or not isinstance(c, T):
                continue
            if o.op == "index" and o.a[0] is c:
                return r, o.a[1]
            if c.op == "dstore" and c.a[2] is o:
                return r, c.a[1]
            if c.op == "ddict" and o.op == "index" and o.a[0] is c:
                return r, o.a[1]
        return None

    def list_method(self, o, c, name, args, kw, st, node):
        if o.op != "ref" and name in ("append", "extend"):
            h = self.held_by(st, o)
            if h is not None and len(args) == 1:
                more = mk("list", args[0]) if name == "append" else self.iter_list(st, args[0])
                self.setitem(h[0], h[1], self.concat(o, more), st, node)
                return NONE
        if o.op != "ref":
            if name in ("append", "extend", "insert", "sort"):
                o = self.identify(st, o, "list")
                st.heap[o] = c
            else:
                if name == "index" and len(args) == 1:
                    return mk("method", "index", self.deep(st, o), mk("tuple", self.deep(st, args[0])), mk_kw({}))
                if name == "count":
                    return None
                return None
        if name == "append" and len(args) == 1:
            st.heap[o] = self.concat(c, mk("list", args[0]))
            return NONE
        if name == "extend" and len(args) == 1:
            st.heap[o] = self.concat(c, self.iter_list(st, args[0]))
            return NONE
        if name == "insert" and len(args) == 2 and args[0] is ZERO:
            st.heap[o] = self.concat(mk("list", args[1]), c)
            return NONE
        if name == "insert" and len(args) == 2 and args[0].op == "num" and c.op == "list":
            els = list(c.a)
            els.insert(int(args[0].a[0]), args[1])
            st.heap[o] = mk("list", *els)
            return NONE
        if name == "remove" and len(args) == 1 and c.op == "list":
            els, v = list(c.a), self.deep(st, args[0])
            hits = [compare_terms("Eq", self.deep(st, x), v) for x in els]
            while hits and hits[0] is FALSE and TRUE in hits:
                i = next((k for k, h in enumerate(hits) if h is not FALSE), None)
                if hits[i] is TRUE:
                    st.heap[o] = mk("list", *(els[:i] + els[i + 1:]))
                    return NONE
                break
            if hits and hits[0] is TRUE:
                st.heap[o] = mk("list", *els[1:])
                return NONE
        if name == "copy":
            return self.new_ref(st, c, "list")
        if name == "pop":
            if c.op == "list" and c.a and (not args or args[0].op == "num"):
                k = args[0].a[0] if args else -1
                els = list(c.a)
                v = els.pop(k)
                st.heap[o] = mk("list", *els)
                return v
            st.heap[o] = mk("opq", "popped")
            return mk("opq", "pop")
        if name == "sort":
            st.heap[o] = mk("call", mk("ext", "builtins.sorted"), mk("tuple", c), mk_kw(kw))
            return NONE
        if name == "reverse":
            st.heap[o] = mk("reversed", c)
            return NONE
        if name == "clear":
            st.heap[o] = mk("list")
            return NONE
        if name in ("index", "count"):
            return mk("method", name, self.deep(st, c), mk("tuple", *[self.deep(st, a) for a in args]), mk_kw({}))
        return None

    def dict_method(self, o, c, name, args, kw, st, node):
        if name == "items":
            if c.op == "dict":
                return mk("list", *[mk("tuple", k, v) for k, v in dict_items(c)])
            return mk("ditems", self.deep(st, c))
        if name == "keys":
            return mk("list", *[k for k, _ in dict_items(c)]) if c.op == "dict" else mk("keys", c)
        if name == "values":
            return mk("list", *[v for _, v in dict_items(c)]) if c.op == "dict" else mk("dvalues", c)
        if name == "get":
            k = self.deep(st, args[0])
            d = args[1] if len(args) > 1 else kw.get("default", NONE)
            if c.op == "dict" and all(X.is_const(x) for x, _ in dict_items(c)):
                if X.is_const(k):
                    dd = dict(dict_items(c))
                    return dd.get(k, d)
                # a finite table looked up by a symbolic key
                r = d
                for kk, vv in reversed(dict_items(c)):
                    r = ite(compare_terms("Eq", k, kk), vv, r)
                return r
            return ite(self.contains(k, c, st), index(c, k), d)
        if name == "copy":
            return self.new_ref(st, c, "dict")
        if o.op != "ref":
            return None
        if name == "update":
            items = dict_items(c) if c.op == "dict" else None
            for a in args:
                ca = self.cell(st, a)
                if items is not None and ca.op == "dict":
                    items += dict_items(ca)
                else:
                    items = None
                    c = mk("mdictupd", c, self.deep(st, ca))
            if items is not None:
                items += [(const(k), v) for k, v in kw.items() if k != "**"]
                st.heap[o] = mk_dict(items)
            else:
                for k, v in kw.items():
                    c = mk("dstore", c, const(k), v)
                st.heap[o] = c
            return NONE
        if name == "pop":
            return self.method_pop(o, args, st, node)
        if name == "setdefault":
            k = self.deep(st, args[0])
            d = args[1] if len(args) > 1 else NONE
            has = self.contains(k, c, st)
            if has is TRUE:
                return index(c, k)
            if has is FALSE:
                self.setitem(o, k, d, st, node)
                return d
            v = ite(has, index(c, k), self.deep(st, d))
            self.setitem(o, k, v, st, node)
            return v
        if name == "clear":
            st.heap[o] = mk("dict")
            return NONE
        if name == "move_to_end":
            k = args[0]
            last = kw.get("last", args[1] if len(args) > 1 else TRUE)
            if c.op == "dict":
                items = dict_items(c)
                it = [(a, b) for a, b in items if a is k]
                ot = [(a, b) for a, b in items if a is not k]
                st.heap[o] = mk_dict(ot + it if last is TRUE else it + ot)
            return NONE
        return None

    def method_pop(self, o, args, st, node):
        o = self.alias(st, o)
        self.event("mutate", "del", dict(target=o), st, node)
        c = self.cell(st, o)
        k = self.deep(st, args[0]) if args else None
        d = args[1] if len(args) > 1 else UNDEF
        if o.op == "ref" and c.op == "dict" and k is not None:
            items = dict_items(c)
            v = [b for a, b in items if a is k]
            st.heap[o] = mk_dict([(a, b) for a, b in items if a is not k])
            return v[0] if v else d
        if o.op == "ref":
            st.heap[o] = mk("dpop", c, k if k is not None else NONE)
        return index(c, k) if k is not None else mk("opq", "pop")

    def str_method(self, s, name, args, kw):
        if name == "zfill" and len(args) == 1:
            return zfill(s, args[0])
        if name == "format" and s.op == "str":
            return str_format(s.a[0], args, kw)
        if name == "format" and s.op in ("cat", "ite"):
            if s.op == "ite" and s.a[1].op == "str" and s.a[2].op == "str":
                return ite(s.a[0], str_format(s.a[1].a[0], args, kw), str_format(s.a[2].a[0], args, kw))
        if s.op == "str" and all(X.is_const(a) for a in args):
            try:
                r = getattr(s.a[0], name)(*[X.pyval(a) for a in args])
                if isinstance(r, (str, bool, int)):
                    return const(r)
                if isinstance(r, list):
                    return mk("list", *[const(x) for x in r])
            except Exception:
                return None
        if name == "join" and len(args) == 1:
            if args[0].op in ("list", "tuple"):
                out = []
                for k, x in enumerate(args[0].a):
                    if k:
                        out.append(s)
                    out.append(x)
                return cat(*out)
            return mk("strjoin", s, args[0])
        if name in ("splitlines",) and not args and not kw:
            return mk("splitlines", s)
        if not kw:
            return strings.str_fn(name, s, args)
        return None

    # command lines ---------------------------------------------------------
    def parser_method(self, o, c, name, args, kw, st):
        """argparse: every option is a symbol of its type (or the value set in self.cli)."""
        if name == "add_argument":
            names = [self.deep(st, a) for a in args]
            if not names or any(a.op != "str" for a in names):
                return None
            names = [a.a[0] for a in names]
            kw = {k: self.deep(st, v) for k, v in kw.items()}
            opt = next((n for n in names if n.startswith("--")), names[0])
            pos = not opt.startswith("-")
            dest = opt.lstrip("-").replace("-", "_")
            if "dest" in kw and kw["dest"].op == "str":
                dest = kw["dest"].a[0]
            act = kw["action"].a[0] if "action" in kw and kw["action"].op == "str" else "store"
            ty = kw.get("type")
            default = kw.get("default", NONE)
            if act in ("store_true", "store_false"):
                kind = "bool"
                if default is NONE:
                    default = const(act == "store_false")
            elif act != "store" or "nargs" in kw:
                kind = "any"
            else:
                n = ty.a[0] if ty is not None and ty.op == "ext" else None
                kind = {"builtins.int": "int", "builtins.float": "float", "builtins.str": "str",
                        None: "str" if ty is None else "any"}.get(n, "any")
            flag = act == "store_false"
            spec = mk("tuple", const(opt), const(dest), const(kind), default, const(flag), const(pos))
            st.heap[o] = mk("parser", *[x for x in c.a], spec)
            return NONE
        if name in ("add_argument_group", "add_mutually_exclusive_group"):
            return o
        if name == "set_defaults":
            add = [mk("tuple", const("=" + k), const(k), const("set"), self.deep(st, v), FALSE, FALSE)
                   for k, v in kw.items()]
            st.heap[o] = mk("parser", *c.a, *add)
            return NONE
        if name in ("parse_args", "parse_known_args") and not args:
            items = {}
            for sp in c.a:
                opt, dest, kind, default, flag, pos = sp.a
                kind = kind.a[0]
                if kind == "set":
                    items[dest] = default
                    continue
                opt = opt.a[0]
                sym = mk("sym", opt, kind)
                v = self.cli.get(opt, sym)
                if flag is TRUE:
                    v = not_(v)
                self.cli_opts[opt] = (dest.a[0], kind, default, sym, pos is TRUE, flag)
                items[dest] = v
            ns = self.new_ref(st, mk_dict(list(items.items())), "ns")
            return ns if name == "parse_args" else mk("tuple", ns, mk("list"))
        return None

    # process pools ---------------------------------------------------------
    def pool_method(self, c, name, args, kw, st, node):
        if name in ("map", "imap", "starmap", "imap_unordered", "map_async", "starmap_async"):
            f, it = args[0], args[1]
            self.event("poolmap", name, dict(pool=self.deep(st, c)), st, node)
            ini = c.a[1]
            if ini is not NONE:
                d = self.cell(st, c.a[2])
                els = list(d.a) if d.op in ("list", "tuple") else [mk("star", d)]
                n = len(self.events)
                self.call(ini, els, {}, st, node)
                self.started.update((id(e), e) for e in self.events[n:])  # happens in the new process
            r = self.map_call(f, it, st, node, star=name.startswith("starmap"))
            if name == "imap_unordered":
                return mk("unordered", self.deep(st, r))
            if name.endswith("_async"):
                self.pending.append((c, r, self.events[-1], self.where(node)))
                return mk("asyncres", r, num(len(self.pending)))
            return r
        if name in ("close", "join", "terminate"):
            if name == "join":
                self.pending = [p for p in self.pending if p[0] is not c]
            self.event("pool", name, {}, st, node)
            return NONE
        return None

    def map_call(self, f, it, st, node, star=False):
        """[f(x) for x in it], with f's effects."""
        src = "[__f(__x) for __x in __it]" if not star else "[__f(*__x) for __x in __it]"
        tree = ast.parse(
            "__r = []\nfor __x in __it:\n    __r.append(__f(%s__x))\n" % ("*" if star else ""))
        for n in ast.walk(tree):
            n._sa_file, n.lineno = self.where(node)
        tmp = State({"__f": f, "__it": it}, st.heap, st.pc)
        env = st.env
        st2 = State(dict(env), st.heap, st.pc)
        st2.env.update(tmp.env)
        r = self.exec_block(tree.body, st2)
        if r is None:
            return mk("opq", "map")
        st.heap = r.heap
        return r.env["__r"]

    # external calls ----------------------------------------------------------
    def call_ext(self, f, args, kw, st, node):
        n = f.a[0]
        if n.startswith("op."):
            return self.ext_op(n[3:], args, kw, st, node)
        if n in self.stand_ins:
            return self.instantiate(mk("cls", self.stand_ins[n]), args, kw, st, node)
        h = EXT.get(n)
        if h is None and n.startswith("native."):
            return self.native(n[7:], args, kw, st, node)
        if h is not None:
            r = h(self, args, kw, st, node)
            if r is not None:
                return r
        A = mk("tuple", *[self.deep(st, a) for a in args])
        K = mk_kw({k: self.deep(st, v) for k, v in kw.items()})
        out = None
        if n.startswith("numpy.") and "out" in kw and kw["out"].op != "none":
            # f(..., out=x): x takes the value, converted to its own type
            out = kw["out"]
            K = mk_kw({k: v for k, v in kw_dict(K).items() if k != "out"})
        if n in EXT_SIG:
            A, K = bind_ext(EXT_SIG[n], A, K, n)
        A, K = bind_lib(n, A, K)
        if n == "builtins.open":
            self.event("open", "open", dict(args=A, kw=K), st, node)
            return self.open_file(A, K, st)
        val = mk("call", f, A, K)
        self.event("ext", n, dict(args=A, kw=K), st, node, value=val,
                   full=None)
        if out is not None:
            return self.write_out(out, val, st, node)
        return val

    def write_out(self, out, val, st, node):
        o = self.alias(st, out)
        if o.op != "ref":
            self.event("setitem", "value", dict(target=self.deep(st, o), value=val), st, node)
            o = self.identify(st, o, "array")
        else:
            self.event("setitem", "array", dict(target=o, value=val), st, node)
        st.heap[o] = val
        return o

    def open_file(self, A, K, st):
        """A file opened for writing is a location whose content is the text written."""
        mode = A.a[1] if len(A.a) > 1 else const("r")
        if mode.op != "str" or mode.a[0][:1] not in ("w", "x", "a"):
            return mk("file", *A.a[:2])
        r = self.new_ref(st, X.EMPTY, "file")
        self.files[r] = (A.a[0], mode.a[0], and_(st.pc, self.guard()))
        return r

    def file_write(self, r, data, st, node):
        self.event("write", mk("file", self.files[r][0], const(self.files[r][1])), dict(data=data), st, node)
        st.heap[r] = cat(st.heap[r], data)
        return NONE

    def native(self, n, args, kw, st, node):
        if n == "Matrix" and len(args) >= 2:
            return self.new_ref(st, mk("cmatrix", self.deep(st, args[0]), self.deep(st, args[1]),
                                       mk("str", "not set")), "cmatrix")
        A = [self.deep(st, a) for a in args]
        T_ = mk("tuple", *A)
        for k, a in enumerate(args):
            if a.op == "ref" and a.a[1] == "cmatrix" and st.heap[a].a[2] is mk("str", "not set") and (
                    st.heap[a].a[0] is NONE):
                st.heap[a] = mk("cmatrix", NONE, NONE, mk("nativeout", n, k, T_))
        val = mk("native", n, T_)
        self.event("native", n, dict(args=T_), st, node, value=val)
        return val

    def ext_op(self, op, args, kw, st, node):
        out = kw.get("out")
        if out is None or out.op == "none":
            return self.ext_value(op, args, {k: v for k, v in kw.items() if k != "out"}, st, node)
        return self.write_out(out, self.ext_value(op, args, kw, st, node), st, node)

    def ext_value(self, op, args, kw, st, node):
        if op == "not":
            v = self.deref(st, args[0])
            return elem_not(v)
        if op == "~":
            return invert(self.deref(st, args[0]))
        if op == "neg":
            return neg(self.deref(st, args[0]))
        if len(args) < 2:
            return mk("call", mk("ext", "op." + op), mk("tuple", *[self.deep(st, a) for a in args]), mk_kw(kw))
        a, b = self.deep(st, args[0]), self.deep(st, args[1])
        out = kw.get("out")
        if set(kw) - {"out"}:
            if op == "/" and "where" in kw:
                w = self.deep(st, kw["where"])
                o = self.deep(st, out) if out is not None else mk("opq", "uninitialised")
                self.event("div", "Div", dict(num=a, den=b, where=w), st, node)
                r = ite(w, div(a, b), _scalarise(o))
                return r
            return mk("call", mk("ext", "op." + op), mk("tuple", a, b), mk_kw({k: self.deep(st, v) for k, v in kw.items()}))
        names = {"+": "Add", "-": "Sub", "*": "Mult", "/": "Div", "%": "Mod", "|": "BitOr",
                 "&": "BitAnd", "//": "FloorDiv", "**": "Pow", ">": "Gt", ">=": "GtE", "<": "Lt", "<=": "LtE",
                 "==": "Eq", "!=": "NotEq"}
        if op == "lor":
            r = or_(elem_truth(a), elem_truth(b))
        elif op == "land":
            r = and_(elem_truth(a), elem_truth(b))
        elif names[op] in ("Gt", "GtE", "Lt", "LtE", "Eq", "NotEq"):
            r = compare_terms(names[op], a, b)
        else:
            if names[op] == "Div":
                self.event("div", "Div", dict(num=a, den=b), st, node)
            r = arith(names[op], a, b)
        return r


def filtered_array(c):
    """(array, condition at i) of a one-dimensional array filtered by a condition on itself."""
    if c.op == "index" and X.boolish(c.a[1]) and c.a[0].op == "call" and c.a[0].a[0].op == "ext" and (
            c.a[0].a[0].a[0] in ("numpy.unique",)):
        base = c.a[0]

        def at(i):
            return X.subst(c.a[1], lambda x: index(base, i) if x is base else None)
        return base, at
    return None


class Domain:
    def __init__(self, n, elem, known, guard=None):
        self.guard = guard or (lambda i: TRUE)
        self.n = n
        self.elem = elem
        self.known = known


def _lk(loc):
    return loc[0] + ":" + (repr(loc[1].a) if isinstance(loc[1], T) else repr(loc[1]))


def dfs_mus(t):
    """mu leaves in first-visit order."""
    out = []
    seen = set()

    def go(x):
        if x in seen or not x.mus:
            return
        seen.add(x)
        if x.op == "mu":
            out.append(x)
            return
        for c in x.a:
            if isinstance(c, T):
                go(c)

    go(t)
    return out


def mk_kw(d):
    args = []
    for k in sorted(d):
        args += [k, d[k]]
    return mk("kw", *args)


def kw_dict(K):
    return {K.a[i]: K.a[i + 1] for i in range(0, len(K.a), 2)}


def bind_ext(sig, A, K, name=None):
    pos = list(A.a)
    if any(x.op == "star" for x in pos):
        return A, K
    d = kw_dict(K)
    if name == "numpy.arange" and len(pos) == 1:
        pos = [ZERO] + pos
    out = {}
    for k, v in enumerate(pos):
        if k < len(sig):
            out[sig[k]] = v
        else:
            out["#%d" % k] = v
    for k, v in d.items():
        out[k] = v
    for (nm, k), v in EXT_DEFAULT.items():
        if nm == name and k not in out:
            out[k] = v
    res = []
    i = 0
    while i < len(sig) and sig[i] in out:
        res.append(out.pop(sig[i]))
        i += 1
    return mk("tuple", *res), mk_kw(out)


def bind_lib(name, A, K):
    """Positional and keyword arguments in one canonical form, defaults dropped."""
    sig = library.signature(name)
    if not sig or any(x.op == "star" for x in A.a):
        return A, K
    names = [p[0] for p in sig if p[1] in ("po", "pk")]
    if len(A.a) > len(names):
        return A, K
    given = dict(zip(names, A.a))
    for k, v in kw_dict(K).items():
        if k in given or k.startswith("#"):
            return A, K
        given[k] = v
    for nm, kind, d in sig:
        if d is not None and d[0] == "v" and nm in given and given[nm] is const(d[1]) and (name, nm) not in EXT_DEFAULT:
            del given[nm]
    res = []
    for nm in names:
        if nm not in given:
            break
        res.append(given.pop(nm))
    return mk("tuple", *res), mk_kw(given)


def has_yield(fn):
    st = list(fn.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def strip_counter(body, name):
    """Body without its single top-level `name += 1` (else None)."""
    out = []
    hit = 0
    for s in body:
        if (
            isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name)
            and s.target.id == name
        ) or (
            isinstance(s, ast.Assign) and len(s.targets) == 1
            and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name
        ):
            hit += 1
            continue
        out.append(s)
    for s in out:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                return None
            if isinstance(n, ast.Continue):
                return None
    # the counter must not be used after its increment
    seen = False
    for s in body:
        if s not in out:
            seen = True
            continue
        if seen and any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(s)):
            return None
    return out if hit == 1 else None


def is_seq(t):
    return t.op in ("list", "tuple", "maplist", "concat", "tolist", "flatmap", "repeat")


def all_of_it(i):
    if i.op == "ellipsis":
        return True
    if i.op == "slice":
        return all(x.op == "none" for x in i.a)
    return i.op == "tuple" and all(all_of_it(x) for x in i.a)


def norm_index(i):
    if i.op == "tuple":
        a = list(i.a)
        while len(a) > 1 and (a[-1].op == "ellipsis" or (
            a[-1].op == "slice" and all(x.op == "none" for x in a[-1].a))):
            a.pop()
        if len(a) == 1:
            return a[0]
        return mk("tuple", *a)
    return i


def distinct(i, j):
    if i is j:
        return False
    if X.is_const(i) and X.is_const(j):
        return True
    if i.op == "tuple" and j.op == "tuple" and len(i.a) == len(j.a):
        return any(X.is_const(a) and X.is_const(b) and a is not b for a, b in zip(i.a, j.a))
    return False


def shape_like(base, v):
    return True


def _scalarise(o):
    if o.op == "zeros":
        return ZERO
    return o


def elem_truth(t):
    if X.boolish(t) or t.op in ("bool",):
        return t
    if t.op in ("num",):
        return const(bool(t.a[0]))
    return truth(t)


def elem_not(v):
    return not_(elem_truth(v))


def invert(v):
    if X.boolish(v):
        return not_(v)
    return mk("invert", v)


def arith(op, a, b):
    if op == "Add":
        if stringy(a) or stringy(b):
            return cat(a, b)
        return add(a, b)
    if op == "Sub":
        return sub(a, b)
    if op == "Mult":
        if X.boolish(a) and X.boolish(b):
            return and_(a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == "str" and y.op == "num":
                return const(x.a[0] * y.a[0])
        return mul(a, b)
    if op == "Div":
        return div(a, b)
    if op == "FloorDiv":
        if a.op == "num" and b.op == "num" and b.a[0]:
            return num(a.a[0] // b.a[0])
        return mk("floordiv", a, b)
    if op == "Mod":
        if a.op == "str":
            return percent(a.a[0], b)
        if a.op == "num" and b.op == "num" and b.a[0]:
            return num(a.a[0] % b.a[0])
        return mk("mod_", a, b)
    if op == "Pow":
        if a.op == "num" and b.op == "num" and abs(b.a[0]) <= 64:
            return num(a.a[0] ** b.a[0])
        if b.op == "num" and b.a[0] in (0.5,):
            return mk("call", mk("ext", "numpy.sqrt"), mk("tuple", a), mk("kw"))
        if b.op == "num" and isinstance(b.a[0], int) and 0 < b.a[0] <= 4:
            r = a
            for _ in range(b.a[0] - 1):
                r = mul(r, a)
            return r
        return mk("pow", a, b)
    if op == "BitOr":
        return bor(a, b)
    if op == "BitAnd":
        return band(a, b)
    if op == "BitXor":
        return mk("xor", *sorted((a, b)))
    if op == "LShift":
        if a.op == "num" and b.op == "num":
            return num(a.a[0] << b.a[0])
        return mul(a, binop_pow2(b))
    if op == "RShift":
        if a.op == "num" and b.op == "num":
            return num(a.a[0] >> b.a[0])
        return mk("floordiv", a, binop_pow2(b))
    if op == "MatMult":
        return mk("matmul", a, b)
    return mk("opq", op)


def binop_pow2(b):
    if b.op == "num" and isinstance(b.a[0], int) and 0 <= b.a[0] <= 64:
        return num(2 ** b.a[0])
    return mk("pow", num(2), b)


def stringy(t):
    if t.op == "index":
        # a slice of a text, or an element of a split text
        if t.a[1].op == "slice":
            return stringy(t.a[0])
        b = t.a[0]
        return b.op == "method" and b.a[0] in ("split", "rsplit") and stringy(b.a[1]) or b.op == "splitlines"
    if t.op == "method" and t.a[0] in ("strip", "rstrip", "lstrip", "lower", "upper", "replace", "removesuffix",
                                       "removeprefix"):
        return stringy(t.a[1])
    return t.op in ("str", "cat", "tostr", "zfill", "fmt", "strjoin") or (
        t.op == "sym" and t.a[1] in ("str", "word"))


def _ismax(x):
    return x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "numpy.max" and len(x.a[1].a) == 1 and not x.a[2].a


def _arr_of(x):
    return x.a[1].a[0] if x.op == "call" else x.a[0]


def compare_terms(op, a, b):
    m = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op]
    if a.op == "set" and b.op == "set" and all(x.op in ("num", "str") for x in a.a + b.a):
        p, q = set(a.a), set(b.a)
        return const({"==": p == q, "!=": p != q, "<": p < q, "<=": p <= q, ">": p > q, ">=": p >= q}[m])
    # counts: positive count of x  <=>  any(x)
    for x, y, o in ((a, b, m), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(m, m))):
        if (x.op in ("count", "sum") or _ismax(x)) and y.op == "num":
            if (o == ">" and y.a[0] == 0) or (o == "!=" and y.a[0] == 0) or (o == ">=" and y.a[0] == 1):
                return X.mk_any(_arr_of(x))
            if (o == "==" and y.a[0] == 0) or (o == "<" and y.a[0] == 1) or (o == "<=" and y.a[0] == 0):
                return not_(X.mk_any(_arr_of(x)))
    if m in ("==", "!=") and (a.op == "none" or b.op == "none"):
        return cmp_("is" if m == "==" else "isnot", a, b)
    # boolean arrays compared with 0
    for x, y in ((a, b), (b, a)):
        if X.boolish(x) and x.op not in ("bool",) and y.op in ("num", "bool"):
            v = y.a[0]
            if m == "==":
                return x if v in (1, True) else not_(x) if v in (0, False) else FALSE
            if m == "!=":
                return not_(x) if v in (1, True) else x
            if m == ">" and x is a and v == 0:
                return x
            if m == "<" and x is b and v == 0:
                return x
    return cmp_(m, a, b)


def zfill(s, n):
    if s.op == "str" and n.op == "num":
        return const(s.a[0].zfill(n.a[0]))
    return mk("zfill", s, n)


def fmt(v, spec):
    if spec in ("", "s") or (spec == "d"):
        if v.op == "str" or spec != "d":
            return tostr(v)
        return tostr(v)
    m = re.fullmatch(r"0(>?)(\d+)d?", spec) or re.fullmatch(r"0>(\d+)d?", spec)
    m = re.fullmatch(r"(?:0>|0)(\d+)d?", spec)
    if m:
        return zfill(tostr(v), num(int(m.group(1))))
    if X.is_const(v):
        try:
            return const(format(X.pyval(v), spec))
        except Exception:
            pass
    return mk("fmt", v, spec)


def str_format(s, args, kw):
    parts = []
    auto = 0
    try:
        pieces = list(_string.Formatter().parse(s))
    except ValueError:
        return mk("opq", "format")
    for lit, field, spec, conv in pieces:
        if lit:
            parts.append(const(lit))
        if field is None:
            continue
        m = re.match(r"^([^.\[]*)(.*)$", field)
        key, rest = m.group(1), m.group(2)
        if key == "":
            v = args[auto] if auto < len(args) else mk("opq", "format arg")
            auto += 1
        elif key.isdigit():
            v = args[int(key)] if int(key) < len(args) else mk("opq", "format arg")
        else:
            v = kw.get(key)
            if v is None:
                v = index(kw["**"], const(key)) if "**" in kw else mk("opq", "format key " + key)
        for am in re.finditer(r"\.(\w+)|\[([^\]]+)\]", rest):
            if am.group(1):
                v = attr(v, am.group(1))
            else:
                kk = am.group(2)
                v = index(v, num(int(kk)) if kk.isdigit() else const(kk))
        if "{" in (spec or ""):
            return mk("opq", "format spec")
        parts.append(fmt(v, spec or ""))
    return cat(*parts)


def percent(s, b):
    vals = list(b.a) if b.op == "tuple" else [b]
    parts = []
    pos = 0
    k = 0
    for m in re.finditer(r"%(?:\((\w+)\))?([-0+ #]*\d*(?:\.\d+)?)([sdifgeExXr%])", s):
        parts.append(const(s[pos:m.start()]))
        pos = m.end()
        if m.group(3) == "%":
            parts.append(const("%"))
            continue
        if m.group(1):
            v = index(b, const(m.group(1)))
        else:
            v = vals[k] if k < len(vals) else mk("opq", "format arg")
            k += 1
        sp = m.group(2)
        ty = m.group(3)
        if ty in "sdi" and not sp:
            parts.append(tostr(v))
        elif ty in "di" and re.fullmatch(r"0\d+", sp):
            parts.append(zfill(tostr(v), num(int(sp))))
        else:
            if sp.startswith("-"):
                sp = "<" + sp[1:]
            parts.append(fmt(v, sp + (ty if ty not in "s" else "")))
    parts.append(const(s[pos:]))
    return cat(*parts)


# ---------------------------------------------------------------- external models
EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def _arr(I, st, content):
    return I.new_ref(st, content, "array")


@ext("numpy.zeros", "numpy.empty")
def _zeros(I, a, k, st, node):
    sh = I.deep(st, a[0] if a else k.get("shape", NONE))
    d = I.dtype(I.deep(st, a[1] if len(a) > 1 else k.get("dtype", mk("ext", "builtins.float"))))
    if not _shaped(sh):
        sh = mk("tuple", sh)
    if sh.op == "list":
        sh = mk("tuple", *sh.a)
    return _arr(I, st, mk("zeros", sh, d))


def _shaped(t):
    """Whether a size argument is a shape rather than a single number."""
    if t.op == "ite":
        return _shaped(t.a[1]) and _shaped(t.a[2])
    return t.op in ("tuple", "list", "attr", "concat")


@ext("numpy.zeros_like", "numpy.empty_like")
def _zeros_like(I, a, k, st, node):
    v = I.deep(st, a[0])
    d = a[1] if len(a) > 1 else k.get("dtype")
    d = I.dtype(d) if d is not None else mk("attr", v, "dtype")
    return _arr(I, st, mk("zeros", attr(v, "shape"), d))


@ext("numpy.ones")
def _ones(I, a, k, st, node):
    sh = I.deep(st, a[0] if a else k.get("shape", NONE))
    d = a[1] if len(a) > 1 else k.get("dtype")
    return _arr(I, st, mk("full", sh, ONE))


@ext("numpy.full")
def _full(I, a, k, st, node):
    sh = I.deep(st, a[0])
    v = I.deep(st, a[1] if len(a) > 1 else k.get("fill_value", ZERO))
    if v is ZERO:
        return _arr(I, st, mk("zeros", sh, I.dtype(I.deep(st, k.get("dtype", mk("ext", "builtins.float"))))))
    return _arr(I, st, mk("full", sh, v))


@ext("numpy.full_like", "numpy.ones_like")
def _full_like(I, a, k, st, node):
    return None


@ext("numpy.array", "numpy.copy")
def _array_copy(I, a, k, st, node):
    c = k.get("copy")
    if c is not None and c is not TRUE:
        return _array(I, a, k, st, node)
    return _arr(I, st, _array(I, a, k, st, node))


@ext("numpy.asarray", "numpy.ascontiguousarray", "numpy.asfortranarray", "numpy.require")
def _array(I, a, k, st, node):
    v = I.deep(st, a[0])
    d = a[1] if len(a) > 1 and node is not None else k.get("dtype")
    if v.op in ("list", "tuple", "maplist", "concat", "range"):
        v = mk("call", mk("ext", "numpy.array"), mk("tuple", v), mk("kw"))
    elif v.op == "num" or v.op == "sym" and v.a[1] in ("list", "strlist", "tuple", "float", "int"):
        v = mk("call", mk("ext", "numpy.array"), mk("tuple", v), mk("kw"))
    if v.op in ("method",) and v.a[0] in ("resize",) or v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0].startswith("PIL."):
        v = mk("asarray", v)
    elif v.op == "sym" and v.a[1] in ("any", "image"):
        v = mk("asarray", v)
    if d is not None:
        return astype(v, I.dtype(I.deep(st, d)))
    return v


def _noaxis(a, k):
    return len(a) == 1 and not (set(k) - {"dtype"})


@ext("numpy.sum")
def _sum(I, a, k, st, node):
    v = I.deep(st, a[0])
    if _noaxis(a, k):
        return total(v)
    ax = a[1] if len(a) > 1 else k.get("axis")
    if ax is not None and len(a) <= 2 and set(k) <= {"axis", "dtype"}:
        rows = v.a[1].a[0] if v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] in (
            "numpy.array", "numpy.asarray", "numpy.stack", "numpy.vstack") and len(v.a[1].a) == 1 and not v.a[2].a else v
        if X.SUM_ROWS and rows.op == "maplist" and I.deep(st, ax) is ZERO:
            return total(rows)
        return mk("sumaxis", v, I.deep(st, ax))
    return None


@ext("numpy.mean", "statistics.mean")
def _mean(I, a, k, st, node):
    v = I.deep(st, a[0])
    if len(a) == 1 and not k and v.op == "maplist" and v.a[2] is TRUE:
        return X.div(total(v), length(v))
    return None


@ext("builtins.sum")
def _bsum(I, a, k, st, node):
    v = I.deep(st, a[0])
    init = I.deep(st, a[1]) if len(a) > 1 else I.deep(st, k.get("start", ZERO))
    if v.op in ("list", "tuple") and all(x.op != "star" for x in v.a):
        r = init
        for x in v.a:
            r = arith("Add", r, x)
        return r
    if v.op == "maplist":
        return add(init, total(v)) if init is not ZERO else total(v)
    return add(init, mk("reduce", "+", ZERO, length(v), X.abstract(index(v, mk("iv", -1)), -1)))


@ext("numpy.count_nonzero")
def _cnz(I, a, k, st, node):
    v = I.deep(st, a[0])
    if not _noaxis(a, k):
        return None
    return mk("count", v)


@ext("numpy.any", "builtins.any")
def _any(I, a, k, st, node):
    if not _noaxis(a, k):
        return None
    v = I.deep(st, a[0])
    if v.op in ("list", "tuple"):
        return or_(*[truth(x) for x in v.a])
    if v.op == "maplist":
        return mk("exists", v.a[0], v.a[1] if v.a[2] is TRUE else and_(v.a[1], v.a[2]))
    return X.mk_any(v)


@ext("numpy.all", "builtins.all")
def _all(I, a, k, st, node):
    if not _noaxis(a, k):
        return None
    v = I.deep(st, a[0])
    if v.op in ("list", "tuple"):
        return and_(*[truth(x) for x in v.a])
    if v.op == "maplist":
        return not_(mk("exists", v.a[0], not_(truth(v.a[1])) if v.a[2] is TRUE else and_(not_(truth(v.a[1])), v.a[2])))
    if v.op == "cmp" and v.a[0] == "==" and ZERO in v.a[1:]:
        return not_(X.mk_any(v.a[1] if v.a[2] is ZERO else v.a[2]))
    if X.boolish(v):
        return not_(X.mk_any(not_(v)))
    return mk("all", v)


@ext("numpy.flatnonzero")
def _flatnonzero(I, a, k, st, node):
    if len(a) == 1 and not k:
        return mk("flatnz", elem_truth(I.deep(st, a[0])))
    return None


@ext("numpy.where")
def _where(I, a, k, st, node):
    if len(a) == 3:
        return X.sel(elem_truth(I.deep(st, a[0])), I.deep(st, a[1]), I.deep(st, a[2]))
    return None


@ext("numpy.copyto")
def _copyto(I, a, k, st, node):
    if set(k):
        return None
    dst = I.alias(st, a[0])
    if dst.op == "ref":
        st.heap[dst] = mk("copied", I.deep(st, a[1]))
        return NONE
    return None


@ext("numpy.frombuffer")
def _frombuffer(I, a, k, st, node):
    b = I.alias(st, a[0])
    if b.op == "ref":
        return b
    return None


@ext("multiprocessing.RawArray", "multiprocessing.sharedctypes.RawArray")
def _raw(I, a, k, st, node):
    r = I.new_ref(st, mk("shared", *[I.deep(st, x) for x in a]), "array")
    I.shared.add(r)
    return r


@ext("multiprocessing.Pool")
def _pool(I, a, k, st, node):
    n = a[0] if a else k.get("processes", NONE)
    ini = a[1] if len(a) > 1 else k.get("initializer", NONE)
    ia = a[2] if len(a) > 2 else k.get("initargs", mk("tuple"))
    I.event("pool", "Pool", dict(nproc=n), st, node)
    return mk("pool", I.deep(st, n), ini, ia)


@ext("numpy.transpose")
def _transpose(I, a, k, st, node):
    v = I.deep(st, a[0])
    ax = a[1] if len(a) > 1 else k.get("axes", NONE)
    ax = I.deep(st, ax)
    if ax.op == "list":
        ax = mk("tuple", *ax.a)
    return mk("transpose", v, ax)


@ext("numpy.moveaxis")
def _moveaxis(I, a, k, st, node):
    if len(a) == 3:
        s, d = I.deep(st, a[1]), I.deep(st, a[2])
        if s.op == "num" and d.op == "num" and s.a[0] in (2, -1) and d.a[0] == 0:
            return mk("transpose", I.deep(st, a[0]), mk("tuple", num(2), ZERO, ONE))
    return None


@ext("numpy.expand_dims")
def _expand(I, a, k, st, node):
    ax = a[1] if len(a) > 1 else k.get("axis")
    ax = I.deep(st, ax)
    v = I.deep(st, a[0])
    full = mk("slice", NONE, NONE, NONE)
    if ax.op == "num" and ax.a[0] in (2, -1):
        return index(v, mk("tuple", full, full, NONE))
    return None


@ext("numpy.shape")
def _shape(I, a, k, st, node):
    return attr(I.deep(st, a[0]), "shape")


@ext("numpy.sqrt")
def _sqrt(I, a, k, st, node):
    v = I.deep(st, a[0])
    return mk("call", mk("ext", "numpy.sqrt"), mk("tuple", v), mk("kw"))


@ext("numpy.square")
def _square(I, a, k, st, node):
    v = I.deep(st, a[0])
    return mul(v, v)


@ext("numpy.hypot")
def _hypot(I, a, k, st, node):
    if len(a) == 2:
        x, y = I.deep(st, a[0]), I.deep(st, a[1])
        return mk("call", mk("ext", "numpy.sqrt"), mk("tuple", add(mul(x, x), mul(y, y))), mk("kw"))


@ext("numpy.linalg.norm")
def _norm(I, a, k, st, node):
    v = I.deep(st, a[0])
    if len(a) == 1 and not k:
        els = None
        if v.op in ("list", "tuple"):
            els = list(v.a)
        elif v.op == "attr" and v.a[1] == "shape":
            els = [index(v, ZERO), index(v, ONE)]
        elif v.op == "call" and v.a[0].a[0] == "numpy.array" and v.a[1].a[0].op in ("list", "tuple"):
            els = list(v.a[1].a[0].a)
        if els:
            return mk("call", mk("ext", "numpy.sqrt"), mk("tuple", add(*[mul(e, e) for e in els])), mk("kw"))


@ext("numpy.abs", "builtins.abs")
def _abs(I, a, k, st, node):
    v = I.deep(st, a[0])
    return num(abs(v.a[0])) if v.op == "num" else mk("abs", v)


@ext("builtins.len")
def _len(I, a, k, st, node):
    c = I.cell(st, a[0])
    if c.op in ("list", "tuple", "dict", "set", "str", "maplist", "concat"):
        return length(c)
    return length(I.deep(st, a[0]))


@ext("builtins.range")
def _range(I, a, k, st, node):
    a = [I.deep(st, x) for x in a]
    if len(a) == 1:
        return mk("range", a[0], ZERO, ONE)
    step = a[2] if len(a) > 2 else ONE
    if step.op == "num" and step.a[0] == 1:
        return mk("range", sub(a[1], a[0]), a[0], ONE)
    if all(x.op == "num" and isinstance(x.a[0], int) for x in (a[0], a[1], step)):
        return mk("range", num(len(range(a[0].a[0], a[1].a[0], step.a[0]))), a[0], step)
    if step.op == "num" and step.a[0] == -1:
        return mk("range", sub(a[0], a[1]), a[0], step)
    return mk("range", mk("ceildiv", sub(a[1], a[0]), step), a[0], step)


@ext("builtins.enumerate")
def _enumerate(I, a, k, st, node):
    s = a[1] if len(a) > 1 else k.get("start", ZERO)
    return mk("enumerate", a[0], I.deep(st, s))


@ext("builtins.zip")
def _zip(I, a, k, st, node):
    return mk("zip", *a)


@ext("builtins.reversed")
def _reversed(I, a, k, st, node):
    return mk("reversed", a[0])


@ext("builtins.list")
def _list(I, a, k, st, node):
    if not a:
        return I.new_ref(st, mk("list"), "list")
    c = I.cell(st, a[0])
    if c.op == "tolist":
        return c
    r = I.iter_list(st, a[0])
    if r.op == "tolist" and r.a[0].op == "call" and r.a[0].a[0].op == "ext":
        return r.a[0]
    return I.new_ref(st, r, "list")


@ext("builtins.iter")
def _iter(I, a, k, st, node):
    return a[0] if len(a) == 1 else None


@ext("builtins.tuple")
def _tuple(I, a, k, st, node):
    if not a:
        return mk("tuple")
    r = I.iter_list(st, a[0])
    if r.op == "list":
        return mk("tuple", *r.a)
    return r


@ext("builtins.set")
def _set(I, a, k, st, node):
    return I.new_ref(st, _frozenset(I, a, k, st, node), "set")


@ext("builtins.frozenset")
def _frozenset(I, a, k, st, node):
    if not a:
        return mk("set")
    r = I.iter_list(st, a[0])
    if r.op == "list":
        return mk("set", *sorted(set(r.a)))
    return mk("setof", I.deep(st, r))


@ext("builtins.dict", "collections.OrderedDict")
def _dict(I, a, k, st, node):
    items = []
    for x in a:
        c = I.cell(st, x)
        if c.op == "dict":
            items += dict_items(c)
        elif c.op in ("list", "tuple") and all(I.cell(st, e).op in ("tuple", "list") and len(I.cell(st, e).a) == 2 for e in c.a):
            items += [tuple(I.cell(st, e).a) for e in c.a]
        elif c.op in ("zip", "enumerate"):
            d = I.domain(c, st)
            if d.known is not None:
                items += [tuple(e.a) for e in d.known]
            else:
                I.niv += 1
                iv = mk("iv", I.niv)
                e = d.elem(iv)
                return I.new_ref(st, mk("mdict", d.n, X.abstract(e.a[0], I.niv), X.abstract(e.a[1], I.niv)), "dict")
        elif not k:
            return I.new_ref(st, c, "dict")
        else:
            return I.new_ref(st, mk("opq", "dict"), "dict")
    for kk, v in k.items():
        if kk == "**":
            if items or len(k) > 1:
                items.append((mk("star", v), mk("star", v)))
            else:
                return I.new_ref(st, v, "dict")
        else:
            items.append((const(kk), v))
    return I.new_ref(st, mk_dict(items), "dict")


@ext("collections.defaultdict")
def _ddict(I, a, k, st, node):
    return I.new_ref(st, mk("ddict", a[0] if a else NONE), "dict")


@ext("builtins.str")
def _str(I, a, k, st, node):
    return tostr(I.deep(st, a[0])) if a else EMPTY


def parses(f, text):
    try:
        f(text)
    except ValueError:
        return False
    return True


CATCHES = ("ValueError", "Exception", "BaseException", "(ValueError, TypeError)", "(TypeError, ValueError)")


def raises(convs):
    """Condition under which one of the conversions fails."""
    out = []
    for v in convs:
        if v.op == "num":
            continue
        if v.a[0].op == "str":
            return TRUE  # constant text that is no number
        out.append(v)
    return mk("raises", *out) if out else FALSE


@ext("builtins.int")
def _int(I, a, k, st, node):
    v = I.deep(st, a[0]) if a else ZERO
    if v.op == "num":
        return num(int(v.a[0]))
    if v.op == "str" and parses(int, v.a[0]):
        v = num(int(v.a[0]))
        I.convs.append((v, len(I.loopctx)))
        return v
    if v.op in ("len", "count"):
        return v
    if v.op == "sym" and v.a[1] == "int":
        return v
    if X.boolish(v) and v.op == "bool":
        return num(int(v.a[0]))
    v = mk("int", v)
    I.convs.append((v, len(I.loopctx)))
    return v


@ext("builtins.float")
def _float(I, a, k, st, node):
    v = I.deep(st, a[0]) if a else ZERO
    if v.op == "num":
        return num(float(v.a[0]))
    if v.op == "str" and parses(float, v.a[0]):
        v = num(float(v.a[0]))
        I.convs.append((v, len(I.loopctx)))
        return v
    if stringy(v):
        v = mk("float", v)
        I.convs.append((v, len(I.loopctx)))
    return v


@ext("numpy.float64", "numpy.float32")
def _npfloat(I, a, k, st, node):
    return None


@ext("builtins.bool")
def _bool(I, a, k, st, node):
    return truth(I.deep(st, a[0])) if a else FALSE


@ext("builtins.isinstance")
def _isinstance(I, a, k, st, node):
    v = I.alias(st, a[0])
    ty = I.cell(st, a[1])
    tys = list(ty.a) if ty.op in ("tuple", "list") else [ty]
    rs = []
    for t in tys:
        rs.append(isinst(I, st, v, t))
    return or_(*rs)


def isinst(I, st, v, t):
    if v.op == "ite":
        return ite(v.a[0], isinst(I, st, v.a[1], t), isinst(I, st, v.a[2], t))
    c = I.cell(st, v)
    n = t.a[0] if t.op in ("ext", "cls") else None
    kind = None
    if v.op == "ref":
        kind = {"list": "builtins.list", "dict": "builtins.dict", "array": "numpy.ndarray"}.get(v.a[1])
        if v.a[1] == "obj" and c.op == "obj":
            if t.op == "cls":
                return const(t.a[0] in I.ix.mro(c.a[0].a[0]))
            return const(n == "builtins.object")
    elif c.op == "sym":
        kind = {"int": "builtins.int", "float": "builtins.float", "list": "builtins.list",
                "strlist": "builtins.list", "array": "numpy.ndarray", "barray": "numpy.ndarray",
                "str": "builtins.str", "dict": "builtins.dict", "bool": "builtins.bool",
                "tuple": "builtins.tuple", "word": "builtins.str"}.get(c.a[1])
    elif c.op == "bool":
        kind = "builtins.bool"
    elif c.op == "num":
        kind = "builtins.int" if isinstance(c.a[0], int) else "builtins.float"
    elif stringy(c) or c.op == "join":
        kind = "builtins.str"
    elif c.op == "none":
        kind = "NoneType"
    elif c.op == "tuple":
        kind = "builtins.tuple"
    elif c.op in ("list", "maplist", "concat", "tolist", "splitlines"):
        kind = "builtins.list"
    elif c.op == "dict":
        kind = "builtins.dict"
    elif c.op == "zeros" or c.op == "call" and c.a[0].op == "ext" and c.a[0].a[0] in (
            "numpy.linspace", "numpy.array", "numpy.arange"):
        kind = "numpy.ndarray"
    elif c.op in ("cmp", "not", "and", "or"):
        kind = None
    if kind is not None and n is not None:
        sup = {
            "builtins.bool": {"builtins.bool", "builtins.int"},
            "builtins.int": {"builtins.int", "numbers.Integral", "numbers.Number"},
            "builtins.float": {"builtins.float", "numbers.Number"},
            "builtins.list": {"builtins.list", "collections.abc.Iterable", "collections.abc.Sequence", "typing.Iterable"},
            "builtins.tuple": {"builtins.tuple", "collections.abc.Iterable", "collections.abc.Sequence", "typing.Iterable"},
            "builtins.dict": {"builtins.dict", "collections.abc.Iterable", "collections.abc.Mapping", "typing.Iterable"},
            "builtins.str": {"builtins.str", "collections.abc.Iterable", "collections.abc.Sequence", "typing.Iterable"},
            "numpy.ndarray": {"numpy.ndarray", "collections.abc.Iterable", "typing.Iterable"},
        }.get(kind, {kind})
        return const(n in sup or n == "builtins.object")
    return mk("isinst", I.deep(st, v), t)


@ext("builtins.type")
def _type(I, a, k, st, node):
    v = I.alias(st, a[0])
    c = I.cell(st, v)
    if c.op == "obj":
        return c.a[0]
    return mk("typeof", I.deep(st, v))


@ext("argparse.ArgumentParser")
def _parser(I, a, k, st, node):
    return I.new_ref(st, mk("parser"), "parser")


@ext("builtins.vars")
def _vars(I, a, k, st, node):
    if a and a[0].op == "ref" and a[0].a[1] == "ns":
        return I.new_ref(st, I.cell(st, a[0]), "dict")
    return None


@ext("builtins.getattr")
def _getattr(I, a, k, st, node):
    n = I.deep(st, a[1])
    if n.op == "str":
        v = I.getattr_(a[0], n.a[0], st, node)
        if v.op == "opq" and len(a) > 2:
            return a[2]
        return v
    if n.op == "ite" and n.a[1].op == "str" and n.a[2].op == "str":
        return ite(n.a[0], I.getattr_(a[0], n.a[1].a[0], st, node), I.getattr_(a[0], n.a[2].a[0], st, node))
    return mk("opq", "getattr")


@ext("builtins.setattr")
def _setattr(I, a, k, st, node):
    n = I.deep(st, a[1])
    if n.op == "str":
        I.setattr_(a[0], n.a[0], a[2], st, node)
        return NONE
    o = I.alias(st, a[0])
    if o.op == "ref" and st.heap[o].op == "obj":
        st.heap[o] = mk("opq", "setattr")
    return NONE


@ext("builtins.map")
def _map(I, a, k, st, node):
    if len(a) == 2:
        return I.map_call(a[0], a[1], st, node)
    return I.map_call(a[0], mk("zip", *a[1:]), st, node, star=True)


@ext("builtins.filter")
def _filter(I, a, k, st, node):
    return None


@ext("functools.partial")
def _partial(I, a, k, st, node):
    return mk("partial", a[0], mk("tuple", *a[1:]), mk_dict([(const(x), v) for x, v in k.items()]))


@ext("functools.reduce")
def _reduce(I, a, k, st, node):
    src = "__acc = __init\nfor __x in __it:\n    __acc = __f(__acc, __x)\n"
    if len(a) < 3:
        c = I.cell(st, a[1])
        if c.op in ("list", "tuple") and c.a:
            init, it = c.a[0], mk("list", *c.a[1:])
        else:
            return None
    else:
        init, it = a[2], a[1]
    tree = ast.parse(src)
    for n in ast.walk(tree):
        n._sa_file, n.lineno = I.where(node)
    s2 = State(dict(st.env), st.heap, st.pc)
    s2.env.update({"__f": a[0], "__it": it, "__init": init})
    r = I.exec_block(tree.body, s2)
    if r is None:
        return None
    st.heap = r.heap
    return r.env["__acc"]


@ext("copy.deepcopy", "copy.copy")
def _deepcopy(I, a, k, st, node):
    v = I.alias(st, a[0])
    if v.op == "ref" and v.a[1] != "obj":
        return I.new_ref(st, I.deep(st, v), v.a[1])
    return v


@ext("os.path.join")
def _join(I, a, k, st, node):
    return join(*[I.deep(st, x) for x in a])


def _fold_path(f):
    def h(I, a, k, st, node):
        if k or not a:
            return None
        v = [I.deep(st, x) for x in a]
        if not all(x.op == "str" for x in v):
            if len(v) == 1 and v[0].op == "ite":
                x = v[0]
                p, q = h(I, [x.a[1]], {}, st, node), h(I, [x.a[2]], {}, st, node)
                if p is not None and q is not None:
                    return ite(x.a[0], p, q)
            return strings.path_fn(f.__name__, v[0]) if len(v) == 1 else None
        r = f(*[x.a[0] for x in v])
        if isinstance(r, tuple):
            return mk("tuple", *[const(x) for x in r])
        return const(r)
    return h


import os.path as _osp
for _n in ("dirname", "basename", "splitext", "normpath", "split", "isabs", "relpath"):
    ext("os.path." + _n)(_fold_path(getattr(_osp, _n)))


@ext("os.fspath", "pathlib.Path", "pathlib.PurePath")
def _path(I, a, k, st, node):
    return join(*[I.deep(st, x) for x in a]) if a else None


@ext("builtins.divmod")
def _divmod(I, a, k, st, node):
    if len(a) == 2:
        x, y = I.deep(st, a[0]), I.deep(st, a[1])
        return mk("tuple", I.binop("FloorDiv", x, y, st, node), I.binop("Mod", x, y, st, node))
    return None


@ext("builtins.max", "builtins.min")
def _max(I, a, k, st, node):
    pick = max if _fn_name(node) == "max" else min if _fn_name(node) == "min" else None
    if k or pick is None:
        return None
    vs = [I.deep(st, x) for x in a]
    if len(vs) == 1 and vs[0].op in ("list", "tuple", "set"):
        vs = list(vs[0].a)
    if vs and all(x.op == "num" for x in vs):
        return num(pick(x.a[0] for x in vs))
    return None


def _fn_name(node):
    f = getattr(node, "func", None)
    return f.id if isinstance(f, ast.Name) else None


@ext("builtins.sorted")
def _sorted(I, a, k, st, node):
    v = I.deep(st, a[0])
    if v.op == "dict":
        v = mk("list", *v.a[::2])
    if not k and v.op in ("maplist", "range") and X.length(v).op == "num" and X.length(v).a[0] <= 256:
        v = mk("list", *[X.index(v, num(i)) for i in range(X.length(v).a[0])])
    if not k and v.op in ("list", "tuple", "set") and all(X.is_const(x) for x in v.a):
        try:
            return I.new_ref(st, mk("list", *[const(x) for x in sorted(X.pyval(y) for y in v.a)]), "list")
        except TypeError:
            pass
    return None


@ext("builtins.next")
def _next(I, a, k, st, node):
    c = I.cell(st, a[0])
    if c.op == "list" and c.a:
        return c.a[0]
    return None


@ext("builtins.slice")
def _slice(I, a, k, st, node):
    a = [I.deep(st, x) for x in a]
    if len(a) == 1:
        a = [NONE, a[0]]
    while len(a) < 3:
        a.append(NONE)
    return mk("slice", *a)


@ext("builtins.print", "warnings.warn", "builtins.id")
def _noop(I, a, k, st, node):
    f = k.get("file")
    f = I.alias(st, f) if f is not None else None
    if f is not None and f.op == "ref" and f in I.files:
        sep, end = k.get("sep", const(" ")), k.get("end", const("\n"))
        parts = []
        for j, x in enumerate(a):
            if j:
                parts.append(sep)
            parts.append(X.tostr(I.deep(st, x)))
        return I.file_write(f, cat(*parts, end), st, node)
    I.event("ext", "print", dict(args=mk("tuple", *[I.deep(st, x) for x in a])), st, node)
    return NONE


@ext("builtins.callable")
def _callable(I, a, k, st, node):
    return TRUE if a[0].op in ("fn", "closure", "bound", "cls") else None


@ext("itertools.chain")
def _chain(I, a, k, st, node):
    return I.new_ref(st, I.concat(*[I.iter_list(st, x) for x in a]), "list")


@ext("itertools.repeat")
def _repeat(I, a, k, st, node):
    return mk("repeatall", a[0])


@ext("itertools.product")
def _product(I, a, k, st, node):
    ds = [I.domain(x, st) for x in a]
    if all(d.known is not None for d in ds):
        import itertools
        return mk("list", *[mk("tuple", *e) for e in itertools.product(*[d.known for d in ds])])
    return None


@ext("numpy.unique")
def _unique(I, a, k, st, node):
    return None


@ext("numpy.logical_or.reduce")
def _lor_reduce(I, a, k, st, node):
    v = I.deep(st, a[0])
    if v.op == "maplist" and v.a[2] is TRUE:
        return X.reduce_("or", FALSE, v.a[0], v.a[1])
    return None


@ext("builtins.__mview__")
def _mview(I, a, k, st, node):
    return mk("cview", a[2], I.deep(st, a[0]), a[1])


@ext("builtins.__cdecl__")
def _cdecl(I, a, k, st, node):
    if a[0].op == "str" and a[0].a[0] == "Matrix":
        return I.new_ref(st, mk("cmatrix", NONE, NONE, mk("str", "not set")), "cmatrix")
    return mk("opq", "uninitialised")
