"""Project index: modules, name resolution, classes and MRO, for the Python (and
Cython) sources of the repository under analysis.  Nothing is imported or run."""
import ast
import os
import re

from .desugar import desugar

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "pyEdgeEval"

class AnalysisError(Exception):
    """The analysis itself cannot proceed (an anchor vanished, a file does not parse)."""


def _pyx_to_py(src):
    """Line-preserving rewrite of the Cython subset used by the wrappers into plain
    Python, plus the declared C types.  Returns (python source, cinfo)."""
    out = []
    cinfo = {"extern": {}, "ctypes": {}, "cfuncs": {}}
    lines = src.split("\n")
    i = 0
    cur_func = None
    # join continuation lines of parenthesised headers, keeping the line count
    while i < len(lines):
        ln = lines[i]
        st = ln.strip()
        ind = ln[: len(ln) - len(ln.lstrip())]
        m = re.match(r"cdef extern from\s+[\"']([^\"']+)[\"']", st)
        if m:
            hdr = m.group(1)
            out.append("")
            i += 1
            blk = []
            while i < len(lines) and (
                not lines[i].strip() or lines[i][0] in " \t"
            ):
                blk.append(lines[i])
                out.append("")
                i += 1
            text = " ".join(b.split("#")[0].strip() for b in blk)
            for fm in re.finditer(
                r"(\w[\w:]*)\s+(\w+)\s*\(([^()]*)\)", text
            ):
                if fm.group(1) in ("cppclass", "except"):
                    continue
                params = [p.strip() for p in fm.group(3).split(",") if p.strip()]
                cinfo["extern"].setdefault(fm.group(2), []).append(
                    (hdr, fm.group(1), params)
                )
            continue
        if re.match(r"(cdef|cpdef)\s+[^=]*\(", st) and not re.match(
            r"cdef\s+[^(]*=", st
        ):
            # function header (maybe multi-line)
            hdr = st
            n = 1
            while hdr.count("(") > hdr.count(")"):
                hdr += " " + lines[i + n].strip()
                n += 1
            m = re.match(r"(?:cdef|cpdef)\s+(?:inline\s+)?(?:[\w\[\]:, ]+\s+)?(\w+)\s*\((.*)\)\s*(?:nogil)?\s*(?:except[^:]*)?:", hdr)
            if not m:
                raise AnalysisError("cannot read Cython header: " + hdr)
            params = []
            depth = 0
            buf = ""
            for ch in m.group(2):
                if ch in "[(":
                    depth += 1
                if ch in "])":
                    depth -= 1
                if ch == "," and depth == 0:
                    params.append(buf)
                    buf = ""
                else:
                    buf += ch
            if buf.strip():
                params.append(buf)
            names = []
            types = []
            for p in params:
                p = p.strip()
                dflt = ""
                if "=" in p:
                    p, dflt = p.split("=", 1)
                mm = re.match(r"(.*?)\s*(\w+)\s*$", p.strip())
                types.append(mm.group(1).strip())
                names.append(mm.group(2) + ("=" + dflt.strip() if dflt else ""))
            cinfo["cfuncs"][m.group(1)] = list(zip([x.split("=")[0] for x in names], types))
            cur_func = m.group(1)
            out.append(f"{ind}def {m.group(1)}({', '.join(names)}):")
            for _ in range(n - 1):
                out.append("")
            i += n
            continue
        m = re.match(r"cdef\s+(.*)$", st)
        if m:
            body = m.group(1)
            if "=" in body:
                lhs, rhs = body.split("=", 1)
                mm = re.match(r"(.*?)\s*\*?\s*(\w+)\s*$", lhs.strip())
                cinfo["ctypes"][(cur_func, mm.group(2))] = mm.group(1).strip()
                out.append(f"{ind}{mm.group(2)} = {_cast(rhs.strip())}")
            else:
                mm = re.match(r"([\w:]+(?:\[[^\]]*\])?)\s+(.*)$", body)
                typ, names = mm.group(1), mm.group(2)
                stm = []
                for nme in names.split(","):
                    nme = nme.strip()
                    cinfo["ctypes"][(cur_func, nme)] = typ
                    stm.append(f"{nme} = __cdecl__('{typ}')")
                out.append(ind + "; ".join(stm))
            i += 1
            continue
        m = re.match(r"def\s+(\w+)\s*\(", st)
        if m:
            cur_func = m.group(1)
        out.append(_cast(ln))
        i += 1
    return "\n".join(out), cinfo


def _mview(s):
    """Extents and memory order of a memoryview cast such as :a:1,:b"""
    parts, depth, buf = [], 0, ""
    for ch in s:
        depth += ch in "[("
        depth -= ch in "])"
        if ch == "," and not depth:
            parts.append(buf)
            buf = ""
        else:
            buf += ch
    parts.append(buf)
    dims, unit = [], []
    for p in parts:
        p = p.strip()
        f, depth = [""], 0
        for ch in p:
            depth += ch in "[("
            depth -= ch in "])"
            if ch == ":" and not depth:
                f.append("")
            else:
                f[-1] += ch
        dims.append((f[1] if len(f) > 1 else f[0]).strip() or "None")
        unit.append(len(f) > 2 and f[2].strip() == "1")
    order = "F" if unit[0] and len(unit) > 1 else "C" if unit[-1] else "?"
    return dims, order


def _cast(s):
    # <double[:a:1,:b]>expr  ->  __cast__("double[...]", expr)
    m = re.search(r"<\s*([A-Za-z_]\w*(?:\[.*?\])?\s*\**)\s*>\s*(.+)$", s)
    if m and "'" not in s[: m.start()] and '"' not in s[: m.start()]:
        if "[" in m.group(1):
            dims, order = _mview(m.group(1)[m.group(1).index("[") + 1: m.group(1).rindex("]")])
            return s[: m.start()] + f"__mview__(({', '.join(dims)},), {order!r}, {m.group(2)})"
        return s[: m.start()] + f"__cast__({m.group(1)!r}, {m.group(2)})"
    return s


def _mutated(st):
    """Variables a statement may change in place: `x.f(...)`, `f(x)`, `del x[...]`."""
    out = []
    if isinstance(st, ast.Delete):
        for t in st.targets:
            while isinstance(t, (ast.Subscript, ast.Attribute)):
                t = t.value
            if isinstance(t, ast.Name):
                out.append(t.id)
    elif isinstance(st.value, ast.Call):
        f = st.value.func
        if isinstance(f, ast.Attribute):
            f = f.value
            while isinstance(f, (ast.Subscript, ast.Attribute)):
                f = f.value
            if isinstance(f, ast.Name):
                out.append(f.id)
        for a in list(st.value.args) + [k.value for k in st.value.keywords]:
            if isinstance(a, ast.Name):
                out.append(a.id)
    return out


class Module:
    def __init__(self, name, path, rel, src, tree, cinfo=None):
        self.name = name
        self.path = path
        self.rel = rel
        self.src = src
        self.tree = tree
        self.cinfo = cinfo
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.defs = {}
        self._collect(tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = ("def", st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.defs[a.asname] = ("import", a.name)
                    else:
                        self.defs[a.name.split(".")[0]] = (
                            "import",
                            a.name.split(".")[0],
                        )
            elif isinstance(st, ast.ImportFrom):
                base = self._abs(st)
                for a in st.names:
                    if a.name == "*":
                        self.defs.setdefault("*", ("stars", []))[1].append(base)
                    else:
                        self.defs[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    self._target(t, st)
            elif isinstance(st, (ast.AnnAssign,)) and st.value is not None:
                self._target(st.target, st)
            elif isinstance(st, ast.AugAssign):
                self._target(st.target, st)
            elif isinstance(st, ast.Try):
                for h in st.handlers:
                    self._collect(h.body)
                self._collect(st.body)
                self._collect(st.orelse)
                self._collect(st.finalbody)
            elif isinstance(st, ast.If):
                t = st.test
                if (
                    isinstance(t, ast.Compare)
                    and isinstance(t.left, ast.Name)
                    and t.left.id == "__name__"
                ):
                    continue
                self._collect(st.body)
                self._collect(st.orelse)
            elif isinstance(st, (ast.For, ast.While)):
                # run as a whole for each variable it sets
                names = []
                for n in ast.walk(st):
                    if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For)):
                        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            names += [x.value.id if isinstance(x, ast.Subscript) else x.id
                                      for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])
                                      if isinstance(x, ast.Name) or isinstance(x, ast.Subscript)
                                      and isinstance(x.value, ast.Name)]
                    elif isinstance(n, (ast.Expr, ast.Delete)):
                        names += _mutated(n)
                self._also(names, st)
            elif isinstance(st, (ast.Expr, ast.Delete)):
                self._also([n for n in _mutated(st) if self.defs.get(n, ("",))[0] == "assign"], st)
            elif isinstance(st, ast.With):
                self._collect(st.body)

    def _also(self, names, st):
        for n in dict.fromkeys(names):
            prev = self.defs.get(n)
            if prev is None or prev[0] == "assign":
                self.defs[n] = ("assign", (prev[1] if prev else []) + [st])

    def _target(self, t, st):
        if isinstance(t, ast.Name):
            prev = self.defs.get(t.id)
            lst = prev[1] if prev and prev[0] == "assign" else []
            self.defs[t.id] = ("assign", lst + [st])
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self._target(e, st)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            prev = self.defs.get(t.value.id)
            if prev and prev[0] == "assign":
                self.defs[t.value.id] = ("assign", prev[1] + [st])

    def _abs(self, st):
        if not st.level:
            return st.module
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))


class Index:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.files = []
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisError(f"package directory {root} is missing")
        for top in (PKG, "scripts"):
            base = os.path.join(self.repo, top)
            for d, dn, fn in os.walk(base):
                dn[:] = sorted(x for x in dn if not x.startswith((".", "__pycache__")))
                for f in sorted(fn):
                    p = os.path.join(d, f)
                    if f.endswith((".py", ".pyx")):
                        self._load(p)
        self._res_cache = {}

    def _load(self, p):
        rel = os.path.relpath(p, self.repo)
        name = rel[: rel.rindex(".")].replace(os.sep, ".")
        if name.endswith(".__init__"):
            name = name[: -len(".__init__")]
        with open(p, encoding="utf-8") as f:
            src = f.read()
        cinfo = None
        try:
            if p.endswith(".pyx"):
                psrc, cinfo = _pyx_to_py(src)
                tree = desugar(ast.parse(psrc, filename=rel))
            else:
                tree = desugar(ast.parse(src, filename=rel))
        except SyntaxError as e:
            raise AnalysisError(f"{rel}: does not parse: {e}")
        for n in ast.walk(tree):
            n._sa_file = rel
        self.modules[name] = Module(name, p, rel, src, tree, cinfo)
        self.files.append(rel)

    def add_source(self, name, src, rel=None):
        """Analyse an in-memory module (drivers and reference definitions)."""
        tree = ast.parse(src, filename=rel or name)
        for n in ast.walk(tree):
            n._sa_file = rel or ("<" + name + ">")
        m = Module(name, (rel or name) + ".py", rel or ("<" + name + ">"), src, tree)
        self.modules[name] = m
        self._res_cache = {}
        return m

    # ---- resolution -----------------------------------------------------
    def resolve(self, modname, name, _seen=None):
        """Resolve a global name of a module to ('fn'|'cls', qualname, node, module) |
        ('mod', name) | ('ext', dotted) | ('assign', module, name, stmts) | None."""
        key = (modname, name)
        if key in self._res_cache:
            return self._res_cache[key]
        _seen = _seen or set()
        if key in _seen:
            return None
        _seen.add(key)
        r = self._resolve(modname, name, _seen)
        self._res_cache[key] = r
        return r

    def _resolve(self, modname, name, seen):
        m = self.modules.get(modname)
        if m is None:
            return ("ext", f"{modname}.{name}")
        d = m.defs.get(name)
        if d is None:
            if modname + "." + name in self.modules:
                return ("mod", modname + "." + name)
            for b in m.defs.get("*", ("stars", []))[1]:
                if b in self.modules:
                    r = self.resolve(b, name, seen)
                    if r is not None:
                        return r
            return None
        if d[0] == "def":
            node = d[1]
            kind = "cls" if isinstance(node, ast.ClassDef) else "fn"
            return (kind, f"{modname}.{name}", node, modname)
        if d[0] == "import":
            if d[1] in self.modules:
                return ("mod", d[1])
            return ("ext", d[1])
        if d[0] == "from":
            base, nm = d[1], d[2]
            if base in self.modules:
                r = self.resolve(base, nm, seen)
                if r is None:
                    return ("missing", f"{base}.{nm}")
                return r
            if base + "." + nm in self.modules:
                return ("mod", base + "." + nm)
            if base.split(".")[0] in (PKG, "scripts"):
                return ("missing", f"{base}.{nm}")
            return ("ext", f"{base}.{nm}")
        if d[0] == "assign":
            return ("assign", modname, name, d[1])
        return None

    def lookup(self, dotted):
        """Resolve a public dotted path, e.g. pyEdgeEval.preprocess.binary_thin."""
        parts = dotted.split(".")
        for k in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:k])
            if mn in self.modules:
                r = ("mod", mn)
                for nm in parts[k:]:
                    if r is None:
                        return None
                    if r[0] == "mod":
                        r = self.resolve(r[1], nm)
                    elif r[0] == "cls":
                        mm = self.find_method(r[1], nm)
                        r = ("fn", mm[0], mm[1], mm[2]) if mm else None
                    else:
                        return None
                return r
        return None

    def need(self, dotted):
        r = self.lookup(dotted)
        if r is None or r[0] == "missing":
            raise AnalysisError(f"public name {dotted} is gone")
        return r

    # ---- classes --------------------------------------------------------
    def cls(self, q):
        mod, _, nm = q.rpartition(".")
        m = self.modules.get(mod)
        if m and nm in m.defs and m.defs[nm][0] == "def":
            return m.defs[nm][1], mod
        return None, None

    def bases(self, q):
        node, mod = self.cls(q)
        res = []
        if node is None:
            return res
        for b in node.bases:
            if isinstance(b, ast.Name):
                r = self.resolve(mod, b.id)
                if r and r[0] == "cls":
                    res.append(r[1])
            elif isinstance(b, ast.Attribute):
                pass
        return res

    def mro(self, q):
        out = [q]
        for b in self.bases(q):
            for x in self.mro(b):
                if x in out:
                    out.remove(x)
                out.append(x)
        return out

    def find_method(self, q, name):
        """-> (qualname, node, module) following the MRO."""
        for c in self.mro(q):
            node, mod = self.cls(c)
            if node is None:
                continue
            for st in node.body:
                if isinstance(st, (ast.FunctionDef,)) and st.name == name:
                    return f"{c}.{name}", st, mod
        return None

    def find_classattr(self, q, name):
        for c in self.mro(q):
            node, mod = self.cls(c)
            if node is None:
                continue
            val = None
            for st in node.body:
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name) and t.id == name:
                            val = st.value
                elif (
                    isinstance(st, ast.AnnAssign)
                    and isinstance(st.target, ast.Name)
                    and st.target.id == name
                    and st.value is not None
                ):
                    val = st.value
            if val is not None:
                return c, val, mod
        return None

    def functions(self):
        """All function definitions: (qualname, node, module)."""
        for mn, m in sorted(self.modules.items()):
            if not (mn == PKG or mn.startswith((PKG + ".", "scripts"))):
                continue

            def walk(body, pre):
                for st in body:
                    if isinstance(st, ast.FunctionDef):
                        yield f"{pre}.{st.name}", st, mn
                        yield from walk(st.body, f"{pre}.{st.name}")
                    elif isinstance(st, ast.ClassDef):
                        yield from walk(st.body, f"{pre}.{st.name}")
                    elif isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                        yield from walk(
                            [x for x in ast.iter_child_nodes(st) if isinstance(x, ast.stmt)],
                            pre,
                        )

            yield from walk(m.tree.body, mn)
