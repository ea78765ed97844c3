"""Path and text operations on partly known strings.

Symbols of kind "word" stand for plain pieces of a name: they contain no separator, no dot
and none of the texts the code searches for."""
from .terms import mk, const, join, cat, EMPTY, TRUE, FALSE


def atomic(x):
    return x.op == "str" or x.op == "sym" and x.a[1] == "word" or (
        x.op in ("tostr", "zfill") and (x.a[0].op == "num" or x.a[0].op in ("sym", "tostr") and word(x.a[0])))


def word(x):
    while x.op in ("tostr", "zfill"):
        x = x.a[0]
    return x.op == "sym" and x.a[1] in ("word", "int")


def pieces(seg):
    return list(seg.a) if seg.op == "cat" else [seg]


def segs(t):
    """Path segments, each a list of atomic pieces; None when not fully known."""
    out = [pieces(s) for s in (t.a if t.op == "join" else (t,))]
    if any(not atomic(x) for s in out for x in s):
        return None
    return out


def known(t):
    return t.op in ("join", "cat") or t.op == "sym" and t.a[1] == "word"


def build(ss):
    return join(*[cat(*s) for s in ss])


def text(t):
    """Whole text as pieces with explicit separators."""
    s = segs(t)
    if s is None:
        return None
    out = []
    for k, x in enumerate(s):
        if k:
            out.append(const("/"))
        out.extend(x)
    return out


def path_fn(name, t):
    if not known(t):
        return None
    s = segs(t)
    if s is None:
        return None
    if any(x.op == "str" and "/" in x.a[0] for p in s for x in p):
        return None
    if name == "dirname":
        return build(s[:-1]) if len(s) > 1 else EMPTY
    if name == "basename":
        return cat(*s[-1])
    if name == "split":
        return mk("tuple", build(s[:-1]) if len(s) > 1 else EMPTY, cat(*s[-1]))
    if name == "splitext":
        last = s[-1]
        for k in range(len(last) - 1, -1, -1):
            p = last[k]
            if p.op == "str" and "." in p.a[0]:
                j = p.a[0].rindex(".")
                if j == 0 and k == 0:
                    return None
                stem = last[:k] + ([const(p.a[0][:j])] if j else [])
                return mk("tuple", build(s[:-1] + [stem]), cat(const(p.a[0][j:]), *last[k + 1:]))
        return mk("tuple", t, EMPTY)
    if name == "normpath":
        return t
    return None


def str_fn(name, t, args):
    if not known(t):
        return None
    s = segs(t)
    if s is None:
        return None
    if name == "replace" and len(args) == 2 and args[0].op == "str" and args[0].a[0] and "/" not in args[0].a[0]:
        old, new = args[0].a[0], args[1]
        out = []
        for p in s:
            q = []
            for x in p:
                if x.op == "str" and old in x.a[0]:
                    for j, w in enumerate(x.a[0].split(old)):
                        if j:
                            q.append(new)
                        if w:
                            q.append(const(w))
                else:
                    q.append(x)
            out.append(q)
        return build(out)
    if name in ("endswith", "startswith") and len(args) == 1 and args[0].op == "str" and args[0].a[0]:
        w = args[0].a[0]
        p = s[-1][-1] if name == "endswith" else s[0][0]
        if p.op == "str" and len(p.a[0]) >= len(w):
            return const(getattr(p.a[0], name)(w))
        return None
    if name in ("rstrip", "strip", "lstrip") and (not args or args[0].op == "str" and not args[0].a[0].strip()):
        first, last = s[0][0], s[-1][-1]
        ok = all(x.op != "str" or x.a[0] == x.a[0].strip() for x in (first, last))
        return t if ok else None
    if name == "split" and len(args) == 1 and args[0].op == "str" and args[0].a[0] == "/":
        return mk("list", *[cat(*p) for p in s])
    if name in ("removesuffix", "removeprefix") and len(args) == 1 and args[0].op == "str":
        w = args[0].a[0]
        k, e = (-1, -1) if name == "removesuffix" else (0, 0)
        p = s[k][e]
        if p.op == "str" and len(p.a[0]) >= len(w):
            s[k][e] = const(getattr(p.a[0], name)(w))
            return build(s)
        return None
    return None
