"""Common machinery of the checks: running entry points in the abstract interpreter,
comparing value terms with reference terms, and reporting."""
import ast
import json
import os
import sys
import time

from . import terms as X
from .terms import T, mk, const, num, NONE, TRUE, FALSE, index, subst, contains, pretty
from .index import Index, AnalysisError, REPO
from .vg import Interp, State, Frame
from .unfold import specialise

sys.setrecursionlimit(60000)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "pyEdgeEval"

# library functions with a canonical normal form here: two terms that differ in one of
# these differ in meaning
BASE_VOCAB = set(
    """numpy.max numpy.min numpy.mean numpy.median numpy.nanmean numpy.argmax numpy.argmin
    numpy.floor numpy.ceil numpy.round numpy.abs numpy.sqrt numpy.log numpy.exp numpy.prod
    numpy.cumsum numpy.sort numpy.argsort numpy.nansum numpy.nanmax numpy.nanmin
    numpy.linspace numpy.arange numpy.zeros numpy.ones numpy.sum numpy.flip numpy.fliplr
    numpy.flipud numpy.roll numpy.rot90 builtins.max builtins.min builtins.round
    builtins.abs builtins.sorted builtins.int builtins.float PIL.Image.open
    PIL.Image.Resampling.NEAREST PIL.Image.Resampling.BILINEAR PIL.Image.Resampling.BICUBIC
    PIL.Image.Resampling.LANCZOS PIL.Image.Resampling.BOX PIL.Image.Resampling.HAMMING
    PIL.Image.BILINEAR PIL.Image.BICUBIC PIL.Image.LANCZOS os.path.exists os.path.isfile
    os.path.isdir os.path.basename os.path.dirname numpy.count_nonzero numpy.uint8
    numpy.uint16 numpy.int32 numpy.float32 numpy.uint32 numpy.int64 numpy.float16
    numpy.int8 numpy.trunc numpy.rint numpy.array builtins.str builtins.bool
    numpy.unpackbits numpy.packbits cv2.INTER_NEAREST cv2.INTER_LINEAR cv2.INTER_CUBIC
    cv2.INTER_AREA cv2.DIST_L1 cv2.DIST_L2 cv2.DIST_C numpy.argmax numpy.unique
    builtins.reversed builtins.set numpy.dot numpy.nan numpy.inf numpy.clip
    numpy.maximum numpy.minimum""".split()
)


def S(n, k="any"):
    return mk("sym", n, k)


class Run:
    def __init__(self, I, st, value, heapvals=None):
        self.I = I
        self.st = st
        self.value = value
        self.events = I.events
        self.raises = st is not None and st.pc is FALSE


class Mismatch:
    def __init__(self, got, want, why=""):
        self.got = got
        self.want = want
        self.why = why


AC = {"poly", "mono", "and", "or", "bor", "band", "set"}


def diff(a, r, out=None, depth=0):
    """Smallest pairs at which two terms differ."""
    if out is None:
        out = []
    if a is r:
        return out
    if a.op != r.op:
        out.append(Mismatch(a, r))
        return out
    if a.op in ("num", "str", "bool", "sym", "iv", "bv", "ext", "fn", "cls", "ref"):
        out.append(Mismatch(a, r))
        return out
    if a.op in AC:
        la = list(a.a)
        lr = list(r.a)
        if a.op in ("poly", "mono"):
            # (term, coefficient) pairs flattened
            pa = X.poly_of(a) if a.op == "poly" else None
            if a.op == "poly":
                pr = X.poly_of(r)
                ka = {k: v for k, v in pa.items() if pr.get(k) != v}
                kr = {k: v for k, v in pr.items() if pa.get(k) != v}
                if len(ka) == 1 and len(kr) == 1:
                    (ma, ca), (mr, cr) = list(ka.items())[0], list(kr.items())[0]
                    if ca == cr and ma and mr:
                        ta, tr = X.from_poly({ma: 1}), X.from_poly({mr: 1})
                        if ta is not a or tr is not r:
                            return diff(ta, tr, out, depth + 1)
                out.append(Mismatch(a, r))
                return out
        ra = [x for x in la if x not in lr]
        rr = [x for x in lr if x not in la]
        if len(ra) == 1 and len(rr) == 1 and isinstance(ra[0], T) and isinstance(rr[0], T):
            return diff(ra[0], rr[0], out, depth + 1)
        out.append(Mismatch(a, r))
        return out
    if len(a.a) != len(r.a):
        out.append(Mismatch(a, r))
        return out
    for x, y in zip(a.a, r.a):
        if isinstance(x, T) != isinstance(y, T):
            out.append(Mismatch(a, r))
            return out
        if not isinstance(x, T) and x != y:
            out.append(Mismatch(a, r))
            return out
    n0 = len(out)
    for x, y in zip(a.a, r.a):
        if isinstance(x, T):
            diff(x, y, out, depth + 1)
    # everything differs below: report the whole
    if len(out) - n0 > 3 and (len(out) - n0 > 12 or not has_loop(a)):
        del out[n0:]
        out.append(Mismatch(a, r))
    return out


UNKNOWN_OPS = {"opq", "lost", "cycle", "exc", "undef", "unordered"}


def vocab(t, acc=None):
    acc = set() if acc is None else acc
    for x in X.subterms(t):
        if x.op == "ext":
            acc.add(x.a[0])
        elif x.op == "fn":
            acc.add(x.a[0])
        elif x.op == "meth" or x.op == "mcall":
            acc.add("." + str(x.a[1] if len(x.a) > 1 else x.a[0]))
    return acc


def not_understood(t, allowed):
    """Reason why term t is not fully interpreted, or None."""
    for x in X.subterms(t):
        if x.op in UNKNOWN_OPS:
            return pretty(x)
        if x.op == "ext" and x.a[0] not in allowed and x.a[0] not in BASE_VOCAB:
            return "call of " + x.a[0]
    return None


def has_loop(t):
    return contains(t, lambda x: x.op == "loopgen")


def rewritten(ms):
    """The reference overwrites an array where a condition on the input holds; the code
    tests the array it is writing."""
    for m in ms:
        if m.want.op != "elast" or m.got.op != "loopgen":
            return False
        n, inits, step, cont = m.got.a
        if n is not m.want.a[0] or len(inits.a) != 1 or cont.a[0].a:
            return False
        nx = step.a[0].a[0]
        if nx.op != "sel" or not contains(nx.a[0], lambda x: x.op == "mv"):
            return False
    return bool(ms)


def stale(ms):
    """The value is the one the required loop starts from: the update is missing."""
    return any(m.want.op == "loopgen" and m.want.a[1].a and m.want.a[1].a[0] is m.got for m in ms)


def skips(m):
    """The code does what is required only under a condition, and leaves the old value otherwise."""
    g = m.got
    if g.op not in ("ite", "sel"):
        return False
    for a, b in ((g.a[1], g.a[2]), (g.a[2], g.a[1])):
        if a is m.want and not has_loop(b):
            return True
    return False


LOOPY = {"loopgen", "reduce", "tab", "maplist", "mdict", "argbest", "lastval", "lastwhere",
         "exists", "firstwhere", "elast"}


def loop_shape(t):
    d = {}
    for x in X.subterms(t):
        if x.op in LOOPY:
            d[x.op] = d.get(x.op, 0) + 1
    return d


class Check:
    """One property check: collects obligations, violations and evidence."""

    def __init__(self, pid, title, ix=None):
        self.pid = pid
        self.title = title
        self.ix = ix or Index()
        self.t0 = time.time()
        self.obligations = []  # (name, status, detail)
        self.violations = []
        self.functions = set()
        self.files = set()
        self.callsites = 0
        self.terms = 0
        self.notes = []
        self.unknown = []
        self.samples = []

    # ---------------------------------------------------------- running code
    def driver(self, name, src):
        return self.ix.add_source(name, src)

    def q(self, path):
        r = self.ix.need(path)
        return r[1]

    def run(self, path, args=(), kw=None, opaque=(), state=None, deep=True, unroll=None,
            interp=None):
        I = interp or Interp(self.ix, opaque=[self.q(o) for o in opaque])
        if unroll:
            I.unroll = unroll
        if not I.frames:
            I.frames.append(Frame("root", "root"))
        st = state or State()
        n = ast.parse("x").body[0]
        for m in ast.walk(n):
            m._sa_file = "driver"
        kind, qual = self.ix.need(path)[:2]
        kw = dict(kw or {})
        if kind == "class" or (kind == "def" and False):
            v = I.call(mk("cls", qual), list(args), kw, st, n)
        else:
            v = I.call_qual(qual, list(args), kw, st, n)
        if deep:
            v = I.deep(st, v)
        r = Run(I, st, v)
        X.CUR_LOC[0] = None
        self.absorb(I)
        return r

    def absorb(self, I):
        self.functions |= {q for q in I.inlined if not q.startswith("spec")}
        self.callsites += sum(1 for e in I.events if e.kind in ("call", "ext", "method", "enter"))
        self.unknown += [u for u in I.unknown if u not in self.unknown]

    # ---------------------------------------------------------- obligations
    def ok(self, name, detail=""):
        self.obligations.append((name, "discharged", detail))

    def undecided(self, name, detail=""):
        self.obligations.append((name, "undecided", detail))

    def violate(self, name, file, line, rule, construct, key=None):
        self.obligations.append((name, "violated", construct))
        self.violations.append(dict(obligation=name, file=file, line=line, rule=rule,
                                    construct=construct, key=key or (name + "|" + str(construct)[:200])))

    def require(self, cond, name, file, line, rule, construct, key=None):
        if cond:
            self.ok(name)
        else:
            self.violate(name, file, line, rule, construct, key)
        return cond

    def compare(self, name, got, want, rule, where=("?", 0), allowed=(), norm=None,
                extra_unknown=None, strict=False, soft=False):
        """Discharge `got == want`; a fully interpreted difference is a violation (undecided
        when soft: two formulas over unbounded parameters)."""
        self.terms += 1
        if norm:
            got, want = norm(got), norm(want)
        if got is want:
            self.ok(name)
            return True
        ms = diff(got, want)
        voc = vocab(want) | set(allowed)
        bad = not_understood(want, voc)
        if bad:
            raise AnalysisError(f"{self.pid}: reference of {name} not interpretable: {bad}")
        why = not_understood(got, voc)
        if got.op == "undef":
            why = None  # no path sets the value
        name_k = ""
        if soft:
            why = why or "formulas differ"
        if why is None and extra_unknown:
            why = extra_unknown(got)
        if why is None and not strict and not stale(ms):
            sg, sw = loop_shape(got), loop_shape(want)
            if sg.get("loopgen", 0) != sw.get("loopgen", 0) and not rewritten(ms):
                why = "loop not summarised like the reference"
            else:
                for m in [] if rewritten(ms) else ms:
                    if ("loopgen" in loop_shape(m.got) or "loopgen" in loop_shape(m.want)) and \
                            (m.got.op != m.want.op or m.got.op == "loopgen"):
                        why = "loop recurrence of another shape"
            if why is not None:
                r = self.unfolded(got, want)
                if r is not None:
                    k, ms = r
                    why = None
                    name_k = f" (already with {k} element{'s'[:k - 1]})"
        if why is not None:
            self.undecided(name, f"{why}; got {pretty(ms[0].got)[:300]} want {pretty(ms[0].want)[:300]}")
            return None
        m = ms[0]
        rule += name_k
        loc = None
        for mm in ms:
            loc = loc or term_loc(mm.got)
        f, l = loc or where
        self.violate(name, f, l, rule,
                     f"{name}: computed {pretty(m.got)[:500]}  --  required {pretty(m.want)[:500]}",
                     key=f"{name}")
        return False

    def unfolded(self, got, want):
        """(size, mismatches) at which two loops written out for a small size differ."""
        I = Interp(self.ix, opaque=[])
        for k in (1, 2, 3):
            r = specialise(I, got, want, k)
            if r is None:
                return None
            g, w = r
            if g is w:
                continue
            ms = diff(g, w)
            for m in ms:
                if skips(m):
                    continue
                sg, sw = loop_shape(m.got), loop_shape(m.want)
                if sg.get("loopgen", 0) != sw.get("loopgen", 0) or \
                        sg.get("loopgen") and (m.got.op != m.want.op or m.got.op == "loopgen"):
                    return None
            return k, ms
        return None

    # ---------------------------------------------------------- result
    def finish(self, tier="quick", level="other", explanation="", known=None, assumptions=None):
        n = len(self.obligations)
        dis = sum(1 for o in self.obligations if o[1] == "discharged")
        und = [o for o in self.obligations if o[1] == "undecided"]
        known = known or []
        new = []
        for v in self.violations:
            hit = None
            for k in known:
                if k["property"] == self.pid and k["key"] == v["key"]:
                    hit = k
            if hit:
                print(f"KNOWN-FINDING: property={self.pid} {hit['what']}")
            else:
                new.append(v)
        ev = dict(
            property=self.pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0),
            level="other",
            coverage=dict(
                explanation=explanation,
                obligations=n, discharged=dis, undecided=len(und),
                undecided_list=[dict(obligation=o[0], why=str(o[2])[:600]) for o in und][:40],
                violated=len(self.violations),
                functions_analysed=len(self.functions),
                functions=sorted(self.functions)[:200],
                call_sites=self.callsites,
                terms_compared=self.terms,
                unknown_constructs=[str(u)[:200] for u in self.unknown][:40],
                samples=[str(o[0]) for o in self.obligations[:12]] + self.samples[:8],
            ),
            wall_s=round(time.time() - self.t0, 3),
            violations=len(new),
            assumptions=assumptions or ["library functions have their documented meaning"],
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if os.environ.get("SA_DEBUG"):
            for u in ev["coverage"]["undecided_list"]:
                print("UND", u["obligation"], "::", u["why"][:1500])
        if os.environ.get("SA_NOEVIDENCE") is None:
            with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        if new:
            rep = os.path.join(VERIF, "evidence", f"{self.pid}.report.txt")
            try:
                with open(rep, "w") as f:
                    for v in new:
                        f.write(f"{v['file']}:{v['line']}: rule: {v['rule']}\n   {v['construct']}\n   key: {v['key']}\n")
            except OSError:
                pass
            for v in new[:10]:
                print(f"{v['file']}:{v['line']}: {v['rule']}: {v['construct'][:1200]}")
            print(f"VIOLATION property={self.pid} replay={rep}")
            return 1
        print(f"OK property={self.pid} obligations={n} discharged={dis} undecided={len(und)}"
              f" functions={len(self.functions)} wall={ev['wall_s']}s")
        return 0


def term_loc(t):
    best = None
    for x in X.subterms(t):
        if x.loc and x.loc[0] not in ("driver", "?") and not str(x.loc[0]).startswith(("spec", "<")):
            return x.loc
    return best


def load_known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out
