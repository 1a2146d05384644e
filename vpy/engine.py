"""Symbolic execution of the instrumented real code: path exploration, loop rules,
module loading, call interception, obligations."""
import builtins
import os
import sys
import types
import time
from . import terms as T
from .terms import *
from .values import Sc, SBool, lift, truth, is_scalar, select, sc_subst, _Eng, NAN, binop, trunc, minmax2
from . import values as V
from .prover import Ctx, Prover, feasible, z3_check, entails, Result
from .instrument import instrument

REPO = os.environ.get("VERIF_REPO", "/repo")


class PathAbort(BaseException):
    pass


class Frame:
    """decision sequence; the bottom frame is the path, upper frames are loop bodies"""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []  # [choice, nalt, cond]
        self.conds = []
        self.log = None


class LoopSkip(Exception):
    pass


class RepoFunc:
    pass


class SymSeq:
    """a sequence of symbolic length (list / tuple / range / zip ...)"""

    def __init__(self, n, elem, kind="list", rag=None):
        self.n, self.elem, self.kind, self.rag = n, elem, kind, rag

    def __iter__(self):
        n = self.n
        if n.is_const():
            return iter([self.elem(const(i)) for i in range(int(n.const))])
        raise Unsupported("native iteration over a sequence of symbolic length")

    def __len__(self):
        if self.n.is_const():
            return int(self.n.const)
        raise Unsupported("native len of a symbolic sequence")

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, ln, st = slice_norm(i, self.n)
            return SymSeq(ln, lambda k: self.elem(lo + k * st), self.kind)
        return self.elem(norm_index(i, self.n))

    def index(self, v):
        raise Unsupported("index in symbolic sequence")

    def copy(self):
        return SymSeq(self.n, self.elem, self.kind, self.rag)


class SymList(list):
    """python list; may receive a symbolic tail from a summarised loop"""

    sym = None

    def __len__(self):
        if self.sym is not None:
            if self.sym.n.is_const():
                return int(self.sym.n.const)
            raise Unsupported("native len of a symbolic list")
        return list.__len__(self)

    def __iter__(self):
        if self.sym is not None:
            return iter(self.sym)
        return list.__iter__(self)

    def __getitem__(self, i):
        if self.sym is not None:
            return self.sym[i]
        if isinstance(i, Sc):
            i = i.__index__()
        return list.__getitem__(self, i)

    def append(self, v):
        eng = _Eng.cur
        if eng is not None and eng.loopdepth and eng.log_append(self, v):
            return
        if self.sym is not None:
            s = self.sym
            self.sym = SymSeq(s.n + 1, lambda k: merge(eq(k, s.n), v, s.elem(k)), "list")
            return
        list.append(self, v)

    def extend(self, o):
        eng = _Eng.cur
        if isinstance(o, SymSeq) or isinstance(o, SymList) and o.sym is not None:
            raise Unsupported("extension by a symbolic list")
        o = list(o)
        if eng is not None and eng.loopdepth and o and eng.top.log is not None:
            def el(j):
                r = o[-1]
                for q in range(len(o) - 2, -1, -1):
                    r = merge(eq(j, const(q)), o[q], r)
                return r
            eng.top.log["app"].append((self, "block", const(len(o)), el))
            return
        for x in o:
            self.append(x)

    def __bool__(self):
        if self.sym is not None:
            return _Eng.cur.fork(gt(self.sym.n, ZERO))
        return list.__len__(self) > 0

    def __add__(self, o):
        if self.sym is not None or isinstance(o, SymSeq) or (isinstance(o, SymList) and o.sym is not None):
            raise Unsupported("concatenation of symbolic lists")
        return SymList(list.__add__(self, list(o)))

    def __radd__(self, o):
        return SymList(list(o) + list(self))

    def __mul__(self, k):
        if isinstance(k, Sc) and not k.is_const():
            if len(self) == 1:
                v = self[0]
                s = SymList()
                s.sym = SymSeq(k.re, lambda i: v)
                return s
            raise Unsupported("list repetition")
        return SymList(list.__mul__(self, int(k)))

    __rmul__ = __mul__

    def copy(self):
        s = SymList(list.__iter__(self))
        s.sym = self.sym
        return s


def merge(c, a, b):
    """structural conditional on Python values"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_scalar(a) and is_scalar(b):
        return select(c, a, b)
    from .npstub import SymArray
    if isinstance(a, SymArray) and isinstance(b, SymArray):
        if len(a.shape) != len(b.shape) or any(P_(x) is not P_(y) for x, y in zip(a.shape, b.shape)):
            raise Unsupported("merging arrays of different shape")
        fa, fb = a.snapshot(), b.snapshot()
        return SymArray(a.shape, lambda *ix: select(c, fa(*ix), fb(*ix)), V.kmax(a.kind, b.kind))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        if isinstance(a, str) and isinstance(b, str):
            ca, cb = [x.code if isinstance(x, SymStr) else SymStr.const_code(x) for x in (a, b)]
            return SymStr(ite(c, ca, cb))
        raise Unsupported("merging a string and something else")
    if isinstance(a, (str, type(None))) and a == b:
        return a
    raise Unsupported(f"merging {type(a).__name__} and {type(b).__name__}")


def P_(d):
    if isinstance(d, Sc):
        return d.re
    return P(d)


def dim(p):
    """shape entry from a Poly: int when constant"""
    p = P_(p)
    if p.is_const():
        return int(p.const)
    return Sc(p, FALSE, "i", np=False)


def norm_index(i, n):
    """python index -> Poly in range (forks on the bounds)"""
    n = P_(n)
    if isinstance(i, SBool):
        i = i.num()
    p = lift(i).re
    if p.is_const():
        if p.const < 0:
            if not n.is_const() and not _Eng.cur.fork(ge(n + p, ZERO)):
                raise IndexError("index out of bounds")
            p = n + p
        if n.is_const():
            if not (0 <= (p.const if p.is_const() else 0) < n.const):
                raise IndexError("index out of bounds")
        elif p.is_const():
            if not _Eng.cur.fork(lt(p, n)):
                raise IndexError("index out of bounds")
        return p
    q = p
    if not _Eng.cur.known(ge(p, ZERO)):
        q = ite(ge(p, ZERO), p, p + n)
    if not _Eng.cur.fork(And(ge(q, ZERO), lt(q, n))):
        raise IndexError("index out of bounds")
    return q


def clampi(p, lo, hi):
    return ite(lt(p, lo), lo, ite(gt(p, hi), hi, p))


def slice_norm(s, n):
    """(start, length, step) as Polys/ints"""
    n = P_(n)
    step = 1 if s.step is None else int(lift(s.step).__index__())
    k = _Eng.cur
    if step > 0:
        def bound(x, default):
            if x is None:
                return default
            p = lift(x).re
            if p.is_const():
                if p.const >= 0:
                    if p is ZERO:
                        return ZERO
                    return p if k.known(ge(n, p)) else ite(le(p, n), p, n)
                q = n + p
                return q if k.known(ge(q, ZERO)) else ite(ge(q, ZERO), q, ZERO)
            if k.known(ge(p, ZERO)):
                return p if k.known(le(p, n)) else ite(le(p, n), p, n)
            if k.known(lt(p, ZERO)):
                q = p + n
                return q if k.known(ge(q, ZERO)) else ite(ge(q, ZERO), q, ZERO)
            q = ite(lt(p, ZERO), p + n, p)
            return clampi(q, ZERO, n)

        lo, hi = bound(s.start, ZERO), bound(s.stop, n)
        d = hi - lo
        if not (d.is_const() and d.const >= 0) and not k.known(ge(d, ZERO)):
            d = ite(ge(d, ZERO), d, ZERO)
        if step != 1:
            d = fn("floor", (d + (step - 1)) / step)
        return lo, d, step
    if s.start is None and s.stop is None:
        if step == -1:
            return n - 1, n, -1
        return n - 1, fn("floor", (n - 1 - step) / (-step)), step
    if n.is_const() and all(x is None or lift(x).re.is_const() for x in (s.start, s.stop)):
        r = range(*slice(None if s.start is None else int(s.start), None if s.stop is None else int(s.stop), step).indices(
            int(n.const)))
        return const(r.start), const(len(r)), step
    raise Unsupported("slice with negative step and bounds")


class Obligation:
    __slots__ = ("label", "ok", "status", "how", "path", "picks", "model", "goal", "secs", "residual", "case")


class Engine:
    def __init__(self, time_limit=60.0, modular=True):
        self.prover = Prover(time_limit)
        self.modules = {}
        self.contracts = {}
        self.modular = modular
        self.active_contracts = set()
        self.max_paths = 4000
        self.loopdepth = 0
        self.deadline = None
        self.warnings = []
        self.used = set()
        self.trusted = set()
        self.covered = set()

    # ------------------------------------------------------------ exploration
    def start_path(self, prefix):
        T.reset_fresh()
        self.ctx = Ctx()
        self.ctx.lemmas = []
        self.frames = [Frame(prefix)]
        self.obls = []
        self.picks = []
        self.loopdepth = 0
        self.returns = {}
        self.warnings = []
        self.events = []
        self.loopvars = []
        self.guards = []
        self._known = {}

    @property
    def top(self):
        return self.frames[-1]

    def choose(self, n, label=""):
        """enumerated choice 0..n-1"""
        f = self.frames[0]
        i = len(f.trace)
        if len(self.frames) > 1:
            raise Unsupported("choice inside a loop body")
        c = f.prefix[i] if i < len(f.prefix) else 0
        f.trace.append([c, n, None])
        return c

    def fork(self, b):
        b = B(b)
        if b is TRUE or b is FALSE:
            return b is TRUE
        f = self.top
        i = len(f.trace)
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit of the symbolic execution")
        if len(f.trace) > 400:
            raise Unsupported("too many branches on one path")
        if i < len(f.prefix):
            c = f.prefix[i]
            n = 2 if c in (0, 1) else 1
        else:
            yes = feasible(self.ctx, b)
            no = feasible(self.ctx, Not(b))
            if yes and no:
                c, n = 0, 2
            elif yes:
                c, n = 2, 1
            elif no:
                c, n = 3, 1
            else:
                raise PathAbort()
        f.trace.append([c, n, b])
        val = c in (0, 2)
        cond = b if val else Not(b)
        if n == 2:
            f.conds.append(cond)
            self.ctx.add(cond)
            self._known = {}
        return val

    def known(self, b):
        """is b certain on this path?"""
        if b is TRUE or b is FALSE:
            return b is TRUE
        k = (b.id, len(self.ctx.facts), len(self.ctx.qfacts))
        r = self._known.get(k)
        if r is None:
            r = entails(self.ctx, b, 1000)
            self._known[k] = r
        return r

    @staticmethod
    def next_prefix(trace):
        """DFS successor"""
        t = [list(x) for x in trace]
        while t:
            c, n, _ = t[-1]
            if n > 1 and c + 1 < n:
                return [x[0] for x in t[:-1]] + [c + 1]
            t.pop()
        return None

    def assume(self, b):
        b = B(b)
        self.ctx.add(b)
        self._known = {}

    def explore(self, body):
        """run body() on every path; yields (outcome, frames trace)"""
        prefix = []
        n = 0
        while prefix is not None:
            n += 1
            if n > self.max_paths:
                raise Unsupported("path limit")
            self.start_path(prefix)
            try:
                body()
                yield "done", None
            except PathAbort:
                yield "abort", None
            except Unsupported as u:
                yield "unsupported", u
            prefix = self.next_prefix(self.frames[0].trace)

    # ------------------------------------------------------------ loops
    def loop(self, it, lid, carried, has_break):
        seq = self.as_seq(it)
        if seq is None:
            # native iteration
            for x in it:
                yield x
                if lid in self.returns:
                    return
            return
        if carried:
            raise Unsupported(f"loop at {lid} carries {', '.join(carried)} from one iteration to the next")
        if has_break:
            raise Unsupported(f"loop at {lid} with break over a symbolic range")
        n = seq.n
        if not self.fork(gt(n, ZERO)):
            return
        k = mk_atom("var", fresh_name("it"), (), "I")
        kp = atom_poly(k)
        base = self.ctx
        prefix = []
        passes = []
        while prefix is not None:
            if len(passes) > 64:
                raise Unsupported("loop body with too many paths")
            fr = Frame(prefix)
            fr.log = {"app": [], "write": [], "ret": None, "order": []}
            self.frames.append(fr)
            self.ctx = base.plus(ge(kp, ZERO), lt(kp, n))
            self._known = {}
            self.loopdepth += 1
            self.loopvars.append(k)
            ok = False
            try:
                yield seq.elem(kp)
                ok = True
            finally:
                self.loopdepth -= 1
                self.loopvars.pop()
                if not ok:
                    # exception out of the loop body: only sound when it is unconditional
                    if fr.conds:
                        import sys as _s
                        raise Unsupported(f"exception inside loop at {lid}")
            if lid in self.returns:
                fr.log["ret"] = self.returns.pop(lid)
                fr.log["hasret"] = True
            self.frames.pop()
            passes.append((And(*fr.conds), fr.log))
            prefix = self.next_prefix(fr.trace)
        self.ctx = base
        self._known = {}
        self.finish_loop(lid, k, n, passes)

    def finish_loop(self, lid, k, n, passes):
        rets = [(c, lg) for c, lg in passes if lg.get("hasret")]
        if rets:
            if any(lg["app"] or lg["write"] for _, lg in passes):
                raise Unsupported("search loop with side effects")
            rho = Or(*[c for c, _ in rets])
            self.search[lid] = (k, n, rho, [(c, lg["ret"]) for c, lg in rets])
            return
        apps = [lg["app"] for _, lg in passes]
        keys = [[(id(l), kind) for l, kind, *_ in a] for a in apps]
        if any(kk != keys[0] for kk in keys):
            raise Unsupported("appends differ between branches of a loop body")
        for idx in range(len(keys[0])):
            lst, kind = apps[0][idx][0], apps[0][idx][1]
            if kind == "one":
                val = apps[-1][idx][2]
                for (c, _), a in list(zip(passes, apps))[-2::-1]:
                    val = merge(c, a[idx][2], val)
                blk = ("one", None, lambda i, val=val: subst_val(val, {k.id: i}))
            else:
                # block of inner length len(k) with element e(k, j)
                if len(passes) != 1:
                    raise Unsupported("branching around a nested append loop")
                blen, belem = apps[0][idx][2], apps[0][idx][3]
                blk = ("block", lambda i, blen=blen: subst(blen, {k.id: i}),
                       lambda i, j, belem=belem: subst_val(belem(j), {k.id: i}))
            self.attach_block(lst, n, blk)
        writes = [lg["write"] for _, lg in passes]
        if any(writes):
            if len(passes) != 1:
                # merge per storage when every branch writes the same places
                raise Unsupported("branching around array writes in a loop body")
            for st, inv, val in writes[0]:
                # parallel writes: storage index with coordinate `axis` equal to k
                ax = inv
                old = st.f

                def newf(*ix, old=old, ax=ax, val=val):
                    cond = And(ge(ix[ax], ZERO), lt(ix[ax], n))
                    return select_any(cond, lambda: sc_subst(val(*ix), {k.id: ix[ax]}), lambda: old(*ix))

                st.f = newf
                st.writes += 1

    search = {}

    def attach_block(self, lst, n, blk):
        kind, blen, belem = blk
        if not isinstance(lst, SymList):
            raise Unsupported("append to a foreign list in a loop")
        if list.__len__(lst) or lst.sym is not None:
            if lst.sym is not None or kind != "one":
                raise Unsupported("append to a non-empty list in a symbolic loop")
            pre = list(list.__iter__(lst))
            m = const(len(pre))

            def el(i):
                r = belem(i - m)
                for j, v in enumerate(pre):
                    r = merge(eq(i, const(j)), v, r)
                return r

            if self.loopdepth:
                raise Unsupported("nested append to non-empty list")
            lst.sym = SymSeq(n + m, el)
            return
        if self.loopdepth:
            # still inside an outer loop: log a block
            if kind != "one":
                raise Unsupported("triple nested append loop")
            self.top.log["app"].append((lst, "block", n, lambda j: belem(j)))
            return
        if kind == "one":
            lst.sym = SymSeq(n, belem)
            return
        lst.sym = ragged(n, blen, belem, self)

    def log_append(self, lst, v):
        lg = self.top.log
        if lg is None:
            return False
        lg["app"].append((lst, "one", v))
        return True

    def set_return(self, lid, v):
        self.returns[lid] = v

    def has_return(self, lid):
        if lid in self.search:
            k, n, rho, vals = self.search[lid]
            L = lam(1, lambda i: subst(rho, {k.id: i}))
            ex = any_((n,), L)
            if not self.fork(ex):
                del self.search[lid]
                self.ctx.qfacts.append((None, 1, lambda i: Implies(And(ge(i, ZERO), lt(i, n)), Not(lam_apply(L, i)))))
                return False
            # the first index that returns
            first = first_index(n, L)
            self.ctx.add(And(ge(first, ZERO), lt(first, n)))
            self.ctx.add(lam_apply(L, first))
            self.ctx.qfacts.append((None, 1, lambda i: Implies(And(ge(i, ZERO), lt(i, first)), Not(lam_apply(L, i)))))
            r = None
            out = vals[-1][1]
            out = subst_val(out, {k.id: first})
            for c, v in vals[-2::-1]:
                out = merge(subst(c, {k.id: first}), subst_val(v, {k.id: first}), out)
            del self.search[lid]
            self.returns[lid] = out
            return True
        return lid in self.returns

    def take_return(self, lid):
        return self.returns.pop(lid)

    def as_seq(self, it):
        from . import npstub, xrstub
        if isinstance(it, SymList):
            return it.sym if it.sym is not None and not it.sym.n.is_const() else None
        if isinstance(it, SymSeq):
            return None if it.n.is_const() else it
        if isinstance(it, npstub.SymArray):
            if it.ndim == 0:
                raise TypeError("iteration over a 0-d array")
            n = P_(it.shape[0])
            if n.is_const():
                return None
            return SymSeq(n, lambda k: it.row(k), "array")
        if isinstance(it, xrstub.DataArray):
            n = P_(it.shape[0])
            if n.is_const():
                return None
            return SymSeq(n, lambda k: it.row(k), "xr")
        if hasattr(it, "_symseq"):
            return it._symseq()
        return None

    def comp(self, kind, f, it, cond):
        seq = self.as_seq(it)
        if seq is None:
            g = (f(x) for x in it if cond is None or cond(x))
            if kind == "list":
                return SymList(g)
            if kind == "set":
                return set(g)
            if kind == "dict":
                return dict(g)
            return g
        if cond is not None:
            raise Unsupported("filtering comprehension over a symbolic sequence")
        if kind in ("set", "dict"):
            raise Unsupported("set/dict comprehension over a symbolic sequence")
        n = seq.n
        if not self.fork(gt(n, ZERO)):
            return SymList()
        k = mk_atom("var", fresh_name("it"), (), "I")
        kp = atom_poly(k)
        base = self.ctx
        prefix = []
        outs = []
        while prefix is not None:
            if len(outs) > 64:
                raise Unsupported("comprehension body with too many paths")
            fr = Frame(prefix)
            fr.log = {"app": [], "write": [], "ret": None}
            self.frames.append(fr)
            self.ctx = base.plus(ge(kp, ZERO), lt(kp, n))
            self._known = {}
            self.loopdepth += 1
            self.loopvars.append(k)
            try:
                try:
                    v = ("val", f(seq.elem(kp)))
                except Exception as e:
                    v = ("exc", e)
                except PathAbort:
                    v = None
            finally:
                self.loopdepth -= 1
                self.loopvars.pop()
                self.frames.pop()
                self.ctx = base
                self._known = {}
            if fr.log["app"] or fr.log["write"]:
                raise Unsupported("side effects in a comprehension")
            if v is not None:
                outs.append((And(*fr.conds), v))
            prefix = self.next_prefix(fr.trace)
        exc = [(c, v[1]) for c, v in outs if v[0] == "exc"]
        vals = [(c, v[1]) for c, v in outs if v[0] == "val"]
        for c, e in exc:
            L = lam(1, lambda i: subst(c, {k.id: i}))
            if self.fork(any_((n,), L)):
                raise e
            self.ctx.qfacts.append((None, 1, lambda i, L=L: Implies(And(ge(i, ZERO), lt(i, n)), Not(lam_apply(L, i)))))
        if not vals:
            raise PathAbort()
        val = vals[-1][1]
        for c, v in vals[-2::-1]:
            val = merge(c, v, val)
        s = SymList()
        s.sym = SymSeq(n, lambda i: subst_val(val, {k.id: i}))
        return s if kind == "list" else s.sym

    def unpack(self, x, n):
        if isinstance(x, (tuple, list)) and not (isinstance(x, SymList) and x.sym is not None):
            return tuple(x)
        if isinstance(x, str):
            return tuple(x)
        return tuple(x)

    # ------------------------------------------------------------ calls
    def mklist(self, l):
        return SymList(l)

    def not_(self, v):
        if isinstance(v, SBool):
            return ~v
        return not v

    def is_(self, a, b):
        if (isinstance(a, Opq) or isinstance(b, Opq)) and a is not b:
            raise Unsupported("identity of an arbitrary argument")
        a_ = self.type_token(a)
        b_ = self.type_token(b)
        return a_ is b_

    def type_token(self, a):
        return a

    def contains(self, x, c):
        from . import npstub
        if hasattr(c, "_contains"):
            return c._contains(x)
        if isinstance(c, (set, frozenset, tuple, list, dict)) or type(c).__name__ in ("dict_keys", "odict_keys"):
            if isinstance(c, SymList) and c.sym is not None:
                raise Unsupported("membership in symbolic list")
            if isinstance(x, (SymStr,)):
                return SBool(Or(*[x.eq_const(y) for y in c if isinstance(y, (str, SymStr))]))
            if any(isinstance(y, SymStr) for y in c) and isinstance(x, str):
                return SBool(Or(*[(y.eq_const(x) if isinstance(y, SymStr) else B(x == y)) for y in c]))
            if isinstance(x, Sc):
                return SBool(Or(*[truth(V.eq_(x, y)).b for y in c if is_scalar(y)]))
            return x in c
        return x in c

    def call(self, f, *a, **k):
        h = _INTERCEPT.get(f) if _hashable(f) else None
        if h is not None:
            return h(self, *a, **k)
        if isinstance(f, types.FunctionType) and hasattr(f, "__repo__"):
            return self.repo_call(f, a, k)
        bm = getattr(f, "__self__", None)
        if isinstance(bm, str) and f.__name__ == "join":
            seq = self.as_seq(a[0])
            if seq is not None:
                return sym_join(bm, seq)
            return bm.join([str(x) for x in a[0]])
        return f(*a, **k)

    def repo_call(self, f, a, k):
        q = f.__repo__
        self.covered.add(q)
        c = self.contracts.get(q)
        if c is not None and self.modular and q not in self.active_contracts:
            r = c(self, f, a, k)
            if r is not NotImplemented:
                self.used.add(q)
                return r
        return f(*a, **k)

    # ------------------------------------------------------------ modules
    def load(self, name):
        """instrumented module geocat.comp.<name>"""
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(REPO, "geocat", "comp", name + ".py")
        if not os.path.exists(path):
            raise Unsupported(f"module {name} not found")
        src = open(path).read()
        code = instrument(src, path, name)
        from . import stubs
        m = types.ModuleType("geocat.comp." + name)
        m.__file__ = path
        eng = self

        def imp(nm, globals=None, locals=None, fromlist=(), level=0):
            if level:
                if nm:
                    return eng.load(nm)
                ns = types.SimpleNamespace()
                for x in fromlist or ():
                    setattr(ns, x, eng.load(x))
                return ns
            if nm.startswith("geocat.comp"):
                rest = nm.split(".")[2:]
                if rest:
                    return eng.load(rest[0])
                ns = types.SimpleNamespace()
                for x in fromlist or ():
                    for mm in MODS:
                        if hasattr(eng.load(mm), x):
                            setattr(ns, x, getattr(eng.load(mm), x))
                return ns
            return stubs.import_(nm, fromlist)

        bi = dict(vars(builtins))
        bi["__import__"] = imp
        m.__dict__["__builtins__"] = bi
        m.__dict__["__eng"] = self
        m.__dict__["__name__"] = "geocat.comp." + name
        self.modules[name] = m
        save = _Eng.cur
        _Eng.cur = self
        if not hasattr(self, "ctx"):
            self.start_path([])
        try:
            import warnings as _w
            with _w.catch_warnings():
                _w.simplefilter("ignore")
                exec(code, m.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        finally:
            _Eng.cur = save
        for nm, v in list(m.__dict__.items()):
            if isinstance(v, types.FunctionType) and v.__globals__ is m.__dict__:
                v.__repo__ = f"{name}.{v.__name__}"
        return m


MODS = ["meteorology", "interpolation", "fourier_filters", "gradient", "spherical", "stats", "climatologies", "gc_util"]


def _hashable(f):
    try:
        hash(f)
        return True
    except Exception:
        return False


def select_any(c, fa, fb):
    if c is TRUE:
        return fa()
    if c is FALSE:
        return fb()
    return select(c, fa(), fb())


def subst_val(v, mp):
    from . import npstub, xrstub
    if isinstance(v, (Sc, SBool)):
        return sc_subst(v, mp)
    if isinstance(v, SymStr):
        return SymStr(subst(v.code, mp))
    if isinstance(v, npstub.SymArray):
        f = v.snapshot()
        return npstub.SymArray(tuple(dim(subst(P_(d), mp)) for d in v.shape),
                               lambda *ix: subst_elem(f, ix, mp), v.kind)
    if isinstance(v, xrstub.DataArray):
        return v._like(subst_val(v._arr, mp))
    if isinstance(v, SymSeq):
        return SymSeq(subst(v.n, mp), lambda i: subst_val(v.elem(i), mp), v.kind)
    if isinstance(v, tuple):
        return tuple(subst_val(x, mp) for x in v)
    if isinstance(v, SymList) and v.sym is not None:
        s = SymList()
        s.sym = subst_val(v.sym, mp)
        return s
    if isinstance(v, list):
        return SymList([subst_val(x, mp) for x in v])
    if isinstance(v, (str, int, float, bool, type(None), bytes)) or isinstance(v, type):
        return v
    raise Unsupported(f"generic element of type {type(v).__name__}")


def subst_elem(f, ix, mp):
    """f(ix) with the loop variable replaced, without capturing it inside ix"""
    # ix may itself mention the loop variable's replacement only: evaluate at fresh places
    ph = [mk_atom("var", fresh_name("se"), (), "I") for _ in ix]
    r = f(*[atom_poly(a) for a in ph])
    r = sc_subst(r, mp)
    return sc_subst(r, {a.id: P(i) for a, i in zip(ph, ix)})


def first_index(n, L):
    """least k with L(k) (canonical term)"""
    return extremum("min", (n,), lam(1, lambda k: ite(lam_apply(L, k), k, n)), "I")


def rag_facts(eng):
    eng.ctx.elem["rag_n"] = lambda key_, h: And(
        ge(T.app("rag_n", (key_, h), "I"), ZERO), ge(T.app("rag_m", (key_, h), "I"), ZERO),
        lt(T.app("rag_m", (key_, h), "I"), lam_apply(key_, T.app("rag_n", (key_, h), "I"))))


def divmod_(h, m):
    q = fn("floor", h / m)
    return q, h - q * m


def ragged(n, blen, belem, eng):
    """concatenation of blocks k = 0..n-1 of length blen(k), element belem(k, j)"""
    # total and offset for blen(k) = a*k + b
    t = mk_atom("var", fresh_name("rg"), (), "I")
    bl = blen(atom_poly(t))
    d = dict(bl.terms)
    a = d.pop(((t.id, 1),), Fr(0))
    b = mk_poly(d)
    if free_hits(b, {t.id: 1}):
        raise Unsupported("nested append loop whose inner length is not linear")
    if a == 0 and b.is_const():
        # blocks of one length: position h is element h mod m of block floor(h / m)
        s = SymSeq(n * b, lambda h: belem(*divmod_(h, b)))
        return s
    off = lambda k: const(a / 2) * k * (k - 1) + b * k
    tot = off(n)
    # make it visibly an integer
    key = lam(1, lambda k: blen(k))
    eng.trusted.add("enumeration of (outer, inner) pairs of a nested append loop by position (bijection lemma)")

    def el(h):
        N = T.app("rag_n", (key, h), "I")
        M = T.app("rag_m", (key, h), "I")
        return belem(N, M)

    total = T.app("rag_total", (key, n), "I")
    rag_facts(eng)
    s = SymSeq(total, el)
    s.rag = (key, n)
    eng.ctx.add(eq(total, tot))
    eng.ctx.add(ge(total, ONE))
    return s


class SymStr(str):
    """an unknown string: an integer code, constants get distinct codes"""

    codes = {}

    def __new__(cls, code):
        s = str.__new__(cls, "<sym>")
        s.code = code
        return s

    @classmethod
    def const_code(cls, s):
        if s not in cls.codes:
            cls.codes[s] = 1000 + len(cls.codes)
        return const(cls.codes[s])

    def eq_const(self, o):
        oc = o.code if isinstance(o, SymStr) else self.const_code(str(o))
        return eq(self.code, oc)

    def __eq__(self, o):
        if isinstance(o, SymStr):
            return SBool(eq(self.code, o.code))
        if isinstance(o, str):
            return SBool(self.eq_const(o))
        return False

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else True

    def __hash__(self):
        return hash(("symstr", self.code.id))

    def __bool__(self):
        return bool(SBool(Not(self.eq_const(""))))

    def _op(self, name, *args):
        cs = []
        for x in args:
            if isinstance(x, SymStr):
                cs.append(x.code)
            elif isinstance(x, str):
                cs.append(self.const_code(x))
            else:
                raise Unsupported("string operation with a non-string argument")
        return SymStr(T.app("STR_" + name, (self.code, *cs), "I"))

    def lower(self): return self._op("lower")
    def upper(self): return self._op("upper")
    def capitalize(self): return self._op("capitalize")
    def title(self): return self._op("title")
    def casefold(self): return self._op("casefold")
    def swapcase(self): return self._op("swapcase")

    def strip(self, *a): return self._op("strip", *a)

    def replace(self, a, b): return self._op("replace", a, b)

    def split(self, sep=None):
        if not isinstance(sep, str):
            raise Unsupported("split at white space")
        c = sep.code if isinstance(sep, SymStr) else self.const_code(sep)
        n = T.app("STR_nparts", (self.code, c), "I")
        _Eng.cur.assume(ge(n, ONE))
        return SymSeq(n, lambda k: SymStr(T.app("STR_part", (self.code, c, k), "I")), "list")

    def __getattribute__(self, n):
        if n in ("startswith", "endswith", "join", "lstrip", "rstrip", "find", "index", "count", "partition", "rsplit",
                 "splitlines", "translate", "encode", "format", "isidentifier"):
            raise Unsupported("string operation on an unknown string")
        return object.__getattribute__(self, n)


def sym_join(sep, seq):
    """sep.join(seq) of a sequence of unknown length of unknown strings"""
    e0 = seq.elem(mk_probe())
    if not isinstance(e0, SymStr):
        raise Unsupported("join of non-strings")
    return SymStr(T.app("STR_join", (SymStr.const_code(sep), seq.n, lam(1, lambda k: seq.elem(k).code)), "I"))


class SymNames:
    """a data set known by the names of its variables and their name attributes only"""

    def __init__(self, n, name, attrs):
        self.n, self.name_, self.attr_ = P_(n), name, attrs  # attrs: key -> (k -> SymStr)
        self.data_vars = SymSeq(self.n, lambda k: SymStr(name(k)), "list")

    def __getitem__(self, key):
        if not isinstance(key, SymStr):
            raise Unsupported("variable of a data set by a concrete name")
        # which variable is it: names are the applications of the naming function
        for m, c in key.code.terms:
            if len(key.code.terms) == 1 and c == 1 and len(m) == 1 and m[0][1] == 1:
                a = T._atoms[m[0][0]]
                k = a.args[0] if a.kind == "app" and a.args and isinstance(a.args[0], Poly) else None
                if k is not None and self.name_(k) is key.code:
                    return SymVar(self, k)
        raise Unsupported("variable of a data set by a computed name")

    def _contains(self, x):
        return SBool(self.member(x))

    @staticmethod
    def member(x):
        return T.bapp("STR_in", (x.code if isinstance(x, SymStr) else SymStr.const_code(x),))


class SymVar:
    def __init__(self, ds, k):
        self.attrs = SymAttrs(ds, k)


class SymAttrs:
    def __init__(self, ds, k):
        self.ds, self.k = ds, k

    def get(self, key, default=None):
        f = self.ds.attr_.get(key)
        if f is None or default != "":
            raise Unsupported("attribute of a named variable")
        return SymStr(f(self.k))


class Opq:
    """an argument about which nothing is known and nothing may be asked"""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _no(self, *a, **k):
        raise Unsupported("operation on an arbitrary argument")

    __bool__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __len__ = __iter__ = __getitem__ = __call__ = __add__ = __mul__ = _no
    __radd__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __neg__ = __setattr__ = __contains__ = _no
    __hash__ = object.__hash__

    def __getattr__(self, n):
        raise Unsupported("attribute of an arbitrary argument")

    def __repr__(self):
        return "<" + object.__getattribute__(self, "_n") + ">"


# ---------------------------------------------------------------- builtins
_INTERCEPT = {}


def intercept(*fs):
    def d(g):
        for f in fs:
            _INTERCEPT[f] = g
        return g
    return d


@intercept(len)
def _len(eng, x):
    from . import npstub, xrstub
    if isinstance(x, SymList) and x.sym is not None:
        return dim(x.sym.n)
    if isinstance(x, SymSeq):
        return dim(x.n)
    if isinstance(x, npstub.SymArray):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return dim(x.shape[0])
    if isinstance(x, Sc):
        raise TypeError("object of type 'float' has no len()")
    if hasattr(x, "_symlen"):
        return x._symlen()
    return len(x)


@intercept(int)
def _int(eng, x=0, *a):
    from .npstub import SymArray
    if isinstance(x, SymArray):
        x = x.item()
    if isinstance(x, (Sc, SBool)):
        x = lift(x)
        if x.nan is not FALSE and eng.fork(x.nan):
            raise ValueError("cannot convert float NaN to integer")
        t = trunc(x)
        if t.re.is_const():
            return int(t.re.const)
        return Sc(t.re, FALSE, "i", np=False)
    if hasattr(x, "item") and not isinstance(x, (int, float)):
        return _int(eng, x.item())
    return int(x, *a)


@intercept(float)
def _float(eng, x=0.0):
    from .npstub import SymArray
    if isinstance(x, SymArray):
        x = x.item()
    if isinstance(x, (Sc, SBool)):
        x = lift(x)
        return Sc(x.re, x.nan, "f", np=False)
    if not isinstance(x, (int, float, str)) and hasattr(x, "item"):
        return _float(eng, x.item())
    return float(x)


@intercept(bool)
def _bool(eng, x=False):
    return bool(x)


@intercept(abs)
def _abs(eng, x):
    return abs(x)


@intercept(complex)
def _complex(eng, a=0, b=0):
    if isinstance(a, Sc) or isinstance(b, Sc):
        a, b = lift(a), lift(b)
        return Sc(a.re, Or(a.nan, b.nan), "c", b.re)
    return complex(a, b)


@intercept(min)
def _min(eng, *a, **k):
    return _mm(eng, "min", min, a, k)


@intercept(max)
def _max(eng, *a, **k):
    return _mm(eng, "max", max, a, k)


def _mm(eng, which, f, a, k):
    from . import npstub
    if k:
        if any(isinstance(x, (Sc,)) for x in a):
            raise Unsupported("min/max with key/default")
        return f(*a, **k)
    if len(a) == 1:
        it = a[0]
        if isinstance(it, npstub.SymIdx):
            return it.extreme(which)
        seq = eng.as_seq(it)
        if seq is None:
            xs = list(it)
        else:
            # python min/max over the elements of a symbolic sequence
            if not eng.fork(gt(seq.n, ZERO)):
                raise ValueError(f"{which}() arg is an empty sequence")
            e0 = seq.elem(mk_probe())
            if not isinstance(e0, Sc):
                raise Unsupported("min/max of non-numbers")
            L = lam(1, lambda i: lift(seq.elem(i)).re)
            nn = any_((seq.n,), lam(1, lambda i: lift(seq.elem(i)).nan))
            return Sc(extremum(which, (seq.n,), L, "I" if e0.kind == "i" else "R"), nn, e0.kind)
    else:
        xs = list(a)
    if not any(isinstance(x, (Sc, SBool)) for x in xs):
        return f(xs)
    r = xs[0]
    for x in xs[1:]:
        x_, r_ = lift(x), lift(r)
        c = lt(x_.re, r_.re) if which == "min" else gt(x_.re, r_.re)
        r = Sc(ite(c, x_.re, r_.re), Or(x_.nan, r_.nan), V.kmax(x_.kind, r_.kind), None, x_.np or r_.np)
    return r


def mk_probe():
    return atom_poly(mk_atom("var", fresh_name("probe"), (), "I"))


@intercept(sum)
def _sum(eng, it, start=0):
    seq = eng.as_seq(it)
    if seq is None:
        r = start
        for x in it:
            r = r + x
        return r
    e0 = seq.elem(mk_probe())
    if not is_scalar(e0):
        raise Unsupported("sum of non-scalars")
    L = lam(1, lambda i: lift(seq.elem(i)).re)
    nn = any_((seq.n,), lam(1, lambda i: lift(seq.elem(i)).nan))
    return Sc(sum_((seq.n,), L), nn, lift(e0).kind) + start


@intercept(any)
def _any(eng, it):
    seq = eng.as_seq(it)
    if seq is None:
        for x in it:
            if x:
                return True
        return False
    if not eng.fork(gt(seq.n, ZERO)):
        return False
    return SBool(any_((seq.n,), lam(1, lambda i: truth(seq.elem(i)).b)))


@intercept(all)
def _all(eng, it):
    seq = eng.as_seq(it)
    if seq is None:
        for x in it:
            if not x:
                return False
        return True
    if not eng.fork(gt(seq.n, ZERO)):
        return True
    return SBool(all_((seq.n,), lam(1, lambda i: truth(seq.elem(i)).b)))


@intercept(range)
def _range(eng, *a):
    if not any(isinstance(x, Sc) and not x.is_const() for x in a):
        return range(*[int(x) for x in a])
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if int(st) != 1:
        raise Unsupported("symbolic range with a step")
    lo, hi = lift(lo).re, lift(hi).re
    n = hi - lo
    if not eng.known(ge(n, ZERO)):
        n = ite(ge(n, ZERO), n, ZERO)
    return SymSeq(n, lambda k: Sc(lo + k, FALSE, "i", np=False), "range")


@intercept(zip)
def _zip(eng, *its, **k):
    seqs = [eng.as_seq(x) for x in its]
    if all(s is None for s in seqs):
        return zip(*its)
    ns, els = [], []
    for s, x in zip(seqs, its):
        if s is None:
            x = list(x)
            raise Unsupported("zip of symbolic and concrete sequences")
        ns.append(s.n)
        els.append(s)
    n = ns[0]
    for m in ns[1:]:
        if m is not n and not eng.known(eq(m, n)):
            n = ite(le(n, m), n, m)
    return SymSeq(n, lambda i: tuple(s.elem(i) for s in els), "zip")


@intercept(enumerate)
def _enum(eng, it, start=0):
    s = eng.as_seq(it)
    if s is None:
        return enumerate(it, start)
    st = lift(start).re
    return SymSeq(s.n, lambda i: (Sc(i + st, FALSE, "i", np=False), s.elem(i)), "enumerate")


@intercept(reversed)
def _rev(eng, it):
    s = eng.as_seq(it)
    if s is None:
        return reversed(list(it))
    return SymSeq(s.n, lambda i: s.elem(s.n - 1 - i), "reversed")


@intercept(map)
def _map(eng, f, *its):
    if all(eng.as_seq(x) is None for x in its):
        return [eng.call(f, *t) for t in zip(*its)]
    z = _zip(eng, *its)
    return eng.comp("gen", lambda t: eng.call(f, *t), z, None)


@intercept(list, tuple)
def _list(eng, it=()):
    s = eng.as_seq(it)
    if s is None:
        return SymList(it)
    l = SymList()
    l.sym = s
    return l


def _tuple(eng, it=()):
    s = eng.as_seq(it)
    if s is None:
        return tuple(it)
    raise Unsupported("tuple of a symbolic sequence")


_INTERCEPT[tuple] = _tuple


@intercept(set)
def _set(eng, it=()):
    if eng.as_seq(it) is not None:
        raise Unsupported("set of a symbolic sequence")
    return set(it)


@intercept(sorted)
def _sorted(eng, it, **k):
    if eng.as_seq(it) is not None or any(isinstance(x, Sc) for x in it):
        raise Unsupported("sorted on symbolic data")
    return SymList(sorted(it, **k))


@intercept(type)
def _type(eng, x, *a):
    from . import npstub
    if isinstance(x, SymList):
        return list
    if isinstance(x, SymSeq):
        return {"range": range}.get(x.kind, list)
    if isinstance(x, SBool):
        return bool
    if isinstance(x, SymStr):
        return str
    if isinstance(x, Sc):
        if x.np:
            return npstub.float64 if x.kind == "f" else npstub.int64 if x.kind == "i" else npstub.complex128 if \
                x.kind == "c" else npstub.bool_
        return {"f": float, "i": int, "b": bool, "c": complex}[x.kind]
    return type(x, *a)


@intercept(isinstance)
def _isinstance(eng, x, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for y in ts:
        if isinstance(y, types.UnionType):
            flat.extend(y.__args__)
        elif isinstance(y, tuple):
            flat.extend(y)
        else:
            flat.append(y)
    for y in flat:
        if isinstance(x, (Sc, SBool)):
            tx = _type(eng, x)
            if isinstance(y, type) and issubclass(tx, y):
                return True
            if y is float and isinstance(x, Sc) and x.np and x.kind == "f":
                return True
            import numbers
            if y in (numbers.Number, numbers.Real) and not isinstance(x, SBool):
                return True
            if y is numbers.Integral and isinstance(x, Sc) and x.kind == "i":
                return True
        elif isinstance(x, SymSeq):
            if y is (range if x.kind == "range" else list):
                return True
        elif isinstance(y, type) and isinstance(x, y):
            return True
        elif not isinstance(y, type):
            if isinstance(x, y):
                return True
    return False


@intercept(hasattr)
def _hasattr(eng, x, n):
    if isinstance(x, SymList):
        return hasattr([], n)
    if isinstance(x, Sc) and not x.np:
        return hasattr(1.0, n)
    return hasattr(x, n)


@intercept(getattr)
def _getattr(eng, x, n, *d):
    return getattr(x, n, *d)


@intercept(round)
def _round(eng, x, n=None):
    if isinstance(x, Sc):
        raise Unsupported("round of a symbolic value")
    return round(x) if n is None else round(x, n)


@intercept(str)
def _str(eng, x=""):
    if isinstance(x, SymStr):
        return x
    return str(x)


@intercept(print)
def _print(eng, *a, **k):
    eng.events.append(("print", " ".join(map(str, a))))


@intercept(pow)
def _pow(eng, a, b, *c):
    return a ** b


@intercept(dict)
def _dict(eng, *a, **k):
    if a and hasattr(a[0], "_as_dict"):
        return dict(a[0]._as_dict(), **k)
    return dict(*a, **k)
