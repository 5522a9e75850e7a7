"""Rule harness: sessions over the abstract interpreter, obligations, verdicts, evidence.

A rule is a function run(R).  It opens sessions (one abstract state each), builds abstract inputs, lets the
interpreter compute the abstract effect of the package's functions on them, and states obligations on the result.
An obligation ends as
    proved     both sides have the same value number (same normal form)
    agreed     the value numbers differ in form, and random interpretation finds no point separating them
    refuted    a point (assignment of the input symbols) certainly separates the two sides, or the abstract
               execution ends in an exception / shape / type that the property excludes
    undecided  the analysis lost the value (unmodelled construct, budget): never reported as a violation
"""
import json
import os
import sys
import signal
import time
import traceback
from . import terms as T
from . import values as V
from . import npmodel as N
from .values import Sc, Arr, Ref, Phi, Top, StrT, AbsRaise, Unsupported, Dead, Exc
from .expr import X
from .interp import Package, Interp, has_unk, term, isnum, Iter

REPO = os.environ.get("CT_REPO", "/repo")


class Undecided(Exception):
    pass


class Quit(Exception):
    """the obligation group cannot continue (its violation has been recorded)"""


class Obj:
    """convenience wrapper around an abstract object"""

    def __init__(self, S, v):
        self.__dict__["S"] = S
        self.__dict__["v"] = v

    def __getattr__(self, name):
        return self.S.get(self, name)

    def __setattr__(self, name, val):
        self.S.set(self, name, val)

    def __getitem__(self, k):
        I = self.S.I
        return self.S.guard(lambda: self.S.wrap(I.getitem(self.v, self.S.un(k))))

    def __call__(self, *a, **kw):
        return self.S.call(self, *a, **kw)


def uniq(name, lo, hi, integer, specials):
    """a symbol name is tied to one range"""
    while name in T.SYMS:
        d = T.SYMS[name]
        if (d.get("lo"), d.get("hi"), d.get("integer"), d.get("specials")) == (lo, hi, integer, tuple(specials)):
            break
        name += "'"
    return name


class Session:
    def __init__(self, R, name, assume=(), max_steps=None):
        self.R = R
        self.name = name
        self.I = R.interp()
        self.I.steps = 0
        if max_steps:
            self.I.max_steps = max_steps
        self.assume = list(assume)
        self.allowed = ()      # exception names that calls in this session may raise
        self.mod = Obj(self, self.I.modules["cameratransform"])
        self.last = name

    # ---- values
    def un(self, v):
        if isinstance(v, Obj):
            return v.v
        if isinstance(v, X):
            return Sc(v.t, "float")
        if isinstance(v, T.Term):
            return Sc(v, "float")
        if isinstance(v, list):
            return self.I.newlist([self.un(x) for x in v])
        if isinstance(v, tuple):
            return tuple(self.un(x) for x in v)
        if isinstance(v, dict):
            return self.I.newdict({k: self.un(x) for k, x in v.items()})
        return v

    def wrap(self, v):
        return Obj(self, v)

    def f(self, name, lo=-10.0, hi=10.0, specials=(), **kw):
        return Sc(T.sym(uniq(name, lo, hi, False, specials), lo, hi, specials=tuple(specials), **kw), "float")

    def i(self, name, lo, hi, specials=()):
        return Sc(T.sym(uniq(name, lo, hi, True, specials), lo, hi, integer=True, specials=tuple(specials)), "int")

    def arr(self, ts, shape=None, dtype="float"):
        out = []

        def rec(x):
            if isinstance(x, (list, tuple)):
                n = None
                for y in x:
                    n = rec(y)
                return (len(x),) + (n or ())
            x = x.v if isinstance(x, Obj) else x
            x = x.t if isinstance(x, X) else x
            out.append(term(x) if not isinstance(x, T.Term) else x)
            return ()
        sh = rec(list(ts))
        return Obj(self, N.new(self.I, out, shape if shape is not None else sh, dtype))

    # ---- guarded execution
    def guard(self, fn):
        try:
            return fn()
        except AbsRaise as e:
            raise
        except Dead:
            raise Undecided("unreachable abstract state")

    def get(self, o, name):
        return self.guard(lambda: Obj(self, self.I.getattr_(self.un(o), name)))

    def set(self, o, name, val):
        self.guard(lambda: self.I.setattr_(self.un(o), name, self.un(val)))

    def setitem(self, o, k, val):
        self.guard(lambda: self.I.setitem(self.un(o), self.un(k), self.un(val)))

    def call(self, f, *a, **kw):
        f = self.un(f)
        q = getattr(f, "func", f)
        try:
            if isinstance(q, V.Func):
                self.last = self.I.qual(q)
            elif isinstance(q, V.ClassVal):
                self.last = "%s:%s" % (getattr(q.module, "path", ""), q.name)
        except Exception:
            pass
        return self.guard(lambda: Obj(self, self.I.call(f, [self.un(x) for x in a], {k: self.un(x) for k, x in kw.items()})))

    def ct(self, name):
        return self.get(self.mod, name)

    def sub(self, mod, name):
        return self.get(Obj(self, self.I.load("cameratransform." + mod)), name)

    def code(self, src):
        """a module of user code (callbacks handed to the package), interpreted like the package's own"""
        import hashlib
        name = "user_" + hashlib.sha1(src.encode()).hexdigest()[:8]
        self.I.pkg.sources.setdefault(name, ("<user code>", src))
        return Obj(self, self.I.load(name))

    def fork(self):
        """copy of the abstract state (values stay valid in both)"""
        return self.I.st.fork()

    def back(self, st):
        self.I.st = st.fork()

    # ---- reading results
    def terms(self, v):
        return terms_of(self.I, self.un(v))

    def pc(self):
        return list(self.I.st.pc)


def terms_of(I, v):
    """(shape, [terms]); nested tuples/lists become shapes when rectangular"""
    if isinstance(v, Top):
        raise Undecided("value lost: " + v.why)
    if isinstance(v, Phi):
        v = I.clean(v)
        if isinstance(v, Phi):
            res = []
            for alt in v.alts:
                res.append((alt[0], terms_of(I, alt[1])))
            sh = res[0][1][0]
            if any(r[1][0] != sh for r in res):
                raise Undecided("result shape depends on the path")
            out = list(res[-1][1][1])
            for c, (s, ts) in reversed(res[:-1]):
                out = [T.ite(c, a, b) for a, b in zip(ts, out)]
            return sh, out
        return terms_of(I, v)
    if isinstance(v, Arr):
        return tuple(v.shape), list(N.elems(I, v))
    if isinstance(v, Sc) or isinstance(v, (int, float, bool)):
        return (), [term(v)]
    if isinstance(v, (list, tuple)) or (isinstance(v, Ref) and v.kind == "list") or isinstance(v, Iter):
        items = list(v) if isinstance(v, (list, tuple)) else list(I.iterate(v))
        parts = [terms_of(I, x) for x in items]
        if not parts:
            return (0,), []
        sh = parts[0][0]
        if any(p[0] != sh for p in parts):
            raise Undecided("ragged result")
        return (len(parts),) + sh, [t for p in parts for t in p[1]]
    if isinstance(v, T.Term):
        return (), [v]
    if isinstance(v, X):
        return (), [v.t]
    if isinstance(v, Obj):
        return terms_of(I, v.v)
    raise NotNumeric(v)


class NotNumeric(Exception):
    def __init__(self, v):
        self.v = v


class OutOfTime(BaseException):
    pass


def out_of_time(*a):
    raise OutOfTime()


class Runner:
    def __init__(self, pid, tier, seed, pkg=None):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.pkg = pkg or Package(REPO)
        self._I = None
        self.results = []     # dicts
        self.findings = []
        self.analysed = set()
        self.unmodelled = {}
        self.points = 0
        self.sess = None
        self.group_name = ""
        self.npoints = 20 if tier == "quick" else 60
        self.samples = []
        self.budget = 600 if tier == "quick" else 3000

    @property
    def thorough(self):
        return self.tier == "thorough"

    def interp(self):
        if self._I is None:
            self._I = Interp(self.pkg)
            self._I.load("cameratransform")
            if self._I.exits:
                pass
            self._snap = self._I.snapshot()
        I = self._I
        self.collect()
        I.restore(self._snap)
        I.hooks = {}
        for n in ("virtual_files", "pictures", "web", "downloads", "cv_pose"):
            if hasattr(I, n):
                delattr(I, n)
        I.max_steps = 3000000
        I.steps = 0
        return I

    def collect(self):
        if self._I is not None:
            self.analysed |= self._I.analysed
            for k, n in self._I.unmodelled.items():
                self.unmodelled[k] = max(self.unmodelled.get(k, 0), n)

    # ---------------------------------------------------------- groups
    def group(self, name, fn, assume=(), allowed=()):
        """run fn(S) in a fresh session; an excluded exception inside is a refutation, a lost value is undecided"""
        if time.time() - self.t0 > self.budget:
            self.record(name, "undecided", "time budget")
            return
        self.group_name = name
        quick = self.tier == "quick"
        left = min(200 if quick else 1500, (780 if quick else 3600) - (time.time() - self.t0))
        try:
            signal.signal(signal.SIGALRM, out_of_time)
            signal.setitimer(signal.ITIMER_REAL, max(left, 1), 5)
            S = Session(self, name, assume)
            S.allowed = tuple(allowed)
            self.sess = S
            fn(S)
            self.no_raise(S, name)
        except Quit:
            pass
        except AbsRaise as e:
            self.raised(S, name, e.exc, S.pc() if S.I.st is not None else [], definite=True)
        except Undecided as e:
            self.record(name, "undecided", str(e))
        except NotNumeric as e:
            self.violate(name, "result is not numeric: %r" % (e.v,), S)
        except Unsupported as e:
            self.record(name, "undecided", "unsupported: %s" % (e,))
        except RecursionError:
            self.record(name, "undecided", "recursion limit of the analyser")
        except OutOfTime:
            self.record(name, "undecided", "time limit of a group")
        except MemoryError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            f = tb[-1]
            self.record(name, "undecided", "analyser: %s: %s at %s:%d" % (type(e).__name__, str(e)[:200], os.path.basename(f.filename), f.lineno))
            if os.environ.get("CT_DEBUG"):
                traceback.print_exc()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.collect()

    def record(self, name, verdict, detail="", where=None):
        self.results.append(dict(obligation=name, verdict=verdict, detail=detail, where=where))

    def violate(self, name, detail, S=None, witness=None, key=None):
        where = S.last if S is not None else None
        self.findings.append(dict(key=key or name, obligation=name, where=where, detail=detail, witness=witness))
        self.record(name, "refuted", detail, where)

    def raised(self, S, name, exc, pc, definite=False):
        if exc.name in S.allowed:
            return
        conds = list(pc) + list(S.assume)
        if exc.name in ("Top",) or any(has_unk(c) for c in conds):
            self.record(name, "undecided", "possible %s" % exc.name)
            return
        p = feasible(conds, self.npoints)
        if p is None:
            if definite:
                self.record(name, "undecided", "raises %s on a state with no concrete witness" % exc.name)
            return
        self.violate(name, "raises %s%s (in %s)" % (exc.name, arg_text(exc), loc(exc.where)), S,
                     T.witness(p, conds), key=name + ":raises")

    def no_raise(self, S, name):
        """recorded exceptional exits with a concrete witness are refutations"""
        seen = set()
        for e in S.I.exits:
            if e.kind != "raise":
                continue
            k = (e.val.name, loc(e.val.where))
            if k in seen or e.val.name in S.allowed:
                continue
            n0 = len(self.findings)
            self.raised(S, name, e.val, e.st.pc)
            if len(self.findings) > n0:
                seen.add(k)
        S.I.exits = []

    # ---------------------------------------------------------- obligations
    def eq(self, name, got, want, assume=(), rel=1e-8, S=None, key=None, npoints=None):
        """got == want for every input (elementwise; NaN equals NaN)"""
        S = S or self.sess
        full = self.group_name + " / " + name if name else self.group_name
        try:
            sg, tg = S.terms(got)
            sw, tw = S.terms(want)
        except Undecided as e:
            self.record(full, "undecided", str(e))
            return False
        except NotNumeric as e:
            if isinstance(e.v, (str, StrT)) or e.v is None or isinstance(e.v, Ref):
                self.violate(full, "result is not numeric: %r" % (e.v,), S, key=key)
            else:
                self.record(full, "undecided", "result %r" % (e.v,))
            return False
        if sg != sw:
            p = feasible(S.pc() + S.assume + list(assume), self.npoints)
            if p is None:
                self.record(full, "undecided", "shape %s on a state without witness" % (sg,))
                return False
            self.violate(full, "shape %s, expected %s" % (sg, sw), S, key=key)
            return False
        ok = True
        verdict = "proved"
        for k, (a, b) in enumerate(zip(tg, tw)):
            v = self.eqt(full, a, b, assume, rel, S, key, npoints, k if len(tg) > 1 else None)
            if v == "refuted":
                return False
            if v != "proved" and verdict != "undecided":
                verdict = v
        self.record(full, verdict, where=S.last)
        return verdict != "undecided"

    def eqt(self, full, a, b, assume, rel, S, key, npoints, k):
        if a is b:
            return "proved"
        conds = S.pc() + S.assume + list(assume)
        if has_unk(a) or has_unk(b) or any(has_unk(c) for c in conds):
            return "undecided"
        p, used = T.refute(a, b, conds, npoints or self.npoints, True, rel)
        self.points += used
        if p is not None:
            vals = []
            for t in (a, b):
                try:
                    v = p.ev(T.num(t) if T.isbool(t) else t)
                    vals.append(v if isinstance(v, str) else v[0])
                except T.Ambiguous:
                    vals.append("?")
            self.violate(full, "element %s: code gives %r, property requires %r" % (k, vals[0], vals[1]), S,
                         dict(T.witness(p, [a, b] + conds), code=T.show(a, 5)[:800], required=T.show(b, 5)[:800]), key=key)
            return "refuted"
        if used == 0:
            return "undecided"
        return "agreed"

    def true(self, name, cond, assume=(), S=None, key=None, detail=""):
        """boolean obligation (python bool, abstract bool or boolean term)"""
        S = S or self.sess
        full = self.group_name + " / " + name
        if isinstance(cond, Obj):
            cond = cond.v
        if isinstance(cond, (Sc, X)):
            cond = cond.t
        if isinstance(cond, Top) or isinstance(cond, Phi):
            self.record(full, "undecided", "value lost")
            return None
        if isinstance(cond, bool):
            if cond:
                self.record(full, "proved", where=S.last)
                return True
            p = feasible(S.pc() + S.assume + list(assume), self.npoints)
            if p is None:
                self.record(full, "undecided", "no witness")
                return None
            self.violate(full, detail or "does not hold", S, key=key)
            return False
        if not T.isbool(cond):
            cond = T.lnot(T.eqn(cond, T.const(0)))
        v = self.eqt(full, cond, T.TRUE, assume, 1e-8, S, key, None, None)
        if v != "refuted":
            self.record(full, v, where=S.last)
        return v != "refuted"

    def expect_raise(self, name, S, fn, names=("ValueError",)):
        """fn must end in one of the exceptions on every feasible path"""
        full = self.group_name + " / " + name
        S.I.exits = []
        try:
            r = fn()
        except AbsRaise as e:
            bad = [x for x in S.I.exits if x.kind == "raise" and x.val.name not in names]
            S.I.exits = []
            if e.exc.name in names:
                self.record(full, "proved", where=S.last)
                return True
            self.violate(full, "raises %s instead of %s" % (e.exc.name, "/".join(names)), S)
            return False
        ex = S.I.exits
        S.I.exits = []
        conds = S.pc() + S.assume
        if any(has_unk(c) for c in conds):
            self.record(full, "undecided", "depends on a lost value")
            return None
        p = feasible(conds, self.npoints)
        if p is None:
            self.record(full, "agreed", "no accepted input found", where=S.last)
            return True
        self.violate(full, "accepted without %s" % "/".join(names), S, T.witness(p, conds))
        return False


def feasible(conds, npoints=20):
    conds = [c for c in conds if c.op != "true"]
    if not conds:
        return T.pool(1)[0]
    if any(c.op == "false" for c in conds) or any(has_unk(c) for c in conds):
        return None
    for p in T.pool(npoints * 6):
        if T.holds(p, conds):
            return p
    # directed: satisfy the failing conjuncts one after the other
    for p in T.pool(6):
        q = p
        for _ in range(8):
            bad = [c for c in conds if not T.holds(q, [c])]
            if not bad:
                return q
            nq = None
            for c in bad:
                nq = solve_bool(q, c)
                if nq is not None:
                    break
            if nq is None:
                break
            q = nq
    return None


def solve_bool(p, c, want=True):
    if c.op == "not":
        return solve_bool(p, c.args[0], not want)
    if c.op in ("and", "or"):
        conj = (c.op == "and") == want
        if conj:
            q = p
            for x in c.args:
                try:
                    if q.evb(x) == want:
                        continue
                except T.Ambiguous:
                    pass
                q2 = solve_bool(q, x, want)
                if q2 is None:
                    return None
                q = q2
            return q
        for x in c.args:
            q = solve_bool(p, x, want)
            if q is not None:
                return q
        return None
    return T._solve_cond(p, c, want)


def loc(w):
    if not w:
        return "?"
    return "%s" % (w[0],)


def arg_text(exc):
    try:
        s = ", ".join(a if isinstance(a, str) else repr(a) for a in exc.args)
        return "(%s)" % s[:160] if s else ""
    except Exception:
        return ""
