"""Abstract interpreter over the Python syntax trees of the analysed package.

Control-flow joins merge abstract states with gated phi values; functions are
inlined context-sensitively; loops over statically known collections are
unrolled, other loops are widened (every location the body can write is
forgotten).  Nothing of the analysed package is executed or imported.
"""
import ast
import builtins
import math
import os
import time

from . import terms as T
from .terms import Term, TRUE, FALSE, const
from .values import *
from .values import simp, bsimp, newid, UNBOUND, _ids


class FuncInfo:
    __slots__ = ("locals", "globals", "nonlocals", "has_inner", "is_gen")


_finfo = {}


def func_info(node):
    fi = _finfo.get(id(node))
    if fi is not None:
        return fi[1]
    fi = FuncInfo()
    fi.locals, fi.globals, fi.nonlocals = set(), set(), set()
    fi.has_inner = False
    fi.is_gen = False
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        fi.locals.add(x.arg)
    if a.vararg:
        fi.locals.add(a.vararg.arg)
    if a.kwarg:
        fi.locals.add(a.kwarg.arg)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            fi.locals.add(n.name)
            fi.has_inner = True
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, (ast.Lambda,)):
            fi.has_inner = True
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # own scope; walrus leaks
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    fi.locals.add(x.target.id)
                if isinstance(x, ast.Lambda):
                    fi.has_inner = True
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            fi.locals.add(n.id)
        elif isinstance(n, ast.Global):
            fi.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            fi.nonlocals.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                fi.locals.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            fi.locals.add(n.name)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            fi.is_gen = True
        for c in ast.iter_child_nodes(n):
            visit(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for b in body:
        visit(b)
    fi.locals -= fi.globals | fi.nonlocals
    _finfo[id(node)] = (node, fi)
    return fi


class Frame:
    __slots__ = ("cell", "parent", "module", "locals", "globals", "func", "yields", "isclass")

    def __init__(self, cell, parent, module, locals_, globals_, func, isclass=False):
        self.cell = cell
        self.parent = parent
        self.module = module
        self.locals = locals_
        self.globals = globals_
        self.func = func
        self.yields = None
        self.isclass = isclass


EXC_BASES = {"HTTPError": "RequestException", "RequestException": "OSError", "LinAlgError": "ValueError", "UFuncTypeError": "TypeError", "AxisError": "IndexError"}


def exc_mro(name):
    if name in EXC_BASES:
        return [name] + exc_mro(EXC_BASES[name])
    c = getattr(builtins, name, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return [x.__name__ for x in c.__mro__ if x is not object]
    return [name, "Exception", "BaseException"]


def is_exc_name(name):
    c = getattr(builtins, name, None)
    return isinstance(c, type) and issubclass(c, BaseException)


def plain(x):
    """host number of a constant float"""
    if isinstance(x, Sc) and x.ty in ("float", "npfloat") and x.t.op == "const":
        return float(x.t.args[0])
    return x


NUMT = (int, float, Sc)


def isnum(v):
    return isinstance(v, (int, float, Sc)) or isinstance(v, bool)


def term(v):
    """term of a numeric scalar value"""
    if isinstance(v, Sc):
        return v.t
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, float)):
        return const(v)
    if isinstance(v, Term):
        return v
    raise TypeError(v)


def tyof(v):
    if isinstance(v, Sc):
        return v.ty
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    return "float"


def mkscalar(t, ty):
    """native value for constants where this loses nothing"""
    if ty == "bool":
        if t.op == "true":
            return True
        if t.op == "false":
            return False
    elif ty == "int" and t.op == "const" and t.args[0].denominator == 1:
        return int(t.args[0])
    elif ty == "float":
        if t.op == "const":
            f = float(t.args[0])
            from fractions import Fraction
            if math.isfinite(f) and Fraction(repr(f)) == t.args[0]:
                return f
        elif t.op == "nan":
            return math.nan
        elif t.op == "inf":
            return math.inf
        elif t.op == "ninf":
            return -math.inf
    return Sc(t, ty)


_unk = [0]


def unkterm(why="?"):
    _unk[0] += 1
    return T.sym("unk:%s#%d" % (why[:24], _unk[0]), -1e300, 1e300)


def unkbool(why="?"):
    _unk[0] += 1
    return T.bsym("unk:%s#%d" % (why[:24], _unk[0]))


def has_unk(t):
    return any(n.startswith("unk:") for n in T.symbols(t))


class Package:
    def __init__(self, root, name="cameratransform"):
        self.root = root
        self.name = name
        self.trees = {}
        self.sources = {}
        base = os.path.join(root, name)
        for dp, dn, fn in os.walk(base):
            dn[:] = [d for d in dn if d not in ("__pycache__",)]
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                mod = rel[:-3].replace(os.sep, ".")
                if mod.endswith(".__init__"):
                    mod = mod[:-9]
                with open(p, encoding="utf-8") as fp:
                    src = fp.read()
                self.sources[mod] = (rel, src)
        # parse lazily: a module that nothing imports is not needed
        self._parsed = {}

    def tree(self, mod):
        if mod not in self._parsed:
            rel, src = self.sources[mod]
            self._parsed[mod] = ast.parse(src, rel)
        return self._parsed[mod]

    def has(self, mod):
        return mod in self.sources


class Interp:
    def __init__(self, package, max_steps=3000000, deadline=None):
        self.pkg = package
        self.st = State()
        self.exits = []
        self.modules = {}
        self.steps = 0
        self.max_steps = max_steps
        self.deadline = deadline
        self.events = []           # recorded external interactions
        self.depth = 0
        self.callstack = []
        self.analysed = set()      # functions entered
        self.unmodelled = {}       # external name -> count
        self.hooks = {}            # ext path -> host function
        self.branches = 0
        self.stats = {}
        self.mod_stack = []
        from . import npmodel
        self.np = npmodel

    # ------------------------------------------------------------ snapshots
    def snapshot(self):
        return (self.st.fork(), dict(self.modules))

    def restore(self, snap):
        self.st = snap[0].fork()
        self.modules = dict(snap[1])
        self.exits = []
        self.events = []
        self.depth = 0
        self.callstack = []

    # ------------------------------------------------------------ cells
    def alloc(self, content):
        i = newid()
        self.st.cells[i] = content
        return i

    def cell(self, i):
        return self.st.cells[i]

    def newlist(self, items):
        return Ref(self.alloc(tuple(items)), "list")

    def newdict(self, items):
        return Ref(self.alloc(dict(items)), "dict")

    def newset(self, items):
        out = []
        for x in items:
            if not any(same(x, y) for y in out):
                out.append(x)
        return Ref(self.alloc(tuple(out)), "set")

    def newobj(self, cls):
        return Ref(self.alloc({}), "obj", cls)

    # ------------------------------------------------------------ errors
    def raise_(self, name, *args):
        raise AbsRaise(Exc(name, args, self.where()))

    def where(self):
        return self.callstack[-1] if self.callstack else None

    def cond_raise(self, cond, name, *args):
        cond = self.decide(cond)
        if cond.op == "false":
            return
        if cond.op == "true":
            self.raise_(name, *args)
        s2 = self.st.fork(cond)
        self.exits.append(Exit("raise", s2, Exc(name, args, self.where())))
        self.st.assume(T.lnot(cond))

    def decide(self, c):
        """simplify a condition in the current state"""
        if c.op in ("true", "false"):
            return c
        c = simp(bsimp(c), self.st.facts)
        return c

    # ------------------------------------------------------------ merging
    def merge2(self, s1, v1, s2, v2):
        """join two states (with a value each)"""
        n = 0
        for a, b in zip(s1.pc, s2.pc):
            if a is not b:
                break
            n += 1
        g1 = TRUE
        for c in s1.pc[n:]:
            g1 = T.land(g1, c)
        g2 = TRUE
        for c in s2.pc[n:]:
            g2 = T.land(g2, c)
        if g1.op == "true" and g2.op != "true":
            sel = T.lnot(g2)
        else:
            sel = g1
        mark = 10 ** 18
        if len(s1.marks) > n:
            mark = min(mark, s1.marks[n])
        if len(s2.marks) > n:
            mark = min(mark, s2.marks[n])
        m = Merger(self, sel, s1.cells, s2.cells, mark)
        out = m.run()
        val = m.value(v1, v2) if (v1 is not None or v2 is not None) else None
        m.finish()
        st = State(out, s1.pc[:n], s1.marks[:n])
        both = T.lor(g1, g2)
        if both.op != "true":
            st.pc = st.pc + (both,)
            st.marks = st.marks + (mark,)
        st.rebuild_facts()
        return st, val

    def merge_many(self, pairs):
        """join a list of (state, value)"""
        pairs = [p for p in pairs if p[0] is not None]
        if not pairs:
            return None, None
        while len(pairs) > 1:
            best = None
            for i in range(len(pairs)):
                for j in range(i + 1, len(pairs)):
                    n = 0
                    for a, b in zip(pairs[i][0].pc, pairs[j][0].pc):
                        if a is not b:
                            break
                        n += 1
                    if best is None or n > best[0]:
                        best = (n, i, j)
            _, i, j = best
            m = self.merge2(pairs[i][0], pairs[i][1], pairs[j][0], pairs[j][1])
            pairs = [p for k, p in enumerate(pairs) if k not in (i, j)]
            pairs.insert(i, m)
        return pairs[0]

    def alts(self, v):
        """feasible alternatives of a Phi in the current state"""
        out = []
        for g, x in v.alts:
            gg = self.decide(g)
            if gg.op != "false":
                out.append((gg, x))
        if not out:
            raise Dead()
        return out

    def lift(self, v, f):
        """apply f to every alternative of v, joining the results"""
        if not isinstance(v, Phi):
            return f(v)
        alts = self.alts(v)
        if len(alts) == 1:
            return f(alts[0][1])
        st0 = self.st
        res = []
        rem = TRUE
        for k, (g, x) in enumerate(alts):
            gg = T.land(rem, g) if k < len(alts) - 1 else rem
            rem = T.land(rem, T.lnot(g))
            self.st = st0.fork()
            gg = self.decide(gg)
            if gg.op == "false":
                continue
            self.st.assume(gg)
            try:
                r = f(x)
                res.append((self.st, r))
            except AbsRaise as e:
                self.exits.append(Exit("raise", self.st, e.exc))
            except Dead:
                pass
        if not res:
            raise Dead()
        self.st, r = self.merge_many(res)
        return r

    def clean(self, v):
        """resolve a Phi whose guards are decided in the current state"""
        if isinstance(v, Phi):
            a = self.alts(v)
            if len(a) == 1:
                return a[0][1]
            if len(a) < len(v.alts):
                return Phi(tuple(a))
        return v

    # ------------------------------------------------------------ truth
    def truth(self, v):
        """bool Term"""
        if isinstance(v, Phi):
            r = FALSE
            rem = TRUE
            alts = self.alts(v)
            ts = [self.truth(x) for g, x in alts]
            if ts and all(t is ts[0] for t in ts):
                return ts[0]
            for k, (g, x) in enumerate(alts):
                t = ts[k]
                gg = T.land(rem, g) if k < len(alts) - 1 else rem
                r = T.lor(r, T.land(gg, t))
                rem = T.land(rem, T.lnot(g))
            return r
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if v is None:
            return FALSE
        if isinstance(v, (int, float, str, tuple, bytes)):
            return TRUE if v else FALSE
        if isinstance(v, Sc):
            if T.isbool(v.t):
                return v.t
            return T.lnot(T.eqn(v.t, T.ZERO))
        if isinstance(v, Arr):
            if len(v.idx) == 1:
                e = self.np.elems(self, v)[0]
                if isinstance(e, Term):
                    return e if T.isbool(e) else T.lnot(T.eqn(e, T.ZERO))
                return self.truth(e)
            if len(v.idx) == 0:
                return FALSE
            self.raise_("ValueError", "The truth value of an array with more than one element is ambiguous")
        if isinstance(v, Ref):
            c = self.st.cells[v.id]
            if v.kind in ("list", "dict", "set"):
                if isinstance(c, Top):
                    return unkbool("truth of unknown collection")
                return TRUE if c else FALSE
            for meth in ("__bool__", "__len__"):
                m = self.class_lookup(v.cls, meth)
                if m is not None:
                    return self.truth(self.call(Bound(m, v), [], {}))
            return TRUE
        if isinstance(v, Top):
            return unkbool("branch on " + v.why)
        if isinstance(v, Model) and hasattr(v, "truth"):
            return v.truth(self)
        if isinstance(v, StrT):
            return TRUE
        if isinstance(v, MaskSel):
            return unkbool("truth of selection")
        return TRUE

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if not self.pkg.has(name):
            return Ext(name)
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        cell = self.alloc({"__name__": name})
        m = ModuleVal(name, cell, self.pkg.sources[name][0])
        self.modules[name] = m
        fr = Frame(cell, None, m, None, None, None)
        saved = self.exits
        self.exits = []
        tree = self.pkg.tree(name)
        self.exec_block(tree.body, fr)
        bad = [e for e in self.exits if e.kind == "raise"]
        self.exits = saved
        if self.st is None:
            raise Unsupported("import of %s raises %r" % (name, bad[0].val if bad else None))
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            if parent in self.modules:
                pc = self.modules[parent].cell
                d = dict(self.st.cells[pc])
                d.setdefault(leaf, m)
                self.st.cells[pc] = d
        return m

    # ------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if f.locals is None:      # module
                break
            if f.isclass and not first:
                f = f.parent
                continue
            if name in f.locals or f.isclass:
                d = self.st.cells[f.cell]
                if name in d:
                    v = d[name]
                    if isinstance(v, Phi):
                        v = self.clean(v)
                        if isinstance(v, Phi) and any(x is UNBOUND for g, x in v.alts):
                            g = FALSE
                            for gg, x in v.alts:
                                if x is UNBOUND:
                                    g = T.lor(g, gg)
                            self.cond_raise(g, "UnboundLocalError", name)
                            rest = tuple((gg, x) for gg, x in v.alts if x is not UNBOUND)
                            v = rest[0][1] if len(rest) == 1 else Phi(rest)
                    if v is UNBOUND:
                        self.raise_("UnboundLocalError", name)
                    return v
                if name in f.locals and not f.isclass:
                    if first:
                        self.raise_("UnboundLocalError", name)
                    self.raise_("NameError", name)
            if f.globals and name in f.globals:
                break
            f = f.parent
            first = False
        g = self.st.cells[fr.module.cell]
        if name in g:
            return self.clean(g[name])
        if hasattr(builtins, name):
            if name == "NotImplemented":
                return Ext("builtins.NotImplemented")
            if name == "Ellipsis":
                return Ellipsis
            return Ext("builtins." + name)
        if name in ("__name__",):
            return fr.module.name
        if name == "__file__":
            return fr.module.path
        self.raise_("NameError", name)

    def store(self, name, v, fr):
        if fr.locals is None:
            cell = fr.module.cell
        elif fr.globals and name in fr.globals:
            cell = fr.module.cell
        elif fr.isclass or name in fr.locals:
            cell = fr.cell
        else:
            f = fr.parent
            cell = None
            while f is not None and f.locals is not None:
                if name in f.locals and not f.isclass:
                    cell = f.cell
                    break
                f = f.parent
            if cell is None:
                cell = fr.module.cell
        d = dict(self.st.cells[cell])
        d[name] = v
        self.st.cells[cell] = d

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            if self.st is None:
                return
            self.exec_stmt(s, fr)

    def exec_stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget exhausted")
        if self.deadline and (self.steps & 63) == 0 and time.time() > self.deadline:
            raise Budget("time budget exhausted")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        if self.callstack:
            self.callstack[-1] = (self.callstack[-1][0], getattr(s, "lineno", 0), self.callstack[-1][2])
        try:
            m(s, fr)
        except AbsRaise as e:
            if e.exc.where is None:
                e.exc.where = self.where()
            self.exits.append(Exit("raise", self.st, e.exc))
            self.st = None
        except Dead:
            self.st = None

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.ev(s.value, fr)
            return
        self.discard = s.value
        self.ev(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Global(self, s, fr):
        pass

    x_Nonlocal = x_Global

    def x_Import(self, s, fr):
        for al in s.names:
            if self.pkg.has(al.name) or al.name == self.pkg.name:
                m = self.load(al.name)
                if al.asname:
                    self.store(al.asname, m, fr)
                else:
                    self.store(al.name.split(".")[0], self.load(al.name.split(".")[0]), fr)
            else:
                if al.asname:
                    self.store(al.asname, Ext(canon(al.name)), fr)
                else:
                    self.store(al.name.split(".")[0], Ext(al.name.split(".")[0]), fr)

    def x_ImportFrom(self, s, fr):
        mod = s.module or ""
        if s.level:
            base = fr.module.name
            ispkg = fr.module.path.endswith("__init__.py")
            parts = base.split(".")
            up = s.level - (1 if ispkg else 0)
            parts = parts[:len(parts) - up] if up else parts
            mod = ".".join(parts + ([mod] if mod else []))
        if self.pkg.has(mod):
            m = self.load(mod)
            for al in s.names:
                if al.name == "*":
                    d = self.st.cells[m.cell]
                    names = d.get("__all__")
                    for k, v in list(d.items()):
                        if not k.startswith("_"):
                            self.store(k, v, fr)
                    continue
                d = self.st.cells[m.cell]
                if al.name in d:
                    v = d[al.name]
                elif self.pkg.has(mod + "." + al.name):
                    v = self.load(mod + "." + al.name)
                else:
                    self.raise_("ImportError", "cannot import name %s from %s" % (al.name, mod))
                self.store(al.asname or al.name, v, fr)
        else:
            for al in s.names:
                if al.name == "*":
                    continue
                p = canon(mod + "." + al.name)
                self.store(al.asname or al.name, self.ext_const(p), fr)

    def ext_const(self, p):
        from . import npmodel
        if p in npmodel.CONSTANTS:
            return npmodel.CONSTANTS[p]
        return Ext(p)

    def x_FunctionDef(self, s, fr):
        f = self.make_func(s, s.name, fr)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            if isinstance(dv, Ext) and dv.path in ("builtins.property", "builtins.staticmethod", "builtins.classmethod",
                                                   "functools.cached_property"):
                f = Descr(dv.path.split(".")[-1], f)
            elif isinstance(dv, PropSetter):
                f = Descr("property", dv.prop.f, setter=f)
            elif isinstance(dv, Ext) and dv.path in ("functools.wraps", "abc.abstractmethod", "typing.overload"):
                pass
            else:
                f = self.call(dv, [f], {})
        self.store(s.name, f, fr)

    def make_func(self, node, name, fr):
        defaults = [self.ev(d, fr) for d in node.args.defaults]
        kwd = [None if d is None else (self.ev(d, fr),) for d in node.args.kw_defaults]
        return Func(node, name, fr if fr.locals is not None else None, fr.module, defaults, kwd,
                    fr.func if fr.isclass else None, func_info(node))

    def x_ClassDef(self, s, fr):
        bases = []
        for b in s.bases:
            v = self.ev(b, fr)
            bases.append(v if isinstance(v, (ClassVal, Ext)) else Ext("builtins.object"))
        cell = self.alloc({"__module__": fr.module.name})
        c = ClassVal(s.name, bases, cell, fr.module, s)
        f = Frame(cell, fr if fr.locals is not None else None, fr.module, set(), None, c, isclass=True)
        self.exec_block(s.body, f)
        if self.st is None:
            raise Dead()
        v = c
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            v = self.call(dv, [v], {})
        self.store(s.name, v, fr)

    def x_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else None
        self.exits.append(Exit("return", self.st, v))
        self.st = None

    def x_Raise(self, s, fr):
        if s.exc is None:
            d = self.st.cells[fr.cell] if fr.locals is not None else {}
            e = d.get("__exc__")
            if isinstance(e, Exc):
                raise AbsRaise(e)
            raise AbsRaise(Exc("RuntimeError", ("re-raise",), self.where()))
        v = self.ev(s.exc, fr)
        self.raise_value(v)

    def raise_value(self, v):
        def f(v):
            if isinstance(v, Exc):
                v.where = v.where or self.where()
                raise AbsRaise(v)
            if isinstance(v, Ext):
                n = v.path.split(".")[-1]
                if n in ("LinAlgError",) or is_exc_name(n):
                    raise AbsRaise(Exc(n, (), self.where()))
                raise AbsRaise(Exc("TypeError", ("exceptions must derive from BaseException",), self.where()))
            if isinstance(v, ClassVal):
                raise AbsRaise(Exc(v, (), self.where()))
            if isinstance(v, Ref) and v.kind == "obj":
                raise AbsRaise(Exc(v.cls, (v,), self.where()))
            raise Unsupported("raise of unknown value")
        self.lift(v, f)

    def x_Assert(self, s, fr):
        c = self.decide(self.truth(self.ev(s.test, fr)))
        self.cond_raise(T.lnot(c), "AssertionError", "line %d" % s.lineno)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = dict(self.st.cells[fr.cell])
                if t.id not in d:
                    self.raise_("NameError", t.id)
                del d[t.id]
                self.st.cells[fr.cell] = d
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev_index(t.slice, fr)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                self.delattr_(o, t.attr)

    def delitem(self, o, k):
        def f(o):
            if isinstance(o, Ref) and o.kind == "dict":
                d = self.st.cells[o.id]
                if isinstance(d, Top):
                    return
                kk = self.find_key(d, k)
                if kk is None:
                    self.raise_("KeyError", k)
                d = dict(d)
                del d[kk]
                self.st.cells[o.id] = d
                return
            if isinstance(o, Ref) and o.kind == "list" and isinstance(k, (int, slice)):
                l = list(self.st.cells[o.id])
                try:
                    del l[k]
                except IndexError:
                    self.raise_("IndexError", "list assignment index out of range")
                self.st.cells[o.id] = tuple(l)
                return
            raise Unsupported("del item of %r" % (o,))
        self.lift(o, f)

    def delattr_(self, o, name):
        def f(o):
            if isinstance(o, Ref) and o.kind == "obj":
                d = dict(self.st.cells[o.id])
                if name not in d:
                    self.raise_("AttributeError", name)
                del d[name]
                self.st.cells[o.id] = d
                return
            raise Unsupported("del attr")
        self.lift(o, f)

    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            if star:
                items = self.iterate(v)
                k = star[0]
                after = n - k - 1
                if len(items) < n - 1:
                    self.raise_("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, fr)
                self.assign(t.elts[k].value, self.newlist(items[k:len(items) - after]), fr)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
                return
            items = self.unpack(v, n)
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        def f(v):
            if isinstance(v, Top):
                return tuple(Top(v.why) for _ in range(n))
            items = self.iterate(v)
            if len(items) != n:
                self.raise_("ValueError", "unpack: expected %d values, got %d" % (n, len(items)))
            return tuple(items)
        r = self.lift(v, f)
        if isinstance(r, Phi):
            out = []
            for k in range(n):
                out.append(self.lift(r, lambda x: x[k]))
            return out
        return r

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            new = self.inplace(s.op, old, lambda: self.ev(s.value, fr))
            self.store(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr_(o, t.attr)
            new = self.inplace(s.op, old, lambda: self.ev(s.value, fr))
            self.setattr_(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            old = self.getitem(o, k)
            new = self.inplace(s.op, old, lambda: self.ev(s.value, fr))
            self.setitem(o, k, new)

    def inplace(self, op, old, getval):
        val = getval()

        def f(old):
            if isinstance(old, Ref) and old.kind == "list" and isinstance(op, ast.Add):
                if isinstance(val, Top):
                    self.st.cells[old.id] = val
                    return old
                items = self.iterate(val)
                c = self.st.cells[old.id]
                if not isinstance(c, Top):
                    self.st.cells[old.id] = c + tuple(items)
                return old
            if isinstance(old, Arr):
                return self.np.inplace(self, type(op).__name__, old, val)
            if isinstance(old, Ref) and old.kind == "set" and isinstance(op, ast.BitOr):
                items = list(self.st.cells[old.id]) + list(self.iterate(val))
                n = self.newset(items)
                self.st.cells[old.id] = self.st.cells[n.id]
                return old
            if isinstance(old, Ref) and old.kind == "dict" and isinstance(op, ast.BitOr):
                self.dict_method(old, "update", [val], {})
                return old
            return self.binop(op, old, val)
        return self.lift(old, f)

    def x_If(self, s, fr):
        c = self.decide(self.truth(self.ev(s.test, fr)))
        if c.op == "true":
            self.exec_block(s.body, fr)
            return
        if c.op == "false":
            self.exec_block(s.orelse, fr)
            return
        self.branches += 1
        st0 = self.st
        self.st = st0.fork(c)
        self.exec_block(s.body, fr)
        s1 = self.st
        self.st = st0.fork(T.lnot(c))
        self.exec_block(s.orelse, fr)
        s2 = self.st
        self.st, _ = self.merge_many([(s1, None), (s2, None)])

    def x_For(self, s, fr):
        it = self.ev(s.iter, fr)
        self.for_loop(it, s, fr)

    def for_loop(self, it, s, fr):
        it = self.clean(it)
        if isinstance(it, Phi):
            # run the loop per alternative and join
            st0 = self.st
            res = []
            rem = TRUE
            alts = self.alts(it)
            for k, (g, x) in enumerate(alts):
                gg = T.land(rem, g) if k < len(alts) - 1 else rem
                rem = T.land(rem, T.lnot(g))
                self.st = st0.fork(gg)
                try:
                    self.for_loop(x, s, fr)
                except AbsRaise as e:
                    self.exits.append(Exit("raise", self.st, e.exc))
                    self.st = None
                except Dead:
                    self.st = None
                res.append((self.st, None))
            self.st, _ = self.merge_many(res)
            return
        if isinstance(it, Top) or (isinstance(it, Model) and getattr(it, "unbounded", False)):
            self.widen_loop(s, fr, elem=it)
            return
        # a python list that is mutated while iterated is not supported: iterate a snapshot
        items = self.iterate(it, symbolic_ok=True)
        if items is None:
            self.widen_loop(s, fr, elem=it)
            return
        outer = self.exits
        breaks = []
        for x in items:
            if self.st is None:
                break
            self.exits = []
            try:
                self.assign(s.target, x, fr)
            except AbsRaise as e:
                outer.append(Exit("raise", self.st, e.exc))
                self.st = None
                break
            self.exec_block(s.body, fr)
            conts = [(self.st, None)]
            for e in self.exits:
                if e.kind == "continue":
                    conts.append((e.st, None))
                elif e.kind == "break":
                    breaks.append((e.st, None))
                else:
                    outer.append(e)
            self.st, _ = self.merge_many(conts)
        self.exits = outer
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse, fr)
        if breaks:
            self.st, _ = self.merge_many(breaks + [(self.st, None)])

    def x_While(self, s, fr):
        outer = self.exits
        breaks = []
        ends = []
        n = 0
        while True:
            if self.st is None:
                break
            self.exits = []
            try:
                c = self.decide(self.truth(self.ev(s.test, fr)))
            except AbsRaise as e:
                outer.extend(self.exits)
                outer.append(Exit("raise", self.st, e.exc))
                self.st = None
                break
            outer.extend(self.exits)
            self.exits = []
            if c.op == "false":
                ends.append((self.st, None))
                self.st = None
                break
            if c.op != "true":
                # value unknown: widen
                self.exits = outer
                self.widen_loop(s, fr, elem=None)
                outer = self.exits
                if self.st is not None:
                    ends.append((self.st, None))
                self.st = None
                break
            n += 1
            if n > 5000:
                raise Budget("loop bound")
            self.exec_block(s.body, fr)
            conts = [(self.st, None)]
            for e in self.exits:
                if e.kind == "continue":
                    conts.append((e.st, None))
                elif e.kind == "break":
                    breaks.append((e.st, None))
                else:
                    outer.append(e)
            self.st, _ = self.merge_many(conts)
        self.exits = outer
        self.st, _ = self.merge_many(ends)
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse, fr)
        if breaks:
            self.st, _ = self.merge_many(breaks + [(self.st, None)])

    def widen_loop(self, s, fr, elem):
        """iteration count unknown: forget everything the body may write, then run
        the body once from the widened state to obtain the exits"""
        outer = self.exits
        base = self.st.fork()
        mark = _ids[0] + 1
        written = set()
        exits = []
        for round_ in range(4):
            self.st = base.fork()
            self.havoc(written)
            self.exits = []
            pre = dict(self.st.cells)
            ends = []
            try:
                if isinstance(s, ast.While):
                    c = self.decide(self.truth(self.ev(s.test, fr)))
                    stx = self.st.fork(T.lnot(c)) if c.op != "true" else None
                    if stx is not None:
                        ends.append((stx, None))
                    if c.op != "false":
                        self.st.assume(c)
                    else:
                        self.st = None
                else:
                    ends.append((self.st.fork(unkbool("loop end")), None))
                    el = Top("loop element") if not isinstance(elem, Model) else elem.generic(self)
                    self.assign(s.target, el, fr)
                if self.st is not None:
                    self.exec_block(s.body, fr)
            except AbsRaise as e:
                self.exits.append(Exit("raise", self.st, e.exc))
                self.st = None
            except Dead:
                self.st = None
            states = [self.st] + [e.st for e in self.exits]
            new = set()
            for st in states:
                if st is None:
                    continue
                for i, c in st.cells.items():
                    if i < mark and pre.get(i) is not c:
                        new.add(i)
            exits = self.exits
            if new <= written:
                break
            written |= new
        for e in exits:
            if e.kind == "break":
                ends.append((e.st, None))
            elif e.kind == "continue":
                pass
            else:
                outer.append(e)
        self.exits = outer
        self.st, _ = self.merge_many(ends)
        self.stats["widened_loops"] = self.stats.get("widened_loops", 0) + 1

    def havoc(self, ids):
        def hv(v):
            if isinstance(v, Sc) or (isinstance(v, (int, float)) and not isinstance(v, bool)):
                ty = tyof(v)
                return Sc(unkterm("loop"), ty)
            if isinstance(v, bool):
                return Sc(unkbool("loop"), "bool")
            if isinstance(v, Arr):
                return self.np.new(self, [unkterm("loop") if v.dtype != "object" else Top("loop") for _ in v.idx], v.shape, v.dtype)
            if isinstance(v, (Func, ClassVal, Ext, ModuleVal, Bound)) or v is None or isinstance(v, str):
                return Top("loop")
            return Top("loop")
        for i in ids:
            c = self.st.cells.get(i)
            if c is None:
                continue
            if isinstance(c, dict):
                # only the entries the body rewrote are known to change, but the set is
                # not tracked per entry: keep functions and classes, forget data
                self.st.cells[i] = {k: (v if isinstance(v, (Func, ClassVal, ModuleVal, Ext, Native)) else hv(v)) for k, v in c.items()}
            elif isinstance(c, tuple):
                if all(isinstance(x, Term) for x in c):
                    self.st.cells[i] = tuple(unkterm("loop") for _ in c)
                else:
                    self.st.cells[i] = Top("loop")
            else:
                self.st.cells[i] = Top("loop")

    def x_Break(self, s, fr):
        self.exits.append(Exit("break", self.st))
        self.st = None

    def x_Continue(self, s, fr):
        self.exits.append(Exit("continue", self.st))
        self.st = None

    def x_Try(self, s, fr):
        outer = self.exits
        self.exits = []
        self.exec_block(s.body, fr)
        body_exits = self.exits
        self.exits = []
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse, fr)
        normal = [(self.st, None)]
        rest = list(self.exits)
        groups = {}
        for e in body_exits:
            if e.kind != "raise":
                rest.append(e)
                continue
            h = self.find_handler(e, s.handlers, fr)
            if h is None:
                rest.append(e)
            else:
                groups.setdefault((id(h), e.val.name), (h, []))[1].append(e)
        self.exits = []
        for h, es in groups.values():
            self.st, _ = self.merge_many([(e.st, None) for e in es])
            if self.st is None:
                continue
            if fr.locals is not None:
                d = dict(self.st.cells[fr.cell])
                d["__exc__"] = es[0].val
                self.st.cells[fr.cell] = d
            if h.name:
                self.store(h.name, es[0].val, fr)
            self.exec_block(h.body, fr)
            normal.append((self.st, None))
        rest += self.exits
        self.exits = []
        if s.finalbody:
            out = []
            for e in rest:
                self.st = e.st
                self.exits = []
                self.exec_block(s.finalbody, fr)
                out += self.exits
                if self.st is not None:
                    e.st = self.st
                    out.append(e)
            self.exits = []
            self.st, _ = self.merge_many(normal)
            if self.st is not None:
                self.exec_block(s.finalbody, fr)
            out += self.exits
            self.exits = outer
            self.exits.extend(out)
        else:
            self.st, _ = self.merge_many(normal)
            self.exits = outer
            self.exits.extend(rest)

    x_TryStar = x_Try

    def find_handler(self, e, handlers, fr):
        exc = e.val
        for h in handlers:
            if h.type is None:
                return h
            saved = self.st, self.exits
            self.st = e.st
            self.exits = []
            try:
                t = self.ev(h.type, fr)
            finally:
                self.st, self.exits = saved
            for c in (t if isinstance(t, tuple) else (t,)):
                if self.exc_matches(exc, c):
                    return h
        return None

    def exc_matches(self, exc, c):
        if isinstance(exc.cls, ClassVal):
            for k in exc.cls.mro:
                if k is c:
                    return True
                if isinstance(k, Ext) and isinstance(c, Ext) and c.path.split(".")[-1] in exc_mro(k.path.split(".")[-1]):
                    return True
            return False
        if isinstance(c, Ext):
            return c.path.split(".")[-1] in exc_mro(exc.cls)
        return False

    def x_With(self, s, fr):
        mgrs = []
        for item in s.items:
            m = self.ev(item.context_expr, fr)
            v = m
            if isinstance(m, Ref) and m.kind == "obj":
                v = self.call(self.getattr_(m, "__enter__"), [], {})
            elif isinstance(m, Model) and hasattr(m, "enter"):
                v = m.enter(self)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
            mgrs.append(m)
        n = len(self.exits)
        self.exec_block(s.body, fr)
        for m in reversed(mgrs):
            if isinstance(m, Model) and hasattr(m, "exit"):
                if self.st is not None:
                    m.exit(self)
            elif isinstance(m, Ref) and m.kind == "obj":
                if self.st is not None:
                    self.call(self.getattr_(m, "__exit__"), [None, None, None], {})
                for e in self.exits[n:]:
                    saved = self.st
                    self.st = e.st
                    try:
                        self.call(self.getattr_(m, "__exit__"), [None, None, None], {})
                    except (AbsRaise, Dead):
                        pass
                    e.st = self.st
                    self.st = saved

    def x_Match(self, s, fr):
        raise Unsupported("match statement")

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return Top("expression %s" % type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def e_Tuple(self, n, fr):
        return tuple(self.ev_elts(n.elts, fr))

    def ev_elts(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, fr)
                v = self.flat(v)
                if isinstance(v, Phi):
                    v = self.lift(v, lambda q: q if isinstance(q, Top) else tuple(self.iterate(q)))
                if isinstance(v, (Top, Phi)):
                    raise Unsupported("star of unknown")
                out.extend(self.iterate(v))
            else:
                out.append(self.ev(e, fr))
        return out

    def e_List(self, n, fr):
        return self.newlist(self.ev_elts(n.elts, fr))

    def e_Set(self, n, fr):
        return self.newset(self.ev_elts(n.elts, fr))

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, fr)
                o = self.clean(o)
                if isinstance(o, Ref) and o.kind == "dict" and not isinstance(self.st.cells[o.id], Top):
                    d.update(self.st.cells[o.id])
                    continue
                raise Unsupported("dict unpacking")
            kk = self.key(self.ev(k, fr))
            d[kk] = self.ev(v, fr)
        return self.newdict(d)

    def key(self, k):
        if isinstance(k, Sc) and k.t.op == "const" and k.t.args[0].denominator == 1:
            return int(k.t.args[0])
        if isinstance(k, (Top, Phi, Arr)):
            raise Unsupported("unknown dictionary key")
        if isinstance(k, Ref) and k.kind != "obj":
            self.raise_("TypeError", "unhashable type")
        return k

    def e_JoinedStr(self, n, fr):
        parts = []
        sym_ = False
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                spec = ""
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, fr)
                    if not isinstance(sp, str):
                        return Top("format spec")
                    spec = sp
                x = self.fmt_value(x, spec, v.conversion)
                if isinstance(x, Top):
                    return x
                parts.append(x)
        return self.strcat(parts)

    def fmt_value(self, x, spec, conv=-1):
        x = self.clean(x)
        if isinstance(x, (int, float, str, bool)) or x is None:
            if conv == ord("r"):
                x = repr(x)
            try:
                return format(x, spec)
            except (ValueError, TypeError) as e:
                self.raise_(type(e).__name__, str(e))
        if isinstance(x, Sc):
            if spec and spec[-1] in "fgeFGE" and not isinstance(plain(x), Sc):
                return format(plain(x), spec)
            if spec and spec[-1] in "dfgeFGE":
                return StrT(T._mk("fmt", "%" + spec, x.t))
            if not spec:
                return StrT(T._mk("fmt", "%s", x.t))
            return Top("format")
        if isinstance(x, StrT) and not spec:
            return x
        return Top("format of value")

    def strcat(self, parts):
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        ts = []
        for p in parts:
            if isinstance(p, str):
                if p == "":
                    continue
                if ts and ts[-1].op == "str":
                    ts[-1] = T._mk("str", ts[-1].args[0] + p)
                else:
                    ts.append(T._mk("str", p))
            else:
                ts.extend(p.t.args if p.t.op == "strcat" else [p.t])
        if len(ts) == 1:
            return StrT(ts[0])
        return StrT(T._mk("strcat", *ts))

    def e_FormattedValue(self, n, fr):
        return self.fmt_value(self.ev(n.value, fr), "", n.conversion)

    def e_Attribute(self, n, fr):
        o = self.ev(n.value, fr)
        return self.getattr_(o, n.attr)

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        k = self.ev_index(n.slice, fr)
        return self.getitem(o, k)

    def ev_index(self, n, fr):
        if isinstance(n, ast.Slice):
            f = lambda x: None if x is None else self.index_int(self.ev(x, fr))
            return slice(f(n.lower), f(n.upper), f(n.step))
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_index(x, fr) if not isinstance(x, ast.Starred) else None for x in n.elts) \
                if not any(isinstance(x, ast.Starred) for x in n.elts) else tuple(self.ev_elts(n.elts, fr))
        return self.ev(n, fr)

    def e_Slice(self, n, fr):
        return self.ev_index(n, fr)

    def index_int(self, v):
        v = self.clean(v)
        if isinstance(v, Sc) and v.t.op == "const" and v.t.args[0].denominator == 1 and "int" in v.ty:
            return int(v.t.args[0])
        if isinstance(v, Sc) and v.ty in ("float", "npfloat"):
            self.raise_("TypeError", "slice indices must be integers")
        if isinstance(v, float):
            self.raise_("TypeError", "slice indices must be integers")
        return v

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        return self.unop(n.op, v)

    def unop(self, op, v):
        if isinstance(op, ast.Not):
            return mkscalar(T.lnot(self.decide(self.truth(v))), "bool")

        def f(v):
            if isinstance(v, Top):
                return v
            if isinstance(v, (Arr, MaskSel)):
                return self.np.unary(self, type(op).__name__, v)
            if isnum(v):
                if not isinstance(v, Sc):
                    if isinstance(op, ast.USub):
                        return -v
                    if isinstance(op, ast.UAdd):
                        return +v
                    if isinstance(op, ast.Invert) and isinstance(v, int):
                        return ~v
                if isinstance(op, ast.USub):
                    if v.ty == "npbool":
                        self.raise_("TypeError", "numpy boolean negative")
                    return mkscalar(T.neg(T.num(v.t) if T.isbool(v.t) else v.t), "int" if v.ty == "bool" else v.ty)
                if isinstance(op, ast.UAdd):
                    return v
                if isinstance(op, ast.Invert) and T.isbool(v.t):
                    if v.ty == "npbool":
                        return Sc(T.lnot(v.t), "npbool")
                    return Top("invert bool")
                if isinstance(op, ast.Invert):
                    return mkscalar(T.sub(T.neg(v.t), T.ONE), v.ty)
            if isinstance(v, Ref) and v.kind == "obj":
                nm = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[type(op).__name__]
                m = self.class_lookup(v.cls, nm)
                if m is not None:
                    return self.call(Bound(m, v), [], {})
            if v is None or isinstance(v, (str, tuple)) or (isinstance(v, Ref)):
                self.raise_("TypeError", "bad operand type for unary operator")
            return Top("unary")
        return self.lift(v, f)

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Phi) or isinstance(b, Phi):
            # numeric alternatives join without forking
            a2, b2 = self.flat(a), self.flat(b)
            if not isinstance(a2, Phi) and not isinstance(b2, Phi):
                return self._binop(op, a2, b2)
            return self.lift(a, lambda x: self.lift(b, lambda y: self._binop(op, x, y)))
        return self._binop(op, a, b)

    def flat(self, v):
        """Phi of same-shape arrays / numbers -> one joined value (read-only)"""
        if not isinstance(v, Phi):
            return v
        v = self.clean(v)
        if not isinstance(v, Phi):
            return v
        xs = [x for g, x in v.alts]
        if all(isinstance(x, Arr) and x.dtype != "object" for x in xs) and len({x.shape for x in xs}) == 1:
            es = [self.np.elems(self, x) for x in xs]
            out = list(es[-1])
            for (g, x), e in list(zip(v.alts, es))[-2::-1]:
                out = [T.ite(g, p, q) for p, q in zip(e, out)]
            dt = xs[0].dtype
            for x in xs[1:]:
                dt = self.np.promote(dt, x.dtype)
            return self.np.new(self, out, xs[0].shape, dt)
        return v

    def _binop(self, op, a, b):
        name = type(op).__name__
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if isinstance(a, Model) and hasattr(a, "binop"):
            r = a.binop(self, name, b, False)
            if r is not NotImplemented:
                return r
        if isinstance(b, Model) and hasattr(b, "binop"):
            r = b.binop(self, name, a, True)
            if r is not NotImplemented:
                return r
        if isinstance(a, Ref) and a.kind == "obj":
            m = self.class_lookup(a.cls, OPMETH.get(name, "__none__"))
            if m is not None:
                return self.call(Bound(m, a), [b], {})
        if isinstance(b, Ref) and b.kind == "obj":
            m = self.class_lookup(b.cls, OPMETH.get(name, "__none__").replace("__", "__r", 1))
            if m is not None:
                return self.call(Bound(m, b), [a], {})
        if isinstance(a, (Arr, MaskSel)) or isinstance(b, (Arr, MaskSel)):
            return self.np.binary(self, name, a, b)
        if isinstance(a, Sc) and a.ty.startswith("np") and isinstance(b, (tuple, Ref)) or \
                isinstance(b, Sc) and b.ty.startswith("np") and isinstance(a, (tuple, Ref)):
            return self.np.binary(self, name, a, b)
        if isnum(a) and isnum(b):
            return self.arith(name, a, b)
        if isinstance(a, (str, StrT)) and name == "Mod":
            return self.percent(a, b)
        if isinstance(a, (str, StrT)) and isinstance(b, (str, StrT)) and name == "Add":
            return self.strcat([a, b])
        if isinstance(a, str) and isinstance(b, int) and name == "Mult":
            return a * b
        if isinstance(b, str) and isinstance(a, int) and name == "Mult":
            return a * b
        if isinstance(a, tuple) and isinstance(b, tuple) and name == "Add":
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and name == "Mult":
            return a * b
        if isinstance(a, Ref) and a.kind == "list" and name == "Add":
            if isinstance(b, Ref) and b.kind == "list":
                ca, cb = self.st.cells[a.id], self.st.cells[b.id]
                if isinstance(ca, Top) or isinstance(cb, Top):
                    return Top("list concat")
                return self.newlist(ca + cb)
            self.raise_("TypeError", "can only concatenate list")
        if isinstance(a, Ref) and a.kind == "list" and name == "Mult" and isinstance(b, int):
            return self.newlist(self.st.cells[a.id] * b)
        if isinstance(b, Ref) and b.kind == "list" and name == "Mult" and isinstance(a, int):
            return self.newlist(self.st.cells[b.id] * a)
        if isinstance(a, Ref) and a.kind == "set" and isinstance(b, Ref) and b.kind == "set":
            ca, cb = self.st.cells[a.id], self.st.cells[b.id]
            isin = lambda x, c: any(same(x, y) for y in c)
            if name == "BitOr":
                return self.newset(ca + cb)
            if name == "BitAnd":
                return self.newset([x for x in ca if isin(x, cb)])
            if name == "Sub":
                return self.newset([x for x in ca if not isin(x, cb)])
        if isinstance(a, Ref) and a.kind == "dict" and isinstance(b, Ref) and b.kind == "dict" and name == "BitOr":
            d = dict(self.st.cells[a.id])
            d.update(self.st.cells[b.id])
            return self.newdict(d)
        plain = (type(None), str, tuple, bool, int, float, Sc)
        if (isinstance(a, plain) or isinstance(a, Ref)) and (isinstance(b, plain) or isinstance(b, Ref)):
            self.raise_("TypeError", "unsupported operand type(s) for %s: %s and %s" % (name, tname(a), tname(b)))
        return Top("operator %s" % name)

    def arith(self, name, a, b):
        """python / numpy scalar arithmetic"""
        na, nb = not isinstance(a, Sc), not isinstance(b, Sc)
        ty = self.join_ty(a, b)
        if na and nb and name not in ("Div",):
            try:
                if name == "Add" and isinstance(a, int) and isinstance(b, int):
                    return a + b
                if name == "Sub" and isinstance(a, int) and isinstance(b, int):
                    return a - b
                if name == "Mult" and isinstance(a, int) and isinstance(b, int):
                    return a * b
                if name == "FloorDiv" and isinstance(a, int) and isinstance(b, int):
                    return a // b
                if name == "Mod" and isinstance(a, int) and isinstance(b, int):
                    return a % b
                if name == "Pow" and isinstance(a, int) and isinstance(b, int) and b >= 0:
                    return a ** b
                if name in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift") and isinstance(a, int) and isinstance(b, int):
                    return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b, "LShift": a << b if name == "LShift" else 0,
                            "RShift": a >> b if name == "RShift" else 0}[name]
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError", "division by zero")
        ta, tb = term(a), term(b)
        isnp = ty.startswith("np")
        if name in ("BitAnd", "BitOr", "BitXor"):
            if T.isbool(ta) and T.isbool(tb):
                r = {"BitAnd": T.land, "BitOr": T.lor}.get(name, lambda x, y: T.lor(T.land(x, T.lnot(y)), T.land(T.lnot(x), y)))(ta, tb)
                return mkscalar(r, "npbool" if isnp else "bool")
            if name == "BitAnd" and not na and not nb:
                return Top("bit op")
            return Top("bit op")
        if isnp and T.isbool(ta) and T.isbool(tb) and tyof(a) in ("npbool", "bool") and tyof(b) in ("npbool", "bool"):
            if name == "Add":
                return Sc(T.lor(ta, tb), "npbool")
            if name == "Mult":
                return Sc(T.land(ta, tb), "npbool")
        ta, tb = T.num(ta), T.num(tb)
        if not isnp and name in ("Div", "FloorDiv", "Mod"):
            self.cond_raise(T.eqn(tb, T.ZERO), "ZeroDivisionError", "division by zero")
        r = self.np.scalar_op(name, ta, tb)
        if r is None:
            return Top("operator " + name)
        if name == "Div":
            ty = "npfloat" if isnp else "float"
        elif name == "Pow" and ty == "int" and not (tb.op == "const" and tb.args[0] >= 0):
            ty = "float"
        if ty in ("bool",):
            ty = "int"
        if ty == "npbool":
            ty = "npint"
        return mkscalar(r, ty)

    def join_ty(self, a, b):
        x, y = tyof(a), tyof(b)
        np_ = x.startswith("np") or y.startswith("np")
        x, y = x.replace("np", ""), y.replace("np", "")
        order = ["bool", "int", "float"]
        r = order[max(order.index(x), order.index(y))]
        return ("np" if np_ else "") + r

    def percent(self, a, b):
        args = b if isinstance(b, tuple) else (b,)
        args = tuple(self.clean(x) for x in args)
        if isinstance(a, str) and isinstance(b, Ref) and b.kind == "dict":
            d = self.st.cells[b.id]
            if not isinstance(d, Top) and all(isinstance(v, (int, float, str)) for v in d.values()):
                try:
                    return a % d
                except (TypeError, ValueError, KeyError) as e:
                    self.raise_(type(e).__name__, str(e))
            return Top("percent")
        if isinstance(a, str):
            lit = [plain(x) for x in args]
            if "%s" not in a and "%r" not in a and lit != list(args) and all(isinstance(x, (int, float, str)) for x in lit):
                return a % (tuple(lit) if isinstance(b, tuple) else lit[0])
            if all(isinstance(x, (int, float, str)) or x is None for x in args):
                try:
                    return a % (args if isinstance(b, tuple) else args[0])
                except (TypeError, ValueError) as e:
                    self.raise_(type(e).__name__, str(e))
            specs = T._specs(a.replace("%%", ""))
            if len(specs) != len(args):
                self.raise_("TypeError", "not enough arguments for format string")
            out = []
            for s, x in zip(specs, args):
                if isinstance(x, Sc):
                    out.append(x.t)
                elif isinstance(x, (int, float)):
                    out.append(const(x))
                elif isinstance(x, str):
                    out.append(T._mk("str", x))
                elif isinstance(x, StrT):
                    out.append(x.t)
                elif isinstance(x, Phi) and all(isinstance(v, (str, StrT)) for g, v in x.alts):
                    q = None
                    for g, v in reversed(x.alts):
                        tv = v.t if isinstance(v, StrT) else T._mk("str", v)
                        q = tv if q is None else T.ite(g, tv, q)
                    out.append(q)
                elif s.endswith(("d", "f")) and (x is None or isinstance(x, (tuple,))):
                    self.raise_("TypeError", "number required")
                else:
                    return Top("percent of value")
            return StrT(T._mk("fmt", a, *out))
        return Top("percent")

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        return self.boolop(n.values, isand, fr)

    def boolop(self, values, isand, fr):
        v = self.ev(values[0], fr)
        if len(values) == 1:
            return v
        c = self.decide(self.truth(v))
        if c.op == "true":
            return self.boolop(values[1:], isand, fr) if isand else v
        if c.op == "false":
            return v if isand else self.boolop(values[1:], isand, fr)
        st0 = self.st
        g = c if isand else T.lnot(c)
        self.st = st0.fork(g)
        res = []
        try:
            r = self.boolop(values[1:], isand, fr)
            res.append((self.st, r))
        except AbsRaise as e:
            self.exits.append(Exit("raise", self.st, e.exc))
        except Dead:
            pass
        res.append((st0.fork(T.lnot(g)), v))
        if len(res) == 2 and isinstance(v, (bool, Sc)) and isinstance(res[0][1], (bool, Sc)) and \
                T.isbool(term(v)) and T.isbool(term(res[0][1])):
            x = term(res[0][1])
            ty = self.join_ty(v, res[0][1])
            self.st, _ = self.merge_many([(s, None) for s, _ in res])
            return mkscalar(T.land(c, x) if isand else T.lor(c, x), ty)
        self.st, r = self.merge_many(res)
        return r

    def e_IfExp(self, n, fr):
        c = self.decide(self.truth(self.ev(n.test, fr)))
        if c.op == "true":
            return self.ev(n.body, fr)
        if c.op == "false":
            return self.ev(n.orelse, fr)
        st0 = self.st
        res = []
        for g, e in ((c, n.body), (T.lnot(c), n.orelse)):
            self.st = st0.fork(g)
            try:
                r = self.ev(e, fr)
                res.append((self.st, r))
            except AbsRaise as ex:
                self.exits.append(Exit("raise", self.st, ex.exc))
            except Dead:
                pass
        if not res:
            raise Dead()
        self.st, r = self.merge_many(res)
        return r

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.store(n.target.id, v, fr)
        return v

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        result = None
        for k, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(c, fr)
            r = self.compare(op, left, right)
            if result is None:
                result = r
            else:
                if isnum(result) and isnum(r):
                    result = mkscalar(T.land(self.truth(result), self.truth(r)), self.join_ty(result, r))
                else:
                    self.truth(result)
                    result = Top("chained comparison")
            left = right
        return result

    def compare(self, op, a, b):
        name = type(op).__name__
        if name in ("Is", "IsNot"):
            r = self.identical(a, b)
            if isinstance(r, Top):
                return r
            return mkscalar(r if name == "Is" else T.lnot(r), "bool")
        if name in ("In", "NotIn"):
            def f(c):
                return self.contains(c, a)
            r = self.lift(b, f)
            if isinstance(r, Top):
                return r
            t = self.truth(r)
            return mkscalar(t if name == "In" else T.lnot(t), "bool")
        if isinstance(a, Phi) or isinstance(b, Phi):
            a2, b2 = self.flat(a), self.flat(b)
            if not isinstance(a2, Phi) and not isinstance(b2, Phi):
                return self._compare(name, a2, b2)
            return self.lift(a, lambda x: self.lift(b, lambda y: self._compare(name, x, y)))
        return self._compare(name, a, b)

    def _compare(self, name, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if isinstance(a, (Arr, MaskSel)) or isinstance(b, (Arr, MaskSel)):
            return self.np.compare(self, name, a, b)
        if isinstance(a, Model) and hasattr(a, "compare"):
            return a.compare(self, name, b)
        if isinstance(b, Model) and hasattr(b, "compare"):
            return b.compare(self, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(name, name), a)
        if isnum(a) and isnum(b):
            if not isinstance(a, Sc) and not isinstance(b, Sc):
                return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[name]
            r = self.np.cmp_terms(name, term(a), term(b))
            isnp = tyof(a).startswith("np") or tyof(b).startswith("np")
            return mkscalar(self.decide(r), "npbool" if isnp else "bool")
        if name in ("Eq", "NotEq"):
            r = self.equal(a, b)
            if isinstance(r, Top):
                return r
            return mkscalar(r if name == "Eq" else T.lnot(r), "bool")
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[name]
        if isinstance(a, Ref) and a.kind == "obj":
            m = self.class_lookup(a.cls, {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[name])
            if m is not None:
                return self.call(Bound(m, a), [b], {})
        if isinstance(a, tuple) and isinstance(b, tuple):
            return Top("tuple ordering")
        if a is None or b is None:
            self.raise_("TypeError", "'%s' not supported between %s and %s" % (name, tname(a), tname(b)))
        return Top("ordering comparison")

    def identical(self, a, b):
        if isinstance(a, Phi):
            r = FALSE
            for g, x in self.alts(a):
                t = self.identical(x, b)
                if isinstance(t, Top):
                    return t
                r = T.lor(r, T.land(g, t))
            return self.decide(r)
        if isinstance(b, Phi):
            return self.identical(b, a)
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool) or a is Ellipsis or b is Ellipsis:
            if isinstance(a, Sc) or isinstance(b, Sc):
                if isinstance(a, Sc) and a.ty == "bool" and isinstance(b, bool):
                    return a.t if b else T.lnot(a.t)
                if isinstance(b, Sc) and b.ty == "bool" and isinstance(a, bool):
                    return b.t if a else T.lnot(b.t)
                return FALSE
            return TRUE if a is b else FALSE
        if isinstance(a, Ref) and isinstance(b, Ref):
            return TRUE if a.id == b.id else FALSE
        if isinstance(a, (ClassVal, Func, ModuleVal)) or isinstance(b, (ClassVal, Func, ModuleVal)):
            return TRUE if a is b else FALSE
        if isinstance(a, Ext) and isinstance(b, Ext):
            return TRUE if a == b else FALSE
        if isinstance(a, Arr) and isinstance(b, Arr):
            return TRUE if a == b else (FALSE if a.buf != b.buf else Top("identity of views"))
        if type(a) is not type(b):
            return FALSE
        if isinstance(a, (int, str)):
            return TRUE if a == b else FALSE
        return Top("identity")

    def equal(self, a, b):
        """bool Term for python == (non-array)"""
        if isinstance(a, Phi):
            r = FALSE
            for g, x in self.alts(a):
                t = self.equal(x, b)
                if isinstance(t, Top):
                    return t
                r = T.lor(r, T.land(g, t))
            return self.decide(r)
        if isinstance(b, Phi):
            return self.equal(b, a)
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if isnum(a) and isnum(b):
            ta, tb = term(a), term(b)
            if T.isbool(ta) and T.isbool(tb):
                return self.decide(T.lor(T.land(ta, tb), T.land(T.lnot(ta), T.lnot(tb))))
            return self.decide(T.eqn(ta, tb))
        if isinstance(a, str) and isinstance(b, str):
            return TRUE if a == b else FALSE
        if isinstance(a, StrT) or isinstance(b, StrT):
            if not isinstance(a, (str, StrT)) or not isinstance(b, (str, StrT)):
                return FALSE
            ta = a.t if isinstance(a, StrT) else T._mk("str", a)
            tb = b.t if isinstance(b, StrT) else T._mk("str", b)
            return TRUE if ta is tb else T._mk("streq", ta, tb)
        if isinstance(a, tuple) and isinstance(b, tuple) or \
                isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "list":
            xa = a if isinstance(a, tuple) else self.st.cells[a.id]
            xb = b if isinstance(b, tuple) else self.st.cells[b.id]
            if isinstance(xa, Top) or isinstance(xb, Top):
                return Top("list equality")
            if len(xa) != len(xb):
                return FALSE
            r = TRUE
            for x, y in zip(xa, xb):
                if isinstance(x, Arr) or isinstance(y, Arr):
                    if same(x, y):
                        continue          # identity short-cut
                    t = self.truth(self.np.compare(self, "Eq", x, y))
                else:
                    t = self.equal(x, y)
                if isinstance(t, Top):
                    return t
                r = T.land(r, t)
            return self.decide(r)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "dict":
            xa, xb = self.st.cells[a.id], self.st.cells[b.id]
            if isinstance(xa, Top) or isinstance(xb, Top):
                return Top("dict equality")
            if set(map(str, xa)) != set(map(str, xb)):
                return FALSE
            r = TRUE
            for k in xa:
                t = self.equal(xa[k], xb[k])
                if isinstance(t, Top):
                    return t
                r = T.land(r, t)
            return self.decide(r)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.truth(self.np.compare(self, "Eq", a, b))
        if isinstance(a, Ref) and a.kind == "obj":
            m = self.class_lookup(a.cls, "__eq__")
            if m is not None:
                return self.truth(self.call(Bound(m, a), [b], {}))
        if a is None or b is None:
            return TRUE if a is b else FALSE
        if isinstance(a, Model) or isinstance(b, Model):
            if hasattr(a, "compare"):
                return self.truth(a.compare(self, "Eq", b))
            if hasattr(b, "compare"):
                return self.truth(b.compare(self, "Eq", a))
            return TRUE if a is b else Top("equality of models")
        if isinstance(a, Bound) and isinstance(b, Bound):
            return TRUE if a == b else FALSE      # same function of the same object
        r = self.identical(a, b)
        return r

    def contains(self, c, x):
        if isinstance(c, Top) or isinstance(x, Top):
            return c if isinstance(c, Top) else x
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, Phi):
                return self.lift(x, lambda y: self.contains(c, y))
            if x is None:
                self.raise_("TypeError", "'in <string>' requires string as left operand")
            return Top("substring test")
        if isinstance(c, Ref) and c.kind == "dict":
            d = self.st.cells[c.id]
            if isinstance(d, Top):
                return d
            if isinstance(x, Phi):
                return self.lift(x, lambda y: self.contains(c, y))
            k = self.find_key(d, x)
            if k is None:
                return False
            v = d[k]
            if isinstance(v, Phi) and any(y is UNBOUND for g, y in v.alts):
                r = FALSE
                for g, y in self.alts(v):
                    if y is not UNBOUND:
                        r = T.lor(r, g)
                return mkscalar(r, "bool")
            return True
        if isinstance(c, (KeysView,)):
            return self.contains(c.d, x)
        if isinstance(c, (Ref, tuple)):
            items = c if isinstance(c, tuple) else self.st.cells[c.id]
            if isinstance(items, Top):
                return items
            if isinstance(c, Ref) and c.kind == "obj":
                m = self.class_lookup(c.cls, "__contains__")
                if m is None:
                    return Top("in object")
                return self.call(Bound(m, c), [x], {})
            r = FALSE
            for y in items:
                if same(x, y):
                    return True
                t = self.equal(x, y)
                if isinstance(t, Top):
                    return t
                r = T.lor(r, t)
            return mkscalar(r, "bool")
        if isinstance(c, Arr):
            r = FALSE
            if not isnum(x):
                return Top("in array")
            for e in self.np.elems(self, c):
                r = T.lor(r, T.eqn(e, term(x)))
            return mkscalar(r, "bool")
        if isinstance(c, Model) and hasattr(c, "contains"):
            return c.contains(self, x)
        items = self.iterate(c)
        return self.contains(tuple(items), x)

    def find_key(self, d, k):
        """key object in dict d equal to k, or None"""
        if isinstance(k, Sc):
            k = mkscalar(k.t, k.ty.replace("np", ""))
        if isinstance(k, Sc):
            if all(isinstance(q, str) for q in d):
                return None         # a number is no name
            raise Unsupported("symbolic dictionary key")
        if isinstance(k, (Top, Phi)):
            raise Unsupported("unknown dictionary key")
        try:
            if k in d:
                return k
        except TypeError:
            self.raise_("TypeError", "unhashable type")
        return None

    # comprehensions
    def comp(self, n, fr, emit):
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        cell = self.alloc({})
        f2 = Frame(cell, fr, fr.module, names, None, fr.func)
        first = self.ev(n.generators[0].iter, fr)

        def rec(k):
            if k == len(n.generators):
                emit(f2)
                return
            g = n.generators[k]
            it = first if k == 0 else self.ev(g.iter, f2)
            it = self.clean(it)
            if isinstance(it, Phi):
                it2 = self.flat(it)
                if isinstance(it2, Phi):
                    raise Unsupported("comprehension over a union")
                it = it2
            if isinstance(it, Top):
                raise CompTop(it)
            for x in self.iterate(it):
                self.assign(g.target, x, f2)
                ok = TRUE
                for c in g.ifs:
                    ok = T.land(ok, self.decide(self.truth(self.ev(c, f2))))
                    if ok.op == "false":
                        break
                if ok.op == "false":
                    continue
                if ok.op != "true":
                    raise CompTop(Top("symbolic filter"))
                rec(k + 1)
        rec(0)

    def e_ListComp(self, n, fr):
        out = []
        try:
            self.comp(n, fr, lambda f: out.append(self.ev(n.elt, f)))
        except CompTop as e:
            return e.v
        return self.newlist(out)

    def e_GeneratorExp(self, n, fr):
        out = []
        try:
            self.comp(n, fr, lambda f: out.append(self.ev(n.elt, f)))
        except CompTop as e:
            return e.v
        return Iter(tuple(out))

    def e_SetComp(self, n, fr):
        out = []
        try:
            self.comp(n, fr, lambda f: out.append(self.ev(n.elt, f)))
        except CompTop as e:
            return e.v
        return self.newset(out)

    def e_DictComp(self, n, fr):
        d = {}

        def emit(f):
            k = self.key(self.ev(n.key, f))
            d[k] = self.ev(n.value, f)
        try:
            self.comp(n, fr, emit)
        except CompTop as e:
            return e.v
        return self.newdict(d)

    def e_Lambda(self, n, fr):
        return self.make_func(n, "<lambda>", fr)

    def e_Starred(self, n, fr):
        return self.ev(n.value, fr)

    def e_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value is not None else None
        f = fr
        while f is not None and f.yields is None:
            f = f.parent
        if f is None:
            raise Unsupported("yield")
        cid = f.yields
        self.st.cells[cid] = self.st.cells[cid] + (v,)
        return None

    def e_YieldFrom(self, n, fr):
        v = self.ev(n.value, fr)
        cid = fr.yields
        self.st.cells[cid] = self.st.cells[cid] + tuple(self.iterate(v))
        return None

    def e_Await(self, n, fr):
        raise Unsupported("await")

    # ------------------------------------------------------------ calls
    def e_Call(self, n, fr):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while f is not None and not (isinstance(f.func, Func) and f.func.owner is not None):
                f = f.parent
            if f is None:
                raise Unsupported("super()")
            selfname = f.func.node.args.args[0].arg
            return Super(f.func.owner, self.st.cells[f.cell][selfname])
        if isinstance(n.func, ast.Name) and n.func.id == "locals" and not n.args:
            d = {k: v for k, v in self.st.cells[fr.cell].items() if not k.startswith("__")}
            return self.newdict(d)
        f = self.ev(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.clean(self.ev(a.value, fr))
                if isinstance(v, Top):
                    return v
                args.extend(self.iterate(v))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.clean(self.ev(k.value, fr))
                if isinstance(v, Top):
                    return v
                if isinstance(v, Ref) and v.kind == "dict":
                    d = self.st.cells[v.id]
                    if isinstance(d, Top):
                        return d
                    kw.update(d)
                else:
                    raise Unsupported("** of unknown")
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Phi):
            return self.lift(f, lambda g: self.call(g, list(args), dict(kw)))
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return self.call_ext(f.path, args, kw)
        if isinstance(f, ExtMethod):
            return self.call_method(f.obj, f.name, args, kw)
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, Model):
            return f.call(self, args, kw)
        if isinstance(f, Top):
            return Top("call of " + f.why)
        if isinstance(f, Partial):
            return self.call(f.f, list(f.args) + list(args), dict(f.kw, **kw))
        if isinstance(f, Ref) and f.kind == "obj":
            m = self.class_lookup(f.cls, "__call__")
            if m is not None:
                return self.call(Bound(m, f), args, kw)
            self.raise_("TypeError", "'%s' object is not callable" % f.cls.name)
        if isinstance(f, Descr) and f.kind == "staticmethod":
            return self.call(f.f, args, kw)
        if f is None or isinstance(f, (int, float, str, Sc, tuple, Ref, Arr)):
            self.raise_("TypeError", "'%s' object is not callable" % tname(f))
        return Top("call of %r" % (f,))

    def bind(self, f, args, kw):
        a = f.node.args
        d = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        nd = len(f.defaults)
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(names), len(args)))
            d[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            d[a.vararg.arg] = ()
        for n, v in zip(names, args):
            d[n] = v
        kw = dict(kw)
        posonly = {x.arg for x in a.posonlyargs}
        for k in list(kw):
            if k in names and k not in posonly or k in [x.arg for x in a.kwonlyargs]:
                if k in d:
                    self.raise_("TypeError", "%s() got multiple values for argument '%s'" % (f.name, k))
                d[k] = kw.pop(k)
        for i, n in enumerate(names):
            if n not in d:
                j = i - (len(names) - nd)
                if j < 0:
                    self.raise_("TypeError", "%s() missing required argument '%s'" % (f.name, n))
                d[n] = f.defaults[j]
        for x, dv in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in d:
                if dv is None:
                    self.raise_("TypeError", "%s() missing keyword argument '%s'" % (f.name, x.arg))
                d[x.arg] = dv[0]
        if a.kwarg is not None:
            d[a.kwarg.arg] = self.newdict(kw)
        elif kw:
            self.raise_("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, sorted(map(str, kw))[0]))
        return d

    def qual(self, f):
        return "%s:%s%s" % (f.module.path, (f.owner.name + ".") if isinstance(f.owner, ClassVal) else "", f.name)

    def call_func(self, f, args, kw):
        d = self.bind(f, args, kw)
        cell = self.alloc(d)
        fr = Frame(cell, f.frame, f.module, f.info.locals, f.info.globals, f)
        q = self.qual(f)
        self.analysed.add(q)
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            raise Budget("recursion depth")
        self.callstack.append((q, f.node.lineno, f))
        saved = self.exits
        self.exits = []
        try:
            if isinstance(f.node, ast.Lambda):
                try:
                    v = self.ev(f.node.body, fr)
                    self.exits.append(Exit("return", self.st, v))
                    self.st = None
                except AbsRaise as e:
                    self.exits.append(Exit("raise", self.st, e.exc))
                    self.st = None
                except Dead:
                    self.st = None
            else:
                if f.info.is_gen:
                    fr.yields = self.alloc(())
                self.exec_block(f.node.body, fr)
            mine = self.exits
        finally:
            self.exits = saved
            self.depth -= 1
            self.callstack.pop()
        rets = [(e.st, Box(e.val)) for e in mine if e.kind == "return"]
        if self.st is not None:
            rets.append((self.st, Box(None)))
        raises = [e for e in mine if e.kind == "raise"]
        if not f.info.has_inner:
            for s, _ in rets:
                s.cells.pop(cell, None)
            for e in raises:
                e.st.cells.pop(cell, None)
        if rets:
            self.exits.extend(raises)
            self.st, v = self.merge_many(rets)
            if f.info.is_gen:
                return Iter(self.st.cells[fr.yields])
            return v.v
        if raises:
            self.exits.extend(raises[:-1])
            self.st = raises[-1].st
            raise AbsRaise(raises[-1].val)
        raise Dead()

    def instantiate(self, cls, args, kw):
        for c in cls.mro:
            if isinstance(c, Ext):
                n = c.path.split(".")[-1]
                if is_exc_name(n):
                    return Exc(cls, tuple(args), self.where())
                if n == "ndarray" or n in ("dict", "list", "tuple", "str", "float", "int"):
                    return Top("instance of %s" % cls.name)
                if n in ("Enum", "IntEnum", "NamedTuple"):
                    return Top("enum")
        new = self.class_lookup(cls, "__new__")
        if new is not None:
            f = new.f if isinstance(new, Descr) else new
            o = self.call(f, [cls] + list(args), kw)
            if not (isinstance(o, Ref) and o.kind == "obj" and cls in o.cls.mro):
                return o
        else:
            o = self.newobj(cls)
        init = self.class_lookup(cls, "__init__")
        if init is not None:
            self.call(Bound(init, o), args, kw)
        elif args or kw:
            self.raise_("TypeError", "%s() takes no arguments" % cls.name)
        return o

    # ------------------------------------------------------------ attributes
    def class_lookup(self, cls, name):
        if cls is None:
            return None
        for c in cls.mro:
            if isinstance(c, ClassVal):
                d = self.st.cells[c.cell]
                if name in d:
                    return d[name]
        return None

    def class_has(self, cls, name):
        return any(isinstance(c, ClassVal) and name in self.st.cells[c.cell] for c in cls.mro)

    def getattr_(self, o, name, default=UNBOUND):
        if isinstance(o, Phi):
            o2 = self.flat(o) if name not in ("sort", "fill", "append", "extend") else o
            if not isinstance(o2, Phi):
                return self.getattr_(o2, name)
            return self.lift(o, lambda x: self.getattr_(x, name))
        if isinstance(o, Ref) and o.kind == "obj":
            return self.obj_getattr(o, name)
        if isinstance(o, ModuleVal):
            d = self.st.cells[o.cell]
            if name in d:
                return self.clean(d[name])
            if self.pkg.has(o.name + "." + name):
                return self.load(o.name + "." + name)
            self.raise_("AttributeError", "module %s has no attribute %s" % (o.name, name))
        if isinstance(o, Ext):
            p = canon(o.path + "." + name)
            return self.ext_const(p)
        if isinstance(o, ClassVal):
            v = self.class_lookup(o, name)
            if v is None and self.class_has(o, name):
                return None
            if v is not None:
                if isinstance(v, Descr):
                    if v.kind == "classmethod":
                        return Bound(v.f, o)
                    if v.kind == "staticmethod":
                        return v.f
                return self.clean(v)
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__dict__":
                return self.newdict(self.st.cells[o.cell])
            for c in o.mro:
                if isinstance(c, Ext):
                    return Ext(c.path + "." + name)
            return Ext("builtins.object." + name)
        if isinstance(o, Super):
            return self.super_getattr(o, name)
        if isinstance(o, Top):
            return Top(o.why)
        if isinstance(o, Arr):
            return self.np.arr_attr(self, o, name)
        if isinstance(o, MaskSel):
            return self.np.masksel_attr(self, o, name)
        if isinstance(o, Sc) and o.ty.startswith("np"):
            return self.np.scalar_attr(self, o, name)
        if isinstance(o, (int, float, Sc)):
            if name in ("real",):
                return o
            if name in ("is_integer", "conjugate", "bit_length"):
                return ExtMethod(o, name)
            self.raise_("AttributeError", "'%s' object has no attribute '%s'" % (tname(o), name))
        if isinstance(o, Model):
            return o.getattr(self, name)
        if isinstance(o, (str, StrT)):
            if hasattr(str, name):
                return ExtMethod(o, name)
            self.raise_("AttributeError", "'str' object has no attribute '%s'" % name)
        if isinstance(o, tuple):
            if hasattr(tuple, name):
                return ExtMethod(o, name)
            self.raise_("AttributeError", "'tuple' object has no attribute '%s'" % name)
        if isinstance(o, Ref):
            t = {"list": list, "dict": dict, "set": set}[o.kind]
            if hasattr(t, name):
                return ExtMethod(o, name)
            self.raise_("AttributeError", "'%s' object has no attribute '%s'" % (o.kind, name))
        if o is None:
            self.raise_("AttributeError", "'NoneType' object has no attribute '%s'" % name)
        if isinstance(o, (Func, Bound)):
            if name == "__name__":
                return o.name if isinstance(o, Func) else o.func.name
            if name == "__self__" and isinstance(o, Bound):
                return o.self_
            if name == "__func__" and isinstance(o, Bound):
                return o.func
            self.raise_("AttributeError", "function has no attribute '%s'" % name)
        if isinstance(o, Exc):
            if name == "args":
                return tuple(o.args)
            return Top("exception attribute")
        if isinstance(o, Descr) and o.kind == "property":
            if name == "setter":
                return PropSetter(o)
        if isinstance(o, (Iter, KeysView)):
            return ExtMethod(o, name)
        if isinstance(o, slice) and name in ("start", "stop", "step"):
            return getattr(o, name)
        return Top("attribute %s" % name)

    def default_getattr(self, o, name):
        """object.__getattribute__"""
        d = self.st.cells[o.id]
        cv = self.class_lookup(o.cls, name)
        if isinstance(cv, Descr) and cv.kind == "property":
            return self.call(cv.f, [o], {})
        if name in d:
            v = self.clean(d[name])
            if isinstance(v, Phi) and any(x is UNBOUND for g, x in v.alts):
                g = FALSE
                for gg, x in v.alts:
                    if x is UNBOUND:
                        g = T.lor(g, gg)
                if cv is not None or self.class_has(o.cls, name):
                    rest = tuple((gg, ((self.bind_attr(o, cv) if cv is not None else None) if x is UNBOUND else x)) for gg, x in v.alts)
                    return Phi(rest)
                self.cond_raise(g, "AttributeError", name)
                rest = tuple((gg, x) for gg, x in v.alts if x is not UNBOUND)
                v = rest[0][1] if len(rest) == 1 else Phi(rest)
            if v is UNBOUND:
                self.raise_("AttributeError", "'%s' object has no attribute '%s'" % (o.cls.name, name))
            return v
        if cv is not None:
            return self.bind_attr(o, cv)
        if self.class_has(o.cls, name):
            return None
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return AttrDict(o)
        for c in o.cls.mro:
            if isinstance(c, Ext) and c.path not in ("builtins.object", "abc.ABC", "typing.Generic"):
                return Top("attribute %s inherited from %s" % (name, c.path))
        if name in ("__init__", "__setattr__", "__getattribute__", "__repr__", "__str__", "__eq__", "__hash__", "__reduce__"):
            return Bound(Ext("builtins.object." + name), o)
        self.raise_("AttributeError", "'%s' object has no attribute '%s'" % (o.cls.name, name))

    def bind_attr(self, o, cv):
        cv = self.clean(cv)
        if isinstance(cv, Func):
            return Bound(cv, o)
        if isinstance(cv, Descr):
            if cv.kind == "staticmethod":
                return cv.f
            if cv.kind == "classmethod":
                return Bound(cv.f, o.cls)
            if cv.kind == "property":
                return self.call(cv.f, [o], {})
            if cv.kind == "cached_property":
                v = self.call(cv.f, [o], {})
                d = dict(self.st.cells[o.id])
                d[cv.f.name] = v
                self.st.cells[o.id] = d
                return v
        if isinstance(cv, Phi):
            return Phi(tuple((g, self.bind_attr(o, x)) for g, x in cv.alts))
        return cv

    def obj_getattr(self, o, name):
        ga = self.class_lookup(o.cls, "__getattribute__")
        if ga is not None:
            return self.call(Bound(ga, o), [name], {})
        try:
            n0 = len(self.exits)
            return self.default_getattr(o, name)
        except AbsRaise as e:
            if e.exc.name != "AttributeError":
                raise
            g = self.class_lookup(o.cls, "__getattr__")
            if g is None or name.startswith("__"):
                raise
            return self.call(Bound(g, o), [name], {})

    def super_getattr(self, s, name):
        o = s.obj
        cls = o.cls if isinstance(o, Ref) else o
        mro = cls.mro
        k = mro.index(s.cls)
        for c in mro[k + 1:]:
            if isinstance(c, ClassVal):
                d = self.st.cells[c.cell]
                if name in d:
                    return self.bind_attr(o, d[name])
        if name == "__init__":
            return Native(lambda I, a, k: None)
        if name == "__setattr__":
            return Bound(Ext("builtins.object.__setattr__"), o)
        if name in ("__getattribute__", "__getattr__"):
            if name == "__getattr__":
                self.raise_("AttributeError", "'super' object has no attribute '__getattr__'")
            return Bound(Ext("builtins.object.__getattribute__"), o)
        if name == "__new__":
            return Ext("builtins.object.__new__")
        self.raise_("AttributeError", "'super' object has no attribute '%s'" % name)

    def setattr_(self, o, name, v):
        def f(o):
            if isinstance(o, Ref) and o.kind == "obj":
                m = self.class_lookup(o.cls, "__setattr__")
                if m is not None:
                    self.call(Bound(m, o), [name, v], {})
                    return None
                self.default_setattr(o, name, v)
                return None
            if isinstance(o, ClassVal):
                d = dict(self.st.cells[o.cell])
                d[name] = v
                self.st.cells[o.cell] = d
                return None
            if isinstance(o, ModuleVal):
                d = dict(self.st.cells[o.cell])
                d[name] = v
                self.st.cells[o.cell] = d
                return None
            if isinstance(o, Top):
                self.stats["store_to_unknown"] = self.stats.get("store_to_unknown", 0) + 1
                return None
            if isinstance(o, Arr) and name == "shape":
                raise Unsupported("shape assignment")
            if isinstance(o, Model) and hasattr(o, "setattr"):
                return o.setattr(self, name, v)
            if isinstance(o, (Model, Ext, Func, Bound)):
                return None
            self.raise_("AttributeError", "cannot set attribute '%s'" % name)
        self.lift(o, f)

    def default_setattr(self, o, name, v):
        cv = self.class_lookup(o.cls, name)
        if isinstance(cv, Descr) and cv.kind == "property":
            if cv.setter is None:
                self.raise_("AttributeError", "can't set attribute '%s'" % name)
            self.call(cv.setter, [o, v], {})
            return
        d = dict(self.st.cells[o.id])
        d[name] = v
        self.st.cells[o.id] = d

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        if isinstance(o, Phi):
            o2 = self.flat(o)
            if isinstance(o2, Arr):
                return self.getitem(o2, k)
            return self.lift(o, lambda x: self.getitem(x, k))
        if isinstance(k, Phi):
            return self.lift(k, lambda x: self.getitem(o, x))
        if isinstance(o, Top):
            return o
        if isinstance(o, (Arr, MaskSel)):
            return self.np.getitem(self, o, k)
        if isinstance(o, Sc) and o.ty.startswith("np"):
            return self.np.getitem(self, self.np.asarr(self, o), k)
        if isinstance(k, Top):
            return k
        if isinstance(o, (tuple, str)) or isinstance(o, Ref) and o.kind == "list":
            items = self.st.cells[o.id] if isinstance(o, Ref) else o
            if isinstance(items, Top):
                return items
            if isinstance(k, slice):
                if any(isinstance(x, (Sc, Top, Phi)) for x in (k.start, k.stop, k.step)):
                    return Top("symbolic slice")
                r = items[k]
                return self.newlist(r) if isinstance(o, Ref) else r
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, Sc) and (T.isbool(k.t)):
                k = Sc(T.num(k.t), "int")
            if isinstance(k, Sc) and k.t.op == "const":
                k = int(k.t.args[0])
            if isinstance(k, int):
                try:
                    return self.clean(items[k])
                except IndexError:
                    self.raise_("IndexError", "index out of range")
            if isinstance(k, Sc) and "int" in k.ty:
                alts = []
                for i, x in enumerate(items):
                    alts.append((T.eqn(k.t, const(i)), x))
                if not alts:
                    self.raise_("IndexError", "index out of range")
                return self.join_alts(alts)
            if isinstance(k, (str, tuple, float)) or k is None:
                self.raise_("TypeError", "indices must be integers or slices, not %s" % tname(k))
            return Top("index")
        if isinstance(o, Ref) and o.kind == "dict":
            d = self.st.cells[o.id]
            if isinstance(d, Top):
                return d
            kk = self.find_key(d, k)
            if kk is None:
                self.raise_("KeyError", k)
            v = self.clean(d[kk])
            if isinstance(v, Phi) and any(x is UNBOUND for g, x in v.alts):
                g = FALSE
                for gg, x in v.alts:
                    if x is UNBOUND:
                        g = T.lor(g, gg)
                self.cond_raise(g, "KeyError", k)
                rest = tuple((gg, x) for gg, x in v.alts if x is not UNBOUND)
                v = rest[0][1] if len(rest) == 1 else Phi(rest)
            return v
        if isinstance(o, Ref) and o.kind == "obj":
            m = self.class_lookup(o.cls, "__getitem__")
            if m is not None:
                return self.call(Bound(m, o), [k], {})
            self.raise_("TypeError", "'%s' object is not subscriptable" % o.cls.name)
        if isinstance(o, Model):
            if hasattr(o, "getitem"):
                return o.getitem(self, k)
            return Top("item of model")
        if isinstance(o, Ext):
            return Top("subscript of " + o.path)
        if isinstance(o, StrT):
            if k == 0 and o.t.op == "fmt":
                return Top("first character")
            return Top("character of symbolic string")
        if isinstance(o, AttrDict):
            return self.getattr_(o.o, k)
        if o is None or isnum(o):
            self.raise_("TypeError", "'%s' object is not subscriptable" % tname(o))
        return Top("subscript")

    def join_alts(self, alts):
        """value selected by mutually exclusive guards"""
        if all(isnum(x) for g, x in alts):
            t = term(alts[-1][1])
            ty = tyof(alts[-1][1])
            for g, x in reversed(alts[:-1]):
                t = T.ite(g, term(x), t)
                ty = self.join_ty(Sc(T.ZERO, ty), x)
            return mkscalar(t, ty)
        if len(alts) == 1:
            return alts[0][1]
        return Phi(tuple(alts))

    def setitem(self, o, k, v):
        if isinstance(k, Phi):
            self.lift(k, lambda x: self.setitem(o, x, v))
            return

        def f(o):
            if isinstance(o, Arr):
                self.np.setitem(self, o, k, v)
                return None
            if isinstance(o, Ref) and o.kind == "dict":
                d = self.st.cells[o.id]
                if isinstance(d, Top):
                    return None
                kk = self.key(k)
                d = dict(d)
                d[kk] = v
                self.st.cells[o.id] = d
                return None
            if isinstance(o, Ref) and o.kind == "list":
                c = self.st.cells[o.id]
                if isinstance(c, Top):
                    return None
                l = list(c)
                if isinstance(k, Sc):
                    raise Unsupported("symbolic list store")
                try:
                    if isinstance(k, slice):
                        l[k] = self.iterate(v)
                    else:
                        l[k] = v
                except IndexError:
                    self.raise_("IndexError", "list assignment index out of range")
                self.st.cells[o.id] = tuple(l)
                return None
            if isinstance(o, Ref) and o.kind == "obj":
                m = self.class_lookup(o.cls, "__setitem__")
                if m is not None:
                    self.call(Bound(m, o), [k, v], {})
                    return None
                self.raise_("TypeError", "object does not support item assignment")
            if isinstance(o, AttrDict):
                d = dict(self.st.cells[o.o.id])
                d[k] = v
                self.st.cells[o.o.id] = d
                return None
            if isinstance(o, Top):
                self.stats["store_to_unknown"] = self.stats.get("store_to_unknown", 0) + 1
                return None
            if isinstance(o, MaskSel):
                return None
            if isinstance(o, Model) and hasattr(o, "setitem"):
                o.setitem(self, k, v)
                return None
            if isinstance(o, (tuple, str)) or o is None or isnum(o):
                self.raise_("TypeError", "'%s' object does not support item assignment" % tname(o))
            raise Unsupported("item assignment")
        self.lift(o, f)

    # ------------------------------------------------------------ iteration
    def iterate(self, v, symbolic_ok=False):
        v = self.clean(v)
        if isinstance(v, Phi):
            v = self.flat(v)
        if isinstance(v, tuple):
            return [self.clean(x) for x in v]
        if isinstance(v, Iter):
            return list(v.items)
        if isinstance(v, KeysView):
            return v.iterate(self)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Ref):
            c = self.st.cells[v.id]
            if v.kind == "obj":
                m = self.class_lookup(v.cls, "__iter__")
                if m is not None:
                    return self.iterate(self.call(Bound(m, v), [], {}))
                m = self.class_lookup(v.cls, "__getitem__")
                if m is not None:
                    n = self.call(Bound(self.class_lookup(v.cls, "__len__"), v), [], {})
                    return [self.call(Bound(m, v), [i], {}) for i in range(n)]
                self.raise_("TypeError", "'%s' object is not iterable" % v.cls.name)
            if isinstance(c, Top):
                if symbolic_ok:
                    return None
                raise Unsupported("iteration over unknown collection")
            if v.kind == "dict":
                for k, x in c.items():
                    if isinstance(x, Phi) and any(y is UNBOUND for g, y in x.alts):
                        raise Unsupported("iteration over a dict with optional keys")
                return list(c.keys())
            return [self.clean(x) for x in c]
        if isinstance(v, Arr):
            if len(v.shape) == 0:
                self.raise_("TypeError", "iteration over a 0-d array")
            return [self.np.getitem(self, v, i) for i in range(v.shape[0])]
        if isinstance(v, Model):
            if hasattr(v, "iterate"):
                return v.iterate(self)
            raise Unsupported("iteration over %s" % type(v).__name__)
        if isinstance(v, Top):
            if symbolic_ok:
                return None
            raise Unsupported("iteration over unknown (%s)" % v.why)
        if isnum(v) or v is None:
            self.raise_("TypeError", "'%s' object is not iterable" % tname(v))
        if isinstance(v, Inf):
            raise Unsupported("infinite iteration")
        if isinstance(v, MaskSel):
            if symbolic_ok:
                return None
        raise Unsupported("iteration over %r" % (v,))

    # ------------------------------------------------------------ externals
    def call_ext(self, path, args, kw):
        h = self.hooks.get(path)
        if h is not None:
            return h(self, args, kw)
        return self.np.call_ext(self, path, args, kw)

    def call_method(self, o, name, args, kw):
        if isinstance(o, Arr):
            return self.np.arr_method(self, o, name, args, kw)
        if isinstance(o, MaskSel):
            return self.np.masksel_method(self, o, name, args, kw)
        if isinstance(o, Sc) or isinstance(o, (int, float)):
            return self.np.scalar_method(self, o, name, args, kw)
        if isinstance(o, Model):
            return o.method(self, name, args, kw)
        from . import pymodel
        return pymodel.method(self, o, name, args, kw)

    def dict_method(self, o, name, args, kw):
        from . import pymodel
        return pymodel.method(self, o, name, args, kw)


class Box:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class CompTop(Exception):
    def __init__(self, v):
        self.v = v


class Descr:
    __slots__ = ("kind", "f", "setter")

    def __init__(self, kind, f, setter=None):
        self.kind = kind
        self.f = f
        self.setter = setter


class PropSetter:
    def __init__(self, prop):
        self.prop = prop


class Super:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Iter:
    """finite iterator (consumed at most once in supported code)"""
    def __init__(self, items):
        self.items = items


class Inf:
    """infinite iterator: cycle / count / repeat"""
    def __init__(self, f):
        self.f = f


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class AttrDict:
    """obj.__dict__"""
    def __init__(self, o):
        self.o = o


class KeysView:
    def __init__(self, d, what):
        self.d = d
        self.what = what

    def iterate(self, I):
        c = I.st.cells[self.d.id]
        if isinstance(c, Top):
            raise Unsupported("unknown dict")
        for k, x in c.items():
            if isinstance(x, Phi) and any(y is UNBOUND for g, y in x.alts):
                raise Unsupported("iteration over a dict with optional keys")
        if self.what == "keys":
            return list(c.keys())
        if self.what == "values":
            return [I.clean(x) for x in c.values()]
        return [(k, I.clean(x)) for k, x in c.items()]


OPMETH = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "Pow": "__pow__", "MatMult": "__matmul__",
          "Mod": "__mod__", "FloorDiv": "__floordiv__", "BitAnd": "__and__", "BitOr": "__or__"}


def tname(v):
    if v is None:
        return "NoneType"
    if isinstance(v, Sc):
        return {"npfloat": "numpy.float64", "npint": "numpy.int64", "npbool": "numpy.bool"}.get(v.ty, v.ty)
    if isinstance(v, Ref):
        return v.cls.name if v.kind == "obj" else v.kind
    if isinstance(v, Arr):
        return "numpy.ndarray"
    return type(v).__name__


def same(a, b):
    """representation equality (sufficient for python ==/hash equality)"""
    if a is b:
        return True
    if isinstance(a, (Top, Phi)) or isinstance(b, (Top, Phi)):
        return False
    if type(a) is not type(b):
        return False
    try:
        r = a == b
        return r is True
    except Exception:
        return False


_CANON = {"np": "numpy"}


def canon(p):
    if p.startswith("numpy.core.numeric.") or p.startswith("numpy.lib."):
        p = "numpy." + p.split(".")[-1]
    if p.startswith("scipy.interpolate._"):
        p = "scipy.interpolate." + p.split(".")[-1]
    return p


class Merger:
    """pointwise join of two heaps"""

    def __init__(self, I, sel, c1, c2, mark):
        self.I = I
        self.sel = sel
        self.c1 = c1
        self.c2 = c2
        self.mark = mark
        self.memo = {}
        self.out = None
        self.extra = {}
        self.work = []

    def run(self):
        c1, c2 = self.c1, self.c2
        out = dict(c1)
        self.out = out
        for i, b in c2.items():
            a = c1.get(i)
            if a is b:
                continue
            if i not in c1:
                out[i] = b
            else:
                out[i] = self.content(a, b)
        return out

    def finish(self):
        while self.work:
            nid, a, b = self.work.pop()
            self.out[nid] = self.content(a, b)

    def content(self, a, b):
        if a is b:
            return a
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if isinstance(a, dict) and isinstance(b, dict):
            d = {}
            for k in a:
                if k in b:
                    d[k] = self.value(a[k], b[k])
                else:
                    d[k] = self.value(a[k], UNBOUND)
            for k in b:
                if k not in a:
                    d[k] = self.value(UNBOUND, b[k])
            return d
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) == len(b):
                return tuple(self.value(x, y) for x, y in zip(a, b))
            return Top("collections of different length joined")
        return Top("join")

    def value(self, a, b):
        if a is b:
            return a
        if isinstance(a, Term) and isinstance(b, Term):
            return T.ite(self.sel, a, b)
        if isinstance(a, Box) and isinstance(b, Box):
            return Box(self.value(a.v, b.v))
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if a is UNBOUND or b is UNBOUND:
            return self.phi(a, b)
        if isnum(a) and isnum(b):
            if type(a) is type(b) and not isinstance(a, Sc) and (a == b or (a != a and b != b)):
                return a
            ta, tb = term(a), term(b)
            x, y = tyof(a), tyof(b)
            if x == y:
                return mkscalar(T.ite(self.sel, ta, tb), x)
            if {x, y} <= {"bool", "npbool"} or {x, y} <= {"float", "npfloat", "int", "npint"}:
                if T.isbool(ta) != T.isbool(tb):
                    return self.phi(a, b)
                # representation type is not decisive: prefer the numpy one, keep floatness
                ty = "float" if "float" in x + y else ("int" if "int" in x + y else "bool")
                if x.startswith("np") or y.startswith("np"):
                    ty = "np" + ty
                return mkscalar(T.ite(self.sel, ta, tb), ty)
            return self.phi(a, b)
        if isinstance(a, str) and a == b:
            return a
        if isinstance(a, (str, StrT)) and isinstance(b, (str, StrT)):
            return self.phi(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.value(x, y) for x, y in zip(a, b))
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a == b:
                return a
            if a.buf >= self.mark and b.buf >= self.mark and a.idx == b.idx and a.shape == b.shape and a.dtype == b.dtype \
                    and a.buf in self.c1 and b.buf in self.c2:
                key = (a.buf, b.buf)
                if len(self.c1[a.buf]) == len(self.c2[b.buf]):
                    if key not in self.memo:
                        nid = newid()
                        self.memo[key] = nid
                        self.work.append((nid, self.c1[a.buf], self.c2[b.buf]))
                    return Arr(self.memo[key], a.idx, a.shape, a.dtype)
            if a.buf >= self.mark and b.buf >= self.mark and a.shape == b.shape and a.dtype != "object" and b.dtype != "object" \
                    and a.buf in self.c1 and b.buf in self.c2:
                ea = [self.c1[a.buf][i] for i in a.idx]
                eb = [self.c2[b.buf][i] for i in b.idx]
                nid = newid()
                self.out[nid] = tuple(T.ite(self.sel, x, y) for x, y in zip(ea, eb))
                return Arr(nid, tuple(range(len(ea))), a.shape, self.I.np.promote(a.dtype, b.dtype))
            return self.phi(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return a
            if a.kind == b.kind and a.cls is b.cls and a.id >= self.mark and b.id >= self.mark \
                    and a.id in self.c1 and b.id in self.c2:
                ca, cb = self.c1[a.id], self.c2[b.id]
                if isinstance(ca, (tuple, dict)) and isinstance(cb, type(ca)) and len(ca) == len(cb) and \
                        (isinstance(ca, tuple) or list(ca) == list(cb)):
                    key = (a.id, b.id)
                    if key not in self.memo:
                        nid = newid()
                        self.memo[key] = nid
                        self.work.append((nid, ca, cb))
                    return Ref(self.memo[key], a.kind, a.cls)
            return self.phi(a, b)
        if isinstance(a, Model) and isinstance(b, Model) and type(a) is type(b) and hasattr(a, "join"):
            r = a.join(self, b)
            if r is not None:
                return r
        if same(a, b):
            return a
        return self.phi(a, b)

    def phi(self, a, b):
        alts = []
        for g, v in ((self.sel, a), (T.lnot(self.sel), b)):
            if isinstance(v, Phi):
                for gg, x in v.alts:
                    alts.append((T.land(g, gg), x))
            else:
                alts.append((g, v))
        # unify equal alternatives
        out = []
        for g, v in alts:
            for k, (g2, v2) in enumerate(out):
                if v is v2 or same(v, v2):
                    out[k] = (T.lor(g, g2), v2)
                    break
            else:
                out.append((g, v))
        out = [(g, v) for g, v in out if g.op != "false"]
        if len(out) == 1:
            return out[0][1]
        return Phi(tuple(out))
