"""Abstract semantics of the methods of the built-in containers and strings."""
import string

from . import terms as T
from .terms import Term, TRUE, FALSE, const
from .values import *
from .values import UNBOUND


def _core():
    from . import interp
    return interp


def method(I, o, name, args, kw):
    if isinstance(o, Ref):
        if o.kind == "list":
            return list_method(I, o, name, args, kw)
        if o.kind == "dict":
            return dict_method(I, o, name, args, kw)
        if o.kind == "set":
            return set_method(I, o, name, args, kw)
    if isinstance(o, str):
        return str_method(I, o, name, args, kw)
    if isinstance(o, StrT):
        return strt_method(I, o, name, args, kw)
    if isinstance(o, tuple):
        if name == "index":
            for i, x in enumerate(o):
                e = I.decide(I.equal(x, args[0]))
                if e.op == "true":
                    return i
                if e.op != "false":
                    return Top("tuple.index")
            I.raise_("ValueError", "tuple.index(x): x not in tuple")
        if name == "count":
            return Top("tuple.count")
    return Top("method %s of %s" % (name, type(o).__name__))


def eqterm(I, a, b):
    e = I.equal(a, b)
    if isinstance(e, Term):
        return I.decide(e)
    return I.decide(I.truth(e))


def list_method(I, o, name, args, kw):
    C = _core()
    c = I.st.cells[o.id]
    if isinstance(c, Top):
        if name in ("append", "extend", "insert", "clear", "reverse", "sort"):
            return None
        return Top("method %s of unknown list" % name)
    if name == "append":
        I.st.cells[o.id] = c + (args[0],)
        return None
    if name == "extend":
        v = I.clean(args[0])
        if isinstance(v, Top):
            I.st.cells[o.id] = Top("extended")
            return None
        I.st.cells[o.id] = c + tuple(I.iterate(v))
        return None
    if name == "insert":
        i = I.index_int(args[0])
        if not isinstance(i, int):
            raise Unsupported("insert at symbolic position")
        l = list(c)
        l.insert(i, args[1])
        I.st.cells[o.id] = tuple(l)
        return None
    if name == "pop":
        i = I.index_int(args[0]) if args else -1
        if not isinstance(i, int):
            raise Unsupported("pop at symbolic position")
        if not c or i >= len(c) or i < -len(c):
            I.raise_("IndexError", "pop from empty list" if not c else "pop index out of range")
        l = list(c)
        v = l.pop(i)
        I.st.cells[o.id] = tuple(l)
        return I.clean(v)
    if name == "remove":
        for i, x in enumerate(c):
            e = eqterm(I, x, args[0])
            if e.op == "true":
                I.st.cells[o.id] = c[:i] + c[i + 1:]
                return None
            if e.op != "false":
                raise Unsupported("list.remove of symbolic element")
        I.raise_("ValueError", "list.remove(x): x not in list")
    if name == "index":
        for i, x in enumerate(c):
            e = eqterm(I, x, args[0])
            if e.op == "true":
                return i
            if e.op != "false":
                return Top("list.index")
        I.raise_("ValueError", "x is not in list")
    if name == "count":
        n = T.ZERO
        for x in c:
            n = T.add(n, T.num(eqterm(I, x, args[0])))
        return C.mkscalar(n, "int")
    if name == "copy" or name == "__copy__":
        return I.newlist(c)
    if name == "clear":
        I.st.cells[o.id] = ()
        return None
    if name == "reverse":
        I.st.cells[o.id] = tuple(reversed(c))
        return None
    if name == "sort":
        r = sort_items(I, list(c), kw.get("key"), kw.get("reverse", False))
        I.st.cells[o.id] = Top("sorted") if r is None else tuple(r)
        return None
    if name == "__len__":
        return len(c)
    if name == "__getitem__":
        return I.getitem(o, args[0])
    if name == "__iter__":
        return C.Iter(tuple(c))
    if name == "__contains__":
        return I.contains(o, args[0])
    return Top("list." + name)


def sort_items(I, items, key, reverse):
    """sorted list, or None when the order is not known"""
    C = _core()
    ks = []
    for x in items:
        k = I.call(key, [x], {}) if key is not None else x
        nk = native_key(k)
        if nk is None:
            return sort_numbers(I, items, key, reverse)
        ks.append(nk[0])
    try:
        order = sorted(range(len(items)), key=lambda i: ks[i], reverse=reverse is True)
    except TypeError as e:
        I.raise_("TypeError", str(e))
    return [items[i] for i in order]


def sort_numbers(I, items, key, reverse):
    """a few numbers of unknown order: a network of comparisons"""
    C = _core()
    if key is not None or not 0 < len(items) <= 4 or reverse not in (True, False, None):
        return None
    if not all(isinstance(v, Sc) or isinstance(v, (int, float)) and not isinstance(v, bool) for v in items):
        return None
    ts = [C.term(v) for v in items]
    ty = "int" if all(isinstance(v, int) or isinstance(v, Sc) and v.ty == "int" for v in items) else "float"
    if any(T.isbool(t) for t in ts):
        return None
    n = len(ts)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = ts[j], ts[j + 1]
            c = T.lt(a, b) if reverse is True else T.lt(b, a)
            ts[j], ts[j + 1] = T.ite(c, b, a), T.ite(c, a, b)
    return [C.mkscalar(t, ty) for t in ts]


def native_key(k):
    if isinstance(k, (int, float, str)):
        return (k,)
    if isinstance(k, Sc) and k.t.op == "const":
        return (k.t.args[0],)
    if isinstance(k, tuple):
        r = [native_key(x) for x in k]
        if any(x is None for x in r):
            return None
        return (tuple(x[0] for x in r),)
    return None


def split_unbound(I, v):
    """(guard present, value when present)"""
    if isinstance(v, Phi):
        v = I.clean(v)
    if isinstance(v, Phi) and any(x is UNBOUND for g, x in v.alts):
        g = FALSE
        for gg, x in v.alts:
            if x is UNBOUND:
                g = T.lor(g, gg)
        rest = tuple((gg, x) for gg, x in v.alts if x is not UNBOUND)
        return T.lnot(g), (rest[0][1] if len(rest) == 1 else Phi(rest))
    if v is UNBOUND:
        return FALSE, None
    return TRUE, v


def dict_method(I, o, name, args, kw):
    C = _core()
    c = I.st.cells[o.id]
    if isinstance(c, Top):
        return Top("method of unknown dict")
    if name == "get":
        d = args[1] if len(args) > 1 else kw.get("default")
        k = I.clean(args[0])
        if isinstance(k, (Top,)):
            return Top("dict.get")
        if isinstance(k, Phi):
            return I.lift(k, lambda x: dict_method(I, o, "get", [x] + list(args[1:]), kw))
        kk = I.find_key(c, k)
        if kk is None:
            return d
        g, v = split_unbound(I, c[kk])
        if g.op == "true":
            return I.clean(v)
        if g.op == "false":
            return d
        return Phi(((g, v), (T.lnot(g), d)))
    if name in ("keys", "values", "items"):
        return C.KeysView(o, name)
    if name == "update":
        d = dict(c)
        if args:
            a = I.clean(args[0])
            if isinstance(a, Ref) and a.kind == "dict":
                x = I.st.cells[a.id]
                if isinstance(x, Top):
                    I.st.cells[o.id] = Top("updated")
                    return None
                d.update(x)
            else:
                for kv in I.iterate(a):
                    k, v = I.unpack(kv, 2)
                    d[I.key(k)] = v
        d.update(kw)
        I.st.cells[o.id] = d
        return None
    if name == "pop":
        kk = I.find_key(c, args[0])
        if kk is None:
            if len(args) > 1:
                return args[1]
            I.raise_("KeyError", args[0])
        g, v = split_unbound(I, c[kk])
        if g.op != "true":
            if len(args) > 1:
                v = Phi(((g, v), (T.lnot(g), args[1])))
            else:
                I.cond_raise(T.lnot(g), "KeyError", args[0])
        d = dict(I.st.cells[o.id])
        del d[kk]
        I.st.cells[o.id] = d
        return I.clean(v)
    if name == "setdefault":
        kk = I.find_key(c, args[0])
        if kk is None:
            d = dict(c)
            v = args[1] if len(args) > 1 else None
            d[I.key(args[0])] = v
            I.st.cells[o.id] = d
            return v
        g, v = split_unbound(I, c[kk])
        if g.op != "true":
            raise Unsupported("setdefault of optional key")
        return I.clean(v)
    if name == "copy" or name == "__copy__":
        return I.newdict(c)
    if name == "clear":
        I.st.cells[o.id] = {}
        return None
    if name == "__getitem__":
        return I.getitem(o, args[0])
    if name == "__setitem__":
        return I.setitem(o, args[0], args[1])
    if name == "__contains__":
        return I.contains(o, args[0])
    if name == "__len__":
        return len(c)
    if name == "popitem":
        if not c:
            I.raise_("KeyError", "popitem(): dictionary is empty")
        d = dict(c)
        kv = d.popitem()
        I.st.cells[o.id] = d
        return kv
    if name == "fromkeys":
        return I.newdict({I.key(k): (args[1] if len(args) > 1 else None) for k in I.iterate(args[0])})
    return Top("dict." + name)


def set_method(I, o, name, args, kw):
    C = _core()
    c = I.st.cells[o.id]
    if isinstance(c, Top):
        return Top("method of unknown set")
    isin = lambda x, cc: any(C.same(x, y) for y in cc)
    if name == "add":
        if not isin(args[0], c):
            I.st.cells[o.id] = c + (args[0],)
        return None
    if name in ("discard", "remove"):
        I.st.cells[o.id] = tuple(x for x in c if not C.same(x, args[0]))
        return None
    if name in ("union", "update"):
        items = list(c)
        for a in args:
            for x in I.iterate(a):
                if not isin(x, items):
                    items.append(x)
        if name == "update":
            I.st.cells[o.id] = tuple(items)
            return None
        return I.newset(items)
    if name == "difference":
        oth = [x for a in args for x in I.iterate(a)]
        return I.newset([x for x in c if not isin(x, oth)])
    if name == "intersection":
        oth = [x for a in args for x in I.iterate(a)]
        return I.newset([x for x in c if isin(x, oth)])
    if name == "copy":
        return I.newset(c)
    if name == "clear":
        I.st.cells[o.id] = ()
        return None
    if name == "issubset":
        oth = I.iterate(args[0])
        return all(isin(x, oth) for x in c)
    if name == "issuperset":
        return all(isin(x, c) for x in I.iterate(args[0]))
    if name == "pop" and len(c) == 1:
        I.st.cells[o.id] = ()
        return c[0]
    return Top("set." + name)


CONSTM = {"capitalize", "casefold", "center", "count", "endswith", "expandtabs", "find", "index", "isalnum", "isalpha", "isdecimal",
          "isdigit", "isidentifier", "islower", "isnumeric", "isspace", "istitle", "isupper", "ljust", "lower", "lstrip", "partition",
          "replace", "rfind", "rindex", "rjust", "rpartition", "rsplit", "rstrip", "split", "splitlines", "startswith", "strip",
          "swapcase", "title", "upper", "zfill", "removeprefix", "removesuffix", "__len__", "__contains__", "__getitem__"}


def lower_value(I, v):
    if isinstance(v, list):
        return I.newlist([lower_value(I, x) for x in v])
    if isinstance(v, tuple):
        return tuple(lower_value(I, x) for x in v)
    return v


def str_method(I, o, name, args, kw):
    if name in CONSTM:
        if all(isinstance(a, (str, int)) or a is None or isinstance(a, tuple) and all(isinstance(x, str) for x in a) for a in args) and \
                all(isinstance(a, (str, int)) for a in kw.values()):
            try:
                return lower_value(I, getattr(o, name)(*args, **kw))
            except (ValueError, TypeError, IndexError) as e:
                I.raise_(type(e).__name__, str(e))
        return Top("str." + name)
    if name == "join":
        items = [I.clean(x) for x in I.iterate(args[0])]
        parts = []
        for i, x in enumerate(items):
            if i:
                parts.append(o)
            if isinstance(x, (str, StrT)):
                parts.append(x)
            elif isinstance(x, (Top, Phi)):
                return Top("join")
            else:
                I.raise_("TypeError", "sequence item %d: expected str instance" % i)
        return I.strcat(parts) if parts else ""
    if name == "format":
        parts = []
        auto = 0
        try:
            fields = list(string.Formatter().parse(o))
        except ValueError as e:
            I.raise_("ValueError", str(e))
        for lit, field, spec, conv in fields:
            if lit:
                parts.append(lit)
            if field is None:
                continue
            if field == "":
                v = args[auto] if auto < len(args) else UNBOUND
                auto += 1
            elif field.isdigit():
                v = args[int(field)] if int(field) < len(args) else UNBOUND
            elif field in kw:
                v = kw[field]
            elif field.isidentifier():
                I.raise_("KeyError", field)
            else:
                return Top("format field")
            if v is UNBOUND:
                I.raise_("IndexError", "Replacement index out of range for positional args tuple")
            if "{" in (spec or ""):
                return Top("nested format")
            x = I.fmt_value(v, spec or "", ord(conv) if conv else -1)
            if isinstance(x, Top):
                return x
            parts.append(x)
        return I.strcat(parts) if parts else ""
    if name == "encode":
        return Top("bytes")
    return Top("str." + name)


def strt_method(I, o, name, args, kw):
    """symbolic strings: operations that only touch the literal parts"""
    if name in ("strip", "lstrip", "rstrip") and not args:
        return o
    if name == "replace" and len(args) == 2 and all(isinstance(a, str) for a in args):
        a, b = args
        if a == b:
            return o
        if any(ch.isdigit() or ch in "+-.e " for ch in a):
            return Top("replace in symbolic string")
        return StrT(_replace(o.t, a, b))
    return Top("method %s of symbolic string" % name)


def _replace(t, a, b):
    if t.op == "str":
        return T._mk("str", t.args[0].replace(a, b))
    if t.op == "strcat":
        return T._mk("strcat", *[_replace(x, a, b) for x in t.args])
    if t.op == "fmt":
        return T._mk("fmt", t.args[0].replace(a, b), *t.args[1:])
    return t
