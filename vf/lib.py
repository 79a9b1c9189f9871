"""Library model: how builtins, numpy, pandas, cvxpy, scipy, matplotlib calls appear in the
value graph.  Calls without a specific rule become an operator named after the callee with
keyword-normalised arguments, so the model never has to be complete to be exact."""
from fractions import Fraction as Fr

from .terms import *  # noqa
from . import terms as tm
from .engine import (Ref, Tup, Func, Bound, Cls, Mod, Lib, LibM, VIte, SliceV, SuperV, Wrap, Intr, UNDEF, Dead,
                     HCell, HList, HObj, HLib, HFrame, is_host, mk_list, mk_seg, len_of, exists_dom, AnchorMissing)
from . import engine as en

NUMK = ("num", "bool")
ARRK = ("arr", "ser", "df", "idx")

ALIASES = {
    "numpy.asarray": "numpy.asarray",
    "numpy.multiply": "np.mul",
    "cvxpy.error.DCPError": "cvxpy.DCPError",
    "cvxpy.error.SolverError": "cvxpy.SolverError",
    "collections.OrderedDict": "builtins.dict",
    "typing.OrderedDict": "builtins.dict",
    "numpy.core": "numpy",
    "cvxpy.constraints.nonpos.Inequality": "cvxpy.Inequality",
    "cvxpy.constraints.Inequality": "cvxpy.Inequality",
    "cvxpy.constraints.zero.Equality": "cvxpy.Equality",
    "cvxpy.constraints.Equality": "cvxpy.Equality",
    "cvxpy.expressions.constants.constant.Constant": "cvxpy.Constant",
    "cvxpy.expressions.constants.Constant": "cvxpy.Constant",
    "collections.abc.Iterable": "Iterable",
    "typing.Iterable": "Iterable",
    "collections.abc.Mapping": "Mapping",
    "pandas.core.frame.DataFrame": "pandas.DataFrame",
    "pandas.core.series.Series": "pandas.Series",
    "scipy.optimize._minimize.minimize": "scipy.optimize.minimize",
}


def canon(l):
    p = l.path
    if p in ALIASES:
        return Lib(ALIASES[p])
    return l


# ------------------------------------------------------------------ types
KIND_OF = {
    "numpy.ndarray": {"arr"},
    "pandas.Series": {"ser"},
    "pandas.DataFrame": {"df"},
    "pandas.Index": {"idx"},
    "builtins.dict": {"dict"},
    "builtins.list": {"list"},
    "builtins.tuple": {"tuple"},
    "builtins.set": {"set"},
    "builtins.frozenset": {"set"},
    "builtins.str": {"str"},
    "builtins.bytes": set(),
    "builtins.bool": {"bool"},
    "Mapping": {"dict"},
    "Iterable": {"list", "dict", "tuple", "arr", "ser", "df", "str", "set", "idx", "gen"},
    "cvxpy.Inequality": {"con"},
    "cvxpy.Equality": {"con"},
    "cvxpy.Parameter": {"cvx"},
    "cvxpy.Variable": {"cvx"},
    "cvxpy.Constant": set(),
    "cvxpy.Expression": {"cvx"},
    "collections.abc.Callable": {"fn"},
    "numbers.Number": {"num", "bool"},
    "builtins.object": None,
}


def isinstance_one(I, v, ty):
    """Boolean diagram for isinstance(v, ty)."""
    if isinstance(v, VIte):
        return ite(v.c, isinstance_one(I, v.a, ty), isinstance_one(I, v.b, ty))
    if isinstance(ty, VIte):
        return ite(ty.c, isinstance_one(I, v, ty.a), isinstance_one(I, v, ty.b))
    if isinstance(ty, Tup):
        return b_or(*[isinstance_one(I, v, t) for t in ty.items])
    if isinstance(v, Ref) and isinstance(I.get(v), HObj):
        o = I.get(v)
        m = o.cls.mro()
        if isinstance(ty, Cls):
            return const(ty in m)
        return const(ty in m)
    if isinstance(ty, Cls):
        t = I.term(v)
        if t.ty[0] in ("?",):
            return batom(app("isinst", t, attr=ty.name, ty=("bool", 0)))
        return FALSE
    if not isinstance(ty, Lib):
        return batom(app("isinst", I.term(v), I.term(ty), ty=("bool", 0)))
    p = canon(ty).path
    if isinstance(v, Ref) and isinstance(I.get(v), en.HConst):
        return const(p in ("cvxpy.Constant", "cvxpy.Expression", "builtins.object"))
    k = I.kind(v)
    if k in ("?", "cvx", "con"):
        t = I.term(v)
        if t.op == "ite":
            return ite(batom(t.args[0]), isinstance_one(I, I.unterm(t.args[1]), ty), isinstance_one(I, I.unterm(t.args[2]), ty))
    if p in ("builtins.float", "builtins.int", "numpy.number", "numpy.integer", "numpy.floating"):
        if isinstance(v, bool):
            return const(p == "builtins.int")
        if isinstance(v, int):
            return const(p == "builtins.int")
        if isinstance(v, float):
            return const(p == "builtins.float")
        if k in NUMK:
            t = I.term(v)
            if t.op == "sym":
                sk = t.attr[1]
                if sk == "float":
                    return const(p in ("builtins.float",))
                if sk == "int":
                    return const(p in ("builtins.int",))
                if sk == "bool":
                    return const(p == "builtins.int")
            if is_num(t):
                return const((p == "builtins.int") == (num_val(t).denominator == 1))
            return batom(app("isinst", t, attr=p, ty=("bool", 0)))
        if k != "?":
            return FALSE
        return batom(app("isinst", I.term(v), attr=p, ty=("bool", 0)))
    if p == "builtins.object":
        return TRUE
    if p in ("cvxpy.Inequality", "cvxpy.Equality"):
        t = I.term(v)
        if t.op == "cvle":
            return const(p == "cvxpy.Inequality")
        if t.op == "cveq":
            return const(p == "cvxpy.Equality")
        if t.op == "ite":
            return ite(batom(t.args[0]), isinstance_one(I, t.args[1], ty), isinstance_one(I, t.args[2], ty))
        if k in ("con", "?"):
            return batom(app("isinst", t, attr=p, ty=("bool", 0)))
        return FALSE
    if p in ("cvxpy.Parameter", "cvxpy.Variable"):
        t = I.term(v)
        return const(t.op == ("par" if p == "cvxpy.Parameter" else "var"))
    if p == "cvxpy.Constant":
        t = I.term(v)
        return const(not (t.ops & {"var", "par"}) and t.ty[0] != "con" and k != "cvx")
    ks = KIND_OF.get(p)
    if p.startswith("typing."):
        ks = KIND_OF.get("collections.abc." + p.split(".")[1])
    if ks is None:
        if p in en.LIB_EXC or p.split(".")[-1] in en.BUILTIN_EXC:
            t = I.term(v)
            if t.op == "excv":
                n = t.attr
                chain = en.LIB_EXC.get(n) or en.BUILTIN_EXC.get(n, [n])
                return const(canon(ty).path in chain or p.split(".")[-1] in chain)
        return batom(app("isinst", I.term(v), attr=p, ty=("bool", 0)))
    if k == "?":
        return batom(app("isinst", I.term(v), attr=p, ty=("bool", 0)))
    return const(k in ks)


def is_none(I, v):
    if v is None:
        return TRUE
    if isinstance(v, VIte):
        return ite(v.c, is_none(I, v.a), is_none(I, v.b))
    if isinstance(v, Ref):
        h = I.get(v)
        if isinstance(h, HCell):
            return is_none(I, h.t)
        return FALSE
    if isinstance(v, T):
        if v is NONE:
            return TRUE
        if v.op == "ite":
            return ite(batom(v.args[0]), is_none(I, v.args[1]), is_none(I, v.args[2]))
        if v.ty[0] == "?" and v.op not in ("mm", "poly"):
            return batom(app("isnone", v, ty=("bool", 0)))
    return FALSE


# ------------------------------------------------------------------ truth / comparison
def truth(I, v):
    if isinstance(v, bool):
        return const(v)
    if v is None:
        return FALSE
    if isinstance(v, (int, float, str)):
        return const(bool(v))
    if isinstance(v, Tup):
        return const(len(v.items) > 0)
    if isinstance(v, VIte):
        return ite(v.c, truth(I, v.a), truth(I, v.b))
    if isinstance(v, Ref):
        h = I.get(v)
        if isinstance(h, HList):
            return truth(I, length(I, v))
        if isinstance(h, HCell):
            return truth(I, h.t)
        if isinstance(h, HObj):
            for nm in ("__bool__", "__len__"):
                if I.class_lookup(h.cls, nm) is not UNDEF:
                    return truth(I, I.call(I.getattr(v, nm), [], {}))
        return TRUE
    if isinstance(v, T):
        if v is TRUE or v is FALSE:
            return v
        if v.op == "ite":
            return ite(batom(v.args[0]), truth(I, v.args[1]), truth(I, v.args[2]))
        k = v.ty[0]
        if v.op == "c":
            return const(bool(v.attr[1]))
        if k == "bool":
            return batom(v)
        if k == "num":
            return cmp0(v, "!=")
        if k in ("list", "dict", "set", "tuple"):
            return truth(I, len_term(v))
        if k in ("fn", "gfx"):
            return TRUE
        if v.op in ("e<0", "e>0", "e==0", "e<=0", "e>=0", "e!=0"):
            return cmp0(v.args[0], v.op[1:-1])
        if k == "str":
            return batom(app("truthy", v, ty=("bool", 0)))
        return batom(app("truthy", v, ty=("bool", 0)))
    return TRUE


def numt(I, v):
    if isinstance(v, bool):
        return num(int(v))
    if isinstance(v, Ref):
        h = I.get(v)
        if isinstance(h, HList) and h.kind in ("list", "gen"):
            return array_of(I, v)
    if isinstance(v, Tup):
        return array_of(I, v)
    t = I.term(v)
    if t is TRUE or t is FALSE:
        return num(1 if t is TRUE else 0)
    return strip_float(t)


def strip_float(t):
    if t.op == "float":
        return t.args[0]
    if t.op == "ite" and "float" in t.ops:
        return lift(lambda x: x.args[0] if x.op == "float" else x, t)
    return t


ELT = {"<": "e<0", "<=": "e<=0", "==": "e==0", "!=": "e!=0", ">": "e>0", ">=": "e>=0"}


def scalarish(t):
    k, n = t.ty
    return k in NUMK or (n == 0 and k in ("num", "?", "arr")) or t.op == "fresh" and k == "num"


def elementwise_cmp(p, rel):
    def leaf(x):
        x = tm._numify(x)
        if is_num(x):
            return tm._cmp0(x, rel)
        q, s = tm._prim_sign(x)
        r = rel
        if s < 0:
            r = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[r]
        k, n = q.ty
        return app(ELT[r], q, ty=(k if k in ("ser", "df", "arr") else "arr", n))

    return lift(leaf, p)


def compare(I, op, a, b):
    if isinstance(a, VIte) and op not in ("Is", "IsNot"):
        return I.branch(a.c, lambda: compare(I, op, a.a, b), lambda: compare(I, op, a.b, b))
    if isinstance(b, VIte) and op not in ("Is", "IsNot"):
        return I.branch(b.c, lambda: compare(I, op, a, b.a), lambda: compare(I, op, a, b.b))
    if op in ("Is", "IsNot"):
        c = identical(I, a, b)
        return I.bool_val(c if op == "Is" else b_not(c))
    if op in ("In", "NotIn"):
        c = contains(I, a, b)
        return I.bool_val(c if op == "In" else b_not(c))
    rel = {"Lt": "<", "LtE": "<=", "Eq": "==", "NotEq": "!=", "Gt": ">", "GtE": ">="}[op]
    ka, kb = I.kind(a), I.kind(b)
    if is_host(a) and is_host(b) and not (isinstance(a, float) or isinstance(b, float)):
        try:
            import operator as o

            return {"<": o.lt, "<=": o.le, "==": o.eq, "!=": o.ne, ">": o.gt, ">=": o.ge}[rel](a, b)
        except TypeError:
            I.raise_exc(Lib("builtins.TypeError"), NONE)
    if "cvx" in (ka, kb):
        ta, tb = numt(I, a), numt(I, b)
        if rel == "==":
            return app("cveq", ta, tb, ty=("con", None))
        if rel in ("<=", "<"):
            return app("cvle", ta, tb, ty=("con", None))
        if rel in (">=", ">"):
            return app("cvle", tb, ta, ty=("con", None))
    if rel in ("==", "!="):
        c = equal(I, a, b)
        if c is not None:
            return I.bool_val(c if rel == "==" else b_not(c))
    seqs = ("tuple", "list", "str")
    if ka in seqs and kb in seqs:
        ta, tb = I.term(a), I.term(b)
        if rel in (">", ">="):
            ta, tb, rel = tb, ta, {">": "<", ">=": "<="}[rel]
        return batom(app("seqlt" if rel == "<" else "seqle", ta, tb, ty=("bool", 0)))
    ta, tb = numt(I, a), numt(I, b)
    for t, o in ((ta, b), (tb, a)):
        if t is NONE:
            I.raise_exc(Lib("builtins.TypeError"), NONE)
    d = sub(ta, tb)
    sa, sb = scalar_cmp_ok(ta), scalar_cmp_ok(tb)
    if sa and sb:
        return I.bool_val(cmp0(d, rel))
    return elementwise_cmp(d, rel)


def scalar_cmp_ok(t):
    if t.op == "ite":
        return all(scalar_cmp_ok(l) for l in leaves(t))
    return t.ty[0] in ("num", "bool", "?") and t.ty[1] in (0, None) or (t.ty[0] in ("arr",) and t.ty[1] == 0)


def identical(I, a, b):
    if b is None:
        return is_none(I, a)
    if a is None:
        return is_none(I, b)
    if isinstance(a, VIte):
        return ite(a.c, identical(I, a.a, b), identical(I, a.b, b))
    if isinstance(b, VIte):
        return ite(b.c, identical(I, a, b.a), identical(I, a, b.b))
    if isinstance(a, bool) or isinstance(b, bool) or a is TRUE or a is FALSE or b is TRUE or b is FALSE:
        if I.kind(a) == "bool" and I.kind(b) == "bool":
            x, y = truth(I, a), truth(I, b)
            return ite(x, y, b_not(y))
        if "?" not in (I.kind(a), I.kind(b)):
            return FALSE
        return batom(app("is", I.term(a), I.term(b), ty=("bool", 0)))
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return TRUE
        ha, hb = I.get(a), I.get(b)
        if isinstance(ha, HCell) and isinstance(hb, HCell) and ha.t is hb.t and ha.t.op in ("lib",):
            return TRUE
        return FALSE
    if isinstance(a, (Cls, Lib, Func)) and isinstance(b, (Cls, Lib, Func)):
        return const(a is b or a == b)
    if is_host(a) and is_host(b):
        return const(type(a) is type(b) and a == b)
    ta, tb = I.term(a), I.term(b)
    if ta is tb:
        return TRUE
    return batom(app("is", ta, tb, ty=("bool", 0)))


def equal(I, a, b):
    """Diagram for a == b when that is a scalar boolean, else None (elementwise)."""
    if isinstance(a, VIte):
        x, y = equal(I, a.a, b), equal(I, a.b, b)
        return None if x is None or y is None else ite(a.c, x, y)
    if isinstance(b, VIte):
        return equal(I, b, a)
    ka, kb = I.kind(a), I.kind(b)
    if is_host(a) and is_host(b):
        return const(a == b)
    if isinstance(a, Ref) and isinstance(b, Ref) and a == b and ka in ("list", "dict", "obj", "set"):
        return TRUE
    if ka == "tuple" and kb == "tuple":
        ta, tb = I.term(a), I.term(b)
        la = a.items if isinstance(a, Tup) else ta.args if ta.op == "tuple" else None
        lb = b.items if isinstance(b, Tup) else tb.args if tb.op == "tuple" else None
        if la is None or lb is None:
            if ta is tb:
                return TRUE
            if lb is None:
                la, lb, ta, tb = lb, la, tb, ta
            # ta unknown, lb known length
            if la is None and lb is not None:
                return b_and(*[_eq0(I, getitem_t(ta, num(k)), I.term(y)) for k, y in enumerate(lb)])
            return batom(app("eq?", ta, tb, ty=("bool", 0)))
        if len(la) != len(lb):
            return FALSE
        out = TRUE
        for x, y in zip(la, lb):
            e = equal(I, x, y)
            if e is None:
                return None
            out = b_and(out, e)
        return out
    if ka in ("list", "gen", "set") and kb in ("list", "gen", "set"):
        ta, tb = I.term(a), I.term(b)
        if ta is tb:
            return TRUE
        if ka == kb == "set" and ta.op == tb.op == "set" and all(is_const(x) for x in ta.args + tb.args):
            return const(set(ta.args) == set(tb.args))
        for x, y in ((ta, tb), (tb, ta)):
            if x.op in ("list", "set") and not x.args:
                return b_not(truth(I, y))
        if ta.op == "list" and tb.op == "list" and not (ta.ops | tb.ops) & {"seg", "spread", "guarded"}:
            if len(ta.args) != len(tb.args):
                return FALSE
        return batom(app("eq?", *sorted((ta, tb), key=lambda t: t.dig), ty=("bool", 0)))
    if ka == "str" or kb == "str":
        if ka in ("num", "bool", "none", "list", "dict", "tuple", "fn", "obj") or kb in ("num", "bool", "none", "list", "dict", "tuple", "fn", "obj"):
            return FALSE
        if ka in ("arr", "ser", "df", "idx") or kb in ("arr", "ser", "df", "idx"):
            return None
        return _eq0(I, I.term(a), I.term(b))
    if ka == "none" or kb == "none":
        o = b if ka == "none" else a
        return is_none(I, o)
    if ka in ("bool",) and kb in ("bool",):
        x, y = truth(I, a), truth(I, b)
        return ite(x, y, b_not(y))
    if ka in ("arr", "ser", "df", "idx") or kb in ("arr", "ser", "df", "idx"):
        return None
    if ka in ("fn",) or kb in ("fn",):
        return const(I.term(a) is I.term(b))
    ta, tb = I.term(a), I.term(b)
    if ta is tb:
        return TRUE
    if ka in NUMK and kb in NUMK:
        return cmp0(sub(numt(I, a), numt(I, b)), "==")
    if "?" in (ka, kb):
        if ka in NUMK or kb in NUMK:
            return cmp0(sub(ta, tb), "==")
        return _eq0(I, ta, tb)
    return _eq0(I, ta, tb)


def _eq0(I, a, b):
    if a is b:
        return TRUE

    def leaf(x, y):
        if x is y:
            return TRUE
        if is_const(x) and is_const(y):
            return FALSE
        if x.ty[0] in NUMK and y.ty[0] in NUMK:
            return cmp0(sub(x, y), "==")
        x, y = sorted((x, y), key=lambda t: t.dig)
        return batom(tm._node("eq?", (x, y), None, ("bool", 0)))

    return lift(leaf, a, b)


def contains(I, x, c):
    if isinstance(c, VIte):
        return ite(c.c, contains(I, x, c.a), contains(I, x, c.b))
    if isinstance(c, Tup):
        return b_or(*[_eq_or(I, x, y) for y in c.items])
    if isinstance(c, str):
        if isinstance(x, str):
            return const(x in c)
        return batom(app("in", I.term(x), const(c), ty=("bool", 0)))
    if isinstance(c, Ref):
        h = I.get(c)
        if isinstance(h, HList):
            out = FALSE
            rest = False
            for p in h.parts:
                if p[0] == "i":
                    y = p[2].items[0] if h.kind == "dict" else p[2]
                    out = b_or(out, b_and(p[1], _eq_or(I, x, y)))
                else:
                    rest = True
            if rest:
                if h.kind == "dict" and len(h.parts) == 1:
                    return batom(app("in", I.term(x), I.term(c), ty=("bool", 0)))
                return b_or(out, batom(app("in", I.term(x), I.term(c), ty=("bool", 0))))
            return out
    t = I.term(c)
    xt = I.term(x)
    if t.op in ("list", "set") and not (t.ops & {"seg", "spread", "guarded"}):
        return b_or(*[_eq0(I, xt, y) for y in t.args])
    if t.op == "method":
        pass
    return lift(lambda u, v: batom(app("in", u, v, ty=("bool", 0))), xt, t)


def _eq_or(I, x, y):
    e = equal(I, x, y)
    return e if e is not None else batom(app("eq?", I.term(x), I.term(y), ty=("bool", 0)))


def invert(I, v):
    t = I.term(v)
    flip = {"e<0": "e>=0", "e<=0": "e>0", "e==0": "e!=0", "e!=0": "e==0", "e>0": "e<=0", "e>=0": "e<0"}
    if t.op in flip:
        return app(flip[t.op], *t.args, ty=t.ty)
    if isinstance(v, int):
        return ~v
    if t.ty[0] == "bool":
        return I.bool_val(b_not(truth(I, v)))
    return app("invert", t, ty=t.ty)


# ------------------------------------------------------------------ arithmetic
def exact_host(t, a, b):
    if is_num(t) and isinstance(a, int) and isinstance(b, int) and num_val(t).denominator == 1:
        return int(num_val(t))
    return t


def binop(I, op, a, b):
    if isinstance(a, VIte):
        return I.branch(a.c, lambda: binop(I, op, a.a, b), lambda: binop(I, op, a.b, b))
    if isinstance(b, VIte):
        return I.branch(b.c, lambda: binop(I, op, a, b.a), lambda: binop(I, op, a, b.b))
    ka, kb = I.kind(a), I.kind(b)
    for v in (a, b):
        if isinstance(v, Ref) and isinstance(I.get(v), HObj):
            m = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "MatMult": "__matmul__"}.get(op)
            if v is a and m and I.class_lookup(I.get(v).cls, m) is not UNDEF:
                return I.call(I.getattr(v, m), [b], {})
            return I.unknown("operator on object")
    if op == "Add":
        if ka == "tuple" and kb == "tuple" and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if ka in ("list",) and kb in ("list",):
            return I.alloc(HList(parts_of(I, a) + parts_of(I, b)))
        if ka == "str" or kb == "str":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return app("fmt", I.term(a), I.term(b), ty=("str", 0))
    if op == "Mult":
        for x, y in ((a, b), (b, a)):
            kx = I.kind(x)
            if kx == "str" and isinstance(x, str) and isinstance(y, int):
                return x * y
            if isinstance(x, Tup) and I.is_const_value(y):
                return Tup(x.items * int(I.host(y)))
            if kx == "list" and I.kind(y) in ("num", "?"):
                return list_repeat(I, x, y)
    if op == "Mod" and ka == "str":
        return app("fmt", I.term(a), I.term(b), ty=("str", 0))
    if op == "BitOr" and ka == "dict":
        r = I.alloc(HList(I.get(a).parts, "dict"))
        call_method(I, r, "update", [b], {})
        return r
    if op == "Sub" and ka == "set":
        return app("setdiff", I.term(a), I.term(b), ty=("set", None))
    if op in ("BitAnd", "BitOr", "BitXor"):
        if ka == "bool" and kb == "bool":
            x, y = truth(I, a), truth(I, b)
            return I.bool_val(b_and(x, y) if op == "BitAnd" else b_or(x, y) if op == "BitOr" else ite(x, b_not(y), y))
        ta, tb = I.term(a), I.term(b)
        x, y = sorted((ta, tb), key=lambda t: t.dig)
        return app(op, x, y, ty=ta.ty if ta.ty[0] != "?" else tb.ty)
    if a is None or b is None:
        I.raise_exc(Lib("builtins.TypeError"), NONE)
    ta, tb = numt(I, a), numt(I, b)
    if op == "Add":
        return exact_host(add(ta, tb), a, b)
    if op == "Sub":
        return exact_host(sub(ta, tb), a, b)
    if op == "Mult":
        if "cvx" in (ta.ty[0], tb.ty[0]) and ta.ty[1] in (1, 2) and tb.ty[1] in (1, 2):
            return mm(ta, tb)
        return exact_host(mul(ta, tb), a, b)
    if op == "Div":
        if isinstance(b, int) and b == 0:
            I.raise_exc(Lib("builtins.ZeroDivisionError"), NONE)
        return div(ta, tb)
    if op == "Pow":
        return exact_host(power(ta, tb), a, b)
    if op == "MatMult":
        return mm(ta, tb)
    if op == "FloorDiv":
        if isinstance(a, int) and isinstance(b, int) and b:
            return a // b
        return app("floordiv", ta, tb, ty=("num", 0) if scalarish(ta) else ta.ty)
    if op == "Mod":
        if isinstance(a, int) and isinstance(b, int) and b:
            return a % b
        return app("mod", ta, tb, ty=("num", 0))
    return app(op, ta, tb)


def list_repeat(I, x, y):
    try:
        k = int(I.host(y))
        return I.alloc(HList(parts_of(I, x) * k))
    except ValueError:
        pass
    ps = parts_of(I, x)
    n = numt(I, y)
    if len(ps) == 1 and ps[0][0] == "i":
        i = fresh("num", 0, "i")
        return I.alloc(HList([("s", TRUE, mk_seg(n, i, [I.term(ps[0][2])]))]))
    return app("repeat", I.term(x), n, ty=("list", None))


# ---- matrix products
def _split_scalar(t):
    """[(scalar poly, factor)] summands of t for a matrix product."""
    mons = as_mons(t)
    out = []
    for m, c in mons.items():
        sc = num(c)
        fac = []
        for a, e in m:
            if a.ty[0] in NUMK and a.ty[1] == 0 or a.ty == ("cvx", 0):
                sc = mul(sc, powr(a, e))
            else:
                fac.append((a, e))
        if not fac:
            c0, m0, p = content(t)
            return [(num(c0), div(t, num(c0)) if c0 else t)]
        out.append((sc, from_mons({tuple(fac): Fr(1)})))
    return out


def mm(a, b):
    return lift(_mm_leaf, a, b)


def _mm_leaf(a, b):
    if a.ty[0] == "ser" and b.ty[0] in ("arr", "cvx"):
        a = app("values", a)
    elif b.ty[0] == "ser" and a.ty[0] in ("arr", "cvx"):
        b = app("values", b)
    elif a.ty[0] == "df" and b.ty[0] == "cvx":
        a = app("values", a)
    elif b.ty[0] == "df" and a.ty[0] == "cvx":
        b = app("values", b)
    if scalarish(a) or scalarish(b):
        if a.ty[1] == 0 or b.ty[1] == 0:
            return mul(a, b)
    out = ZERO
    A, B = _split_scalar(a), _split_scalar(b)
    if not A or not B:
        return ZERO
    for sa, fa in A:
        for sb, fb in B:
            out = add(out, mul(mul(sa, sb), _chain(fa, fb)))
    return out


def _nd(t):
    return t.ty[1]


def _chain(fa, fb):
    xs = list(fa.args) if fa.op == "mm" and not (_nd(fa.args[-1]) == 1) else [fa]
    ys = list(fb.args) if fb.op == "mm" and not (_nd(fb.args[0]) == 1) else [fb]
    if fa.op == "eye" and len(xs) == 1 and _nd(fb) in (1, 2):
        return fb
    if fb.op == "eye" and len(ys) == 1 and _nd(fa) in (1, 2):
        return fa
    args = xs + ys
    return mk("mm", tuple(args))


def _one_sided(t, which):
    if t.ty[1] != 2:
        return False
    if t.op == "poly":
        mons = as_mons(t)
        return all(all(a.ty[1] == 0 or tm.side(a) == which for a, e in m) and any(a.ty[1] for a, e in m) for m in mons)
    return tm.side(t) == which


@simpl("mm")
def _s_mm(args, attr, ty):
    if len(args) == 1:
        return args[0]
    if any(a.op in ("poly", "mm", "ite") for a in args):
        # may arise from substitution
        if any(a.op == "mm" and not _mid_vec(a) or (a.op == "poly") for a in args):
            r = args[0]
            if any(_needs(a) for a in args):
                for a in args[1:]:
                    r = _mm2(r, a)
                return r if r.op != "mm" or r.args != args else None
    f, l = args[0], args[-1]
    if len(args) == 2 and _one_sided(f, "col") and _one_sided(l, "row"):
        return mul(f, l)
    if _nd(f) == 1 and _nd(l) == 1:
        if len(args) >= 2:
            rev = (l,) + tuple(transpose(x) for x in reversed(args[1:-1])) + (f,)
            if all(_nd(x) == 2 for x in args[1:-1]):
                k1 = tuple(x.dig for x in args)
                k2 = tuple(x.dig for x in rev)
                if k2 < k1:
                    return tm._node("mm", rev, None, _mm_ty(rev, None))
    elif _nd(f) == 1 and all(_nd(x) == 2 for x in args[1:]):
        rev = tuple(transpose(x) for x in reversed(args[1:])) + (f,)
        return tm._node("mm", rev, None, _mm_ty(rev, None))
    return None


def _needs(a):
    if a.op == "poly":
        s = _split_scalar(a)
        return not (len(s) == 1 and is_num(s[0][0]) and num_val(s[0][0]) == 1)
    return a.op == "mm" and not _mid_vec(a)


def _mid_vec(a):
    return _nd(a.args[0]) == 1 or _nd(a.args[-1]) == 1


def _mm2(a, b):
    return _mm_leaf(a, b)


@typ("mm")
def _mm_ty(args, attr):
    f, l = args[0], args[-1]
    kinds = [a.ty[0] for a in args]
    nf, nl = _nd(f), _nd(l)
    if nf is None or nl is None:
        nd = None
    else:
        nd = 2 - (nf == 1) - (nl == 1)
    if "cvx" in kinds:
        return ("cvx", nd)
    if nd == 0:
        return ("num", 0)
    if "df" in kinds or "ser" in kinds:
        return ("ser" if nd == 1 else "df" if nd == 2 else "?", nd)
    return ("arr", nd)


def transpose(t):
    return lift(_transpose, t)


def _transpose(t):
    if t.ty[1] in (0, 1):
        return t
    if t.op == "poly":
        out = ZERO
        for c, m in t.attr:
            p = num(c)
            for a, e in m:
                p = mul(p, powr(_transpose(a), e))
            out = add(out, p)
        return out
    if t.op == "T":
        return t.args[0]
    if t.op in ("eye", "diagm"):
        return t
    if t.op in ("ones", "zeros") and t.args[0].op == "tuple" and len(t.args[0].args) == 2:
        return app(t.op, app("tuple", *reversed(t.args[0].args), ty=("tuple", None)))
    if t.op == "grp":
        return t
    if t.op == "mm":
        if not any(_nd(a) == 1 for a in t.args):
            return mk("mm", tuple(_transpose(a) for a in reversed(t.args)))
    if t.op == "writes" or t.op == "pow":
        pass
    return tm._node("T", (t,), None, t.ty)


@simpl("T")
def _s_T(args, attr, ty):
    return _transpose(args[0])


# ------------------------------------------------------------------ sequences
def parts_of(I, v):
    """Parts of any iterable, as heap-list parts."""
    out = []
    for ch in chunks(I, v):
        if ch[0] == "item":
            out.append(("i", ch[1], ch[2]))
        elif ch[0] == "dom":
            i = fresh("num", 0, "i")
            g, x = ch[2](i)
            t = I.term(x)
            out.append(("s", TRUE, mk_seg(ch[1], i, [t if g is TRUE else app("guarded", g, t)])))
    return out


def _nest_items(I, items):
    """Chunks of the elements produced by one step of a nested segment, None when a shape is not understood."""
    out = []
    for x in items:
        g = TRUE
        if x.op == "guarded":
            g, x = x.args
        if x.op == "seg":
            sub_ = ("nest", x.args[0], lambda i, x=x: _nest_items(I, inst(x.args[1], i).args))
            if inst(x.args[1], fresh("num", 0, "i")).op != "list":
                return None
            if _nest_items(I, x.args[1].args[0].args) is None:
                return None
            out.append(sub_ if g is TRUE else ("nest", ONE, lambda i, g=g, c=sub_: [("guard", g, c)]))
            if g is not TRUE:
                return None
        elif x.op == "spread":
            return None
        else:
            if x.op == "pair":
                x = app("tuple", *x.args, ty=("tuple", None))
            out.append(("item", g, I.unterm(x)))
    return out


def _seg_chunk(I, seg, key_only, nested=False):
    n, b = seg.args
    body = b.args[0]
    if nested and not key_only and body.op == "list" and (len(body.args) > 1 or body.args and body.args[0].op in ("seg", "guarded")) \
            and not (len(body.args) == 1 and body.args[0].op == "guarded" and body.args[0].args[1].op not in ("seg", "spread")):
        if _nest_items(I, body.args) is not None:
            return ("nest", n, lambda i: _nest_items(I, inst(b, i).args))
    if body.op == "list" and len(body.args) == 1 and body.args[0].op not in ("seg", "spread"):
        def elem(i):
            x = inst(b, i)
            x = x.args[0] if x.args else app("never")
            g = TRUE
            if x.op == "guarded":
                g, x = x.args
            if key_only and x.op == "pair":
                x = x.args[0]
            elif x.op == "pair":
                x = app("tuple", *x.args, ty=("tuple", None))
            return g, I.unterm(x)

        return ("dom", n, elem)
    L = app("list", seg, ty=("list", None))

    def elem2(i):
        x = getitem_t(L, i)
        if key_only:
            x = app("pairkey", x)
        return TRUE, x

    return ("dom", len_term(L), elem2)


def chunks(I, v, nested=False):
    """Iteration domain: ('item', guard, value) | ('dom', n, i -> (guard, value)) | ('nest', n, i -> [chunk])."""
    if isinstance(v, Tup):
        return [("item", TRUE, x) for x in v.items]
    if isinstance(v, str):
        return [("item", TRUE, x) for x in v]
    if isinstance(v, VIte) and I.kind(v) in ("arr", "ser", "idx"):
        return chunks(I, I.term(v), nested)
    if isinstance(v, VIte):
        ps = I.merge_parts(v.c, parts_of(I, v.a), parts_of(I, v.b))
        return chunks(I, I.alloc(HList(ps)), nested)
    if isinstance(v, Ref):
        h = I.get(v)
        if isinstance(h, HList):
            out = []
            for p in h.parts:
                if p[0] == "i":
                    out.append(("item", p[1], p[2].items[0] if h.kind == "dict" else p[2]))
                else:
                    t = p[2]
                    if t.op == "seg":
                        ch = _seg_chunk(I, t, h.kind == "dict", nested and p[1] is TRUE)
                    else:
                        ch = _term_chunk(I, t)
                    if p[1] is not TRUE:
                        g0 = p[1]
                        f = ch[2]
                        ch = ("dom", ch[1], lambda i, f=f, g0=g0: (b_and(g0, f(i)[0]), f(i)[1]))
                    out.append(ch)
            return out
        if isinstance(h, HObj):
            return [("dom", app("len", I.term(v)), lambda i: (TRUE, app("elem", I.term(v), i)))]
    t = I.term(v)
    if t.op in ("list", "set", "dict"):
        return chunks(I, I.alloc(I.from_list_term(t)), nested)
    if t.op == "tuple":
        return [("item", TRUE, I.unterm(x)) for x in t.args]
    if t.op == "ite" and t.ty[0] in ("arr", "ser", "idx"):
        n = lift(len_term, t) if t.ty[0] != "ser" else lift(len_term, attr_t(t, "values"))
        v = attr_t(t, "values") if t.ty[0] == "ser" else t
        return [("dom", n, lambda i: (TRUE, getitem_t(v, i)))]
    if t.op == "ite":
        ps = I.merge_parts(batom(t.args[0]), parts_of(I, t.args[1]), parts_of(I, t.args[2]))
        return chunks(I, I.alloc(HList(ps)), nested)
    if t.ty[0] in ("num", "bool", "none"):
        I.raise_exc(Lib("builtins.TypeError"), NONE)
    return [_term_chunk(I, t)]


def _term_chunk(I, t):
    k = t.ty[0]
    if k == "dict":
        return ("dom", len_term(t), lambda i: (TRUE, app("dkey", t, i)))
    if k == "df":
        cols = attr_t(t, "columns")
        return ("dom", len_term(cols), lambda i: (TRUE, getitem_t(cols, i)))
    if k == "ser":
        vals = attr_t(t, "values")
        return ("dom", len_term(t), lambda i: (TRUE, getitem_t(vals, i)))
    return ("dom", len_term(t), lambda i: (TRUE, getitem_t(t, i)))


def length(I, v):
    if isinstance(v, Tup):
        return len(v.items)
    if isinstance(v, str):
        return len(v)
    if isinstance(v, VIte):
        return I.merge_val(v.c, length(I, v.a), length(I, v.b))
    if isinstance(v, Ref):
        h = I.get(v)
        if isinstance(h, HList):
            if h.kind == "set" and len(h.parts) > 1:
                return app("len", I.term(v), ty=("num", 0))
            n = 0
            tot = ZERO
            for p in h.parts:
                if p[0] == "i":
                    if p[1] is TRUE:
                        n += 1
                    else:
                        tot = add(tot, ite(p[1], ONE, ZERO))
                else:
                    t = p[2]
                    x = len_term(app("list", t, ty=("list", None)) if t.op == "seg" else t)
                    tot = add(tot, ite(p[1], x, ZERO))
            if tot is ZERO:
                return n
            return add(num(n), tot)
        if isinstance(h, HObj):
            m = I.class_lookup(h.cls, "__len__")
            if m is not UNDEF:
                return I.call(I.getattr(v, "__len__"), [], {})
    return len_term(I.term(v))


def len_term(t):
    return app("len", t)


@typ("len")
def _ty_len(args, attr):
    return ("num", 0)


def _count_only(p):
    bd = p.args[1]
    b = bd.args[0]
    if b.op != "list":
        return p
    items = []
    for x in b.args:
        if x.op == "guarded":
            items.append(x if x.args[1].op in ("seg", "spread") else tm._node("guarded", (x.args[0], ZERO), None, x.ty))
        else:
            items.append(x if x.op in ("seg", "spread") else ZERO)
    nb = tm._node("list", tuple(items), None, b.ty)
    if nb is b:
        return p
    i = fresh("num", 0, "i")
    return tm._node("seg", (p.args[0], bind(subst(nb, {bd.args[1]: i}), i)), None, p.ty)


@simpl("len")
def _s_len(args, attr, ty):
    t, = args
    if t.op == "c" and isinstance(t.attr[1], str):
        return num(len(t.attr[1]))
    if t.op == "tuple":
        return num(len(t.args))
    if t.op == "sorted":
        return len_term(t.args[0])
    if t.op == "removed" or t.op == "delitem" and t.ty[0] == "list" and t.args[1].ty[0] == "num":
        return sub(len_term(t.args[0]), ONE)          # or it was refused
    if t.op in ("list", "set", "dict"):
        tot = ZERO
        for p in t.args:
            g = TRUE
            if p.op == "guarded":
                g, p = p.args
            if p.op == "spread":
                x = len_term(p.args[0])
            elif p.op == "ite" and is_parts(p):
                x = ite(p.args[0], *[len_term(app("list", y, ty=("list", None))) for y in p.args[1:]])
            elif p.op == "seg":
                b = p.args[1].args[0]
                if b.op == "list" and not any(y.op in ("guarded", "seg", "spread") for y in b.args):
                    x = mul(p.args[0], num(len(b.args)))
                else:
                    # how many there are depends on the guards only
                    p = _count_only(p)
                    q = tm._node("list", (p,), None, ("list", None))
                    if t is q:
                        return None
                    x = tm._node("len", (q,), None, ("num", 0))
            else:
                x = ONE
            tot = add(tot, x if g is TRUE else ite(g, x, ZERO))
        if t.op == "set" and len(t.args) > 1:
            return None
        return tot
    r = dim(t, 0)
    return r


def _fold_len(t):
    """Length of a list a loop only writes elements of: the length it started with."""
    n, inits, b = t.args[0].args
    k = t.attr
    if not isinstance(k, int) or any(x.op == "tuple" for x in inits.args[:k + 1]):
        return None
    v = b.args[1 + k]

    def same(x):
        if x.op == "ite":
            return same(x.args[1]) and same(x.args[2])
        if x.op == "writes":
            return same(x.args[0])
        return x is v

    body = b.args[0]
    if body.op == "tuple" and same(body.args[1 + 2 * k]) and same(body.args[2 + 2 * k]):
        return len_term(inits.args[k])
    return None


def dim(t, k):
    """Length of axis k of an array-like term, simplified structurally, or None."""
    if t.op in ("values", "T", "copy", "nan_to_num", "asarray", "round", "abs", "sqrt", "exp", "log", "cumprod", "isnull", "mask",
                "ffill", "e<0", "e>0", "e==0", "e<=0", "e>=0", "e!=0", "astype", "columns", "index", "tolist", "rint", "trunc", "floor", "ceil", "sign",
                "spread", "sol") or t.op == "sort" and t.ty[1]:
        a = t.args[0]
        if t.op == "T":
            return dimt(a, 1 - k) if a.ty[1] == 2 else dimt(a, k)
        if t.op == "columns":
            return dimt(a, 1)
        if t.op == "index":
            return dimt(a, 0)
        return dimt(a, k)
    if t.op in ("dropna", "pct_change", "shift") and t.ty[0] in ("df", "ser"):
        ax = 0
        if t.attr and "axis" in t.attr:
            ax = None
            for x in t.args[1:]:
                if is_num(x) and num_val(x) in (0, 1):
                    ax = int(num_val(x))
        if t.op != "dropna" or (k == 1 and ax == 0) or (k == 0 and ax == 1):
            return dimt(t.args[0], k)
        return None
    if t.op == "poly":
        arrs = {a for c, m in t.attr for a, e in m if a.ty[1] == t.ty[1] and a.ty[0] not in NUMK}
        if arrs and t.ty[1] is not None:
            ds = {dimt(a, k) for a in arrs}
            if ds:
                one = {d for d in ds if is_num(d) and num_val(d) == 1}
                return min(ds - one or ds, key=lambda d: d.dig)      # operands conform
        return None
    if t.op == "flat" and k == 0 and t.args[0].ty[1] == 2:
        a, b = dimt(t.args[0], 0), dimt(t.args[0], 1)
        return mul(a, b) if is_num(a) or is_num(b) else None
    if t.op == "col":
        return dimt(t.args[0], 0) if k == 0 else num(1)
    if t.op == "diagm":
        return dimt(t.args[0], 0)
    if t.op == "diag" and k == 0:
        return dimt(t.args[0], 0)
    if t.op in ("zeros", "ones", "full"):
        s = t.args[0]
        if s.op == "tuple":
            return s.args[k] if k < len(s.args) else None
        return s if k == 0 else None
    if t.op == "eye":
        return t.args[0]
    if t.op in ("amap",):
        return t.args[0] if k == 0 else None
    if t.op == "foldout" and k == 0:
        return _fold_len(t)
    if t.op == "writes":
        return dimt(t.args[0], k)
    if t.op in ("setdiag", "setcol") and (k == 0):
        return dimt(t.args[0], k)
    if t.op == "setdiag":
        return dimt(t.args[0], k)
    if t.op == "reshape" and t.args[1].op == "tuple":
        d = t.args[1].args[k] if k < len(t.args[1].args) else None
        if d is not None and not (is_num(d) and num_val(d) < 0):
            return d
        other = [x for j, x in enumerate(t.args[1].args) if j != k]
        if len(other) == 1 and is_num(other[0]) and num_val(other[0]) == 1 and t.args[0].ty[1] == 1:
            return dimt(t.args[0], 0)
    if t.op == "ravel" and t.args[0].ty[1] == 1:
        return dimt(t.args[0], 0)
    if t.op == "where":
        for a in t.args:
            if a.ty[1] == t.ty[1] and a.ty[1]:
                return dimt(a, k)
    if t.op == "vstack" and t.args and all(x.ty[1] == 1 for x in t.args):
        return num(len(t.args)) if k == 0 else dimt(t.args[0], 0)
    if t.op == "mm" and len(t.args) >= 2:
        return dimt(t.args[0], 0) if k == 0 else dimt(t.args[-1], 1)
    if t.op == "DataFrame" and t.attr in ((), None, ("data",)):
        return dimt(t.args[0], k)
    if t.op == "cov" and t.ty[0] == "df":
        return dimt(t.args[0], 1)
    if t.op == "var" and t.args:
        return t.args[0] if k == 0 else None
    if t.op == "solve":
        return dimt(t.args[1], k)
    if t.op == "getitem" and t.args[0].op == "lstsq" and t.args[1] is ZERO:
        return dimt(t.args[0].args[1], k)       # square systems only: solve() is tried first
    if t.op == "inv":
        return dimt(t.args[0], k)
    return None


def dimt(t, k):
    if k == 0:
        return app("len", t)
    r = dim(t, k)
    if r is not None:
        return r
    if t.ty[1] == 1 and k == 1:
        return app("dim1", t, ty=("num", 0))
    return tm._node("dim%d" % k, (t,), None, ("num", 0))


@simpl("dim1")
def _s_dim1(args, attr, ty):
    return dim(args[0], 1)


def shape(I, v):
    t = numt(I, v)
    return shape_t(I, t)


def shape_t(I, t):
    if t.op == "ite":
        return VIte(batom(t.args[0]), shape_t(I, t.args[1]), shape_t(I, t.args[2]))
    nd = t.ty[1]
    if nd == 1:
        return Tup([len_term(t)])
    if nd == 2 or t.ty[0] == "df":
        return Tup([len_term(t), dimt(t, 1)])
    if nd == 0:
        return Tup([])
    return app("shape", t, ty=("tuple", None))


@simpl("seg")
def _s_seg(args, attr, ty):
    n, b = args
    if b.op == "bind":
        body = b.args[0]
        if body.op == "list" and len(body.args) == 1 and body.args[0].op == "getitem" and body.args[0].args[1] is b.args[1]:
            src = body.args[0].args[0]
            if _no_bound(src, b.args[1]) and len_term(src) is n:
                return app("spread", src)
        if body.op == "list" and len(body.args) == 1 and body.args[0].op == "guarded" and _no_bound(body.args[0].args[0], b.args[1]):
            c, x = body.args[0].args
            i = tm.fresh("num", 0)
            part = tm.mk("seg", (n, bind(app("list", subst(x, {b.args[1]: i}), ty=("list", None)), i)), None, ty)
            return app("guarded", c, part)
    return None


def _no_bound(t, v):
    return v.op != "sym" or not tm.contains(t, v)


@simpl("spread")
def _s_spread(args, attr, ty):
    if is_parts(args[0].args[1] if args[0].op == "guarded" else args[0]):
        return args[0]
    if args[0].op == "list" and len(args[0].args) == 1 and args[0].args[0].op == "spread":
        return args[0].args[0]
    return None


def labels_of(x):
    """Row or column labels: a list of an index's items labels like the index."""
    while True:
        if x.op == "list" and len(x.args) == 1 and x.args[0].op == "spread" and x.args[0].args[0].ty[0] == "idx":
            x = x.args[0].args[0]
        elif x.op in ("tolist", "values", "copy") and x.args[0].ty[0] == "idx":
            x = x.args[0]
        else:
            return x


def _norm_labels(op):
    old = SIMPL.get(op)

    def f(args, attr, ty):
        if attr:
            na = tuple(labels_of(a) if k in ("index", "columns") else a for a, k in zip(args, attr))
            if any(a is not b for a, b in zip(na, args)):
                return tm.mk(op, na, attr, ty)
        return old(args, attr, ty) if old else None

    SIMPL[op] = f


# ---- getitem
def is_neg_const(t):
    return is_num(t) and num_val(t) < 0


def getitem_t(t, i):
    return app("getitem", t, i)


def unsort(n, i, body):
    """A sum or a search over a sorted list does not depend on the order."""
    if n is None or "sorted" not in body.ops or i.attr not in body.fv:
        return n, body
    found = set()
    st, seen = [body], set()
    while st:
        y = st.pop()
        if y in seen or i.attr not in y.fv:
            continue
        seen.add(y)
        if y.op == "getitem" and y.args[0].op == "sorted" and y.args[1] is i:
            found.add(y.args[0])
        st += [z for z in y.args if isinstance(z, T)]
        if y.op == "poly":
            st += [a for c, m in y.attr for a, e in m]
    if len(found) != 1:
        return n, body
    S = found.pop()
    L = S.args[0]
    if len_term(L) is not n or i.attr in S.fv:
        return n, body
    z = fresh("?", None, "z")
    if i.attr in subst(body, {getitem_t(S, i): z}).fv:
        return n, body
    return n, subst(body, {getitem_t(S, i): getitem_t(L, i)})


def _extreme(t):
    """f -> diagram 'f holds of some element' for a list or vector, or None."""
    from . import libcalls
    from .engine import exists_dom
    if t.op == "list":
        def go(f):
            out = FALSE
            for p in t.args:
                if p.op == "seg":
                    b = p.args[1].args[0]
                    i = fresh("num", 0, "i")
                    b = subst(b, {p.args[1].args[1]: i})
                    if b.op != "list":
                        return None
                    c = FALSE
                    for x in b.args:
                        g = TRUE
                        if x.op == "guarded":
                            g, x = x.args
                        if x.op in ("seg", "spread"):
                            return None
                        c = b_or(c, b_and(g, f(x)))
                    if c is not FALSE:
                        out = b_or(out, exists_dom(p.args[0], i, c) if i.attr in c.fv else b_and(c, cmp0(p.args[0], ">")))
                elif p.op == "spread":
                    return None
                else:
                    g = TRUE
                    if p.op == "guarded":
                        g, p = p.args
                    out = b_or(out, b_and(g, f(p)))
            return out
        return go
    if t.ty[0] in ("arr", "ser") and t.ty[1] == 1:
        def go(f):
            i = fresh("num", 0, "i")
            c = f(libcalls.elem1(t if t.ty[0] == "arr" else libcalls.values(t), i))
            if i.attr not in c.fv:
                return c
            return exists_dom(len_term(t), i, c)
        return go
    return None


tm.EXTREME[0] = _extreme


def _sorted_end(t, c):
    """Component c of the first or last element of a list sorted by +-component c."""
    s, i = t.args
    if s.op != "sorted" or s.attr is not None or len(s.args) != 2 or not is_num(i) or num_val(i) not in (0, -1):
        return None
    key = s.args[1]
    if key.op != "bind":
        return None
    x = key.args[1]
    k = key.args[0]
    if k is getitem_t(x, num(c)):
        sgn = 1
    elif k is neg(getitem_t(x, num(c))):
        sgn = -1
    else:
        return None
    L = _project(s.args[0], c)
    if L is None:
        return None
    big = (num_val(i) == -1) == (sgn > 0)
    return app("max" if big else "min", L, ty=("num", 0))


def _project(L, k):
    """Component k of every element of a filtered list of tuples, or None."""
    if L.op != "list" or len(L.args) != 1 or L.args[0].op != "seg":
        return None
    p = L.args[0]
    b = p.args[1].args[0]
    if b.op != "list":
        return None
    items = []
    for x in b.args:
        g = None
        if x.op == "guarded":
            g, x = x.args
        if x.op not in ("pair", "tuple") or not -len(x.args) <= k < len(x.args):
            return None
        y = x.args[k]
        items.append(y if g is None else tm._node("guarded", (g, y), None, y.ty))
    i = fresh("num", 0, "i")
    nb = tm._node("list", tuple(items), None, b.ty)
    return tm.mk("list", (tm.mk("seg", (p.args[0], bind(subst(nb, {p.args[1].args[1]: i}), i))),), None, L.ty)


@simpl("getitem")
def _s_getitem(args, attr, ty):
    t, i = args
    if i.op == "slice" and len(i.args) == 3:
        a, b, c = i.args
        na = NONE if a is ZERO and (c is NONE or c is ONE) else a
        nb = NONE if b is not NONE and (c is NONE or c is ONE) and t.ty[0] in ("list", "idx", "arr", "ser", "tuple", "?") and b is len_term(t) else b
        nc = NONE if c is ONE else c
        if na is not a or nb is not b or nc is not c:
            return app("getitem", t, tm._node("slice", (na, nb, nc), i.attr, i.ty))
    if t.op == "writes" and t.args[-1].op == "w" and _apart(t.args[-1].args[0], i):
        return app("getitem", app("writes", *t.args[:-1], ty=t.ty), i)
    if t.ty[0] == "ser" and i.op == "getitem" and i.args[0] is app("index", t) and i.args[1].ty == ("num", 0) and i.args[1].op != "slice":
        # the entry under the label at a position
        from . import libcalls
        return libcalls.elem1(libcalls.values(t), i.args[1])
    if t.op == "getitem" and i.ty[0] == "str" and t.args[1].ty[0] == "str" and t.args[0].ty[0] == "df":
        return app("getloc", t.args[0], app("tuple", i, t.args[1], ty=("tuple", None)))
    if t.op == "getitem" and is_num(i) and num_val(i).denominator == 1 and t.args[1].ty[0] == "num" and t.args[1].op != "slice":
        r = _sorted_end(t, int(num_val(i)))
        if r is not None:
            return r
        L = _project(t.args[0], int(num_val(i)))
        if L is not None:
            return getitem_t(L, t.args[1])
    if t.op == "tuple" and is_num(i) and num_val(i).denominator == 1:
        k = int(num_val(i))
        if -len(t.args) <= k < len(t.args):
            return t.args[k]
    if t.op == "list":
        if is_num(i) and num_val(i).denominator == 1:
            k = int(num_val(i))
            ps = t.args if k >= 0 else t.args[::-1]
            kk = k if k >= 0 else -k - 1
            for p in ps:
                if p.op in ("guarded", "seg", "spread"):
                    break
                if kk == 0:
                    return p
                kk -= 1
            else:
                return None
        if len(t.args) == 1:
            p = t.args[0]
            if p.op == "seg" and i.ty[0] in ("num",) and i.op not in ("slice",):
                b = p.args[1].args[0]
                if b.op == "list" and len(b.args) == 1 and b.args[0].op not in ("guarded", "seg", "spread"):
                    ii = add(p.args[0], i) if is_neg_const(i) else i
                    r = inst(p.args[1], ii)
                    return r.args[0]
            if p.op == "spread":
                return getitem_t(p.args[0], i)
    if t.op == "spread" and t.args[0].ty[0] in ("idx", "arr", "list") and i.ty[0] == "num" and i.op != "slice":
        return getitem_t(t.args[0], i)
    if t.op == "vstack" and all(x.ty[1] == 1 for x in t.args):
        if is_num(i) and -len(t.args) <= num_val(i) < len(t.args) and num_val(i).denominator == 1:
            return t.args[int(num_val(i))]
        if i.op == "tuple" and len(i.args) == 2 and i.args[1].ty[0] == "num" and i.args[1].op != "slice":
            x = getitem_t(t, i.args[0])
            return getitem_t(x, i.args[1]) if x.op != "getitem" else None
    if t.op == "T" and t.args[0].op == "vstack" and all(x.ty[1] == 1 for x in t.args[0].args):
        v = t.args[0]
        if i.op == "tuple" and len(i.args) == 2:
            return getitem_t(v, app("tuple", i.args[1], i.args[0], ty=("tuple", None)))
        if i.ty[0] == "num" and i.op != "slice":
            return app("arrlit", *[getitem_t(x, i) for x in v.args], ty=("arr", 1))
    if t.op == "amap" and i.ty[0] == "num" and i.op != "slice":
        ii = add(t.args[0], i) if is_neg_const(i) else i
        return inst(t.args[1], ii)
    if t.op == "setcol":
        df, k, v = t.args
        if k is i:
            return v
        if is_const(k) and is_const(i):
            return getitem_t(df, i)
    if t.op in ("zeros", "ones") and i.op != "slice" and t.ty[1] == 1 and i.ty[0] == "num":
        return ZERO if t.op == "zeros" else ONE
    if t.op == "slice" and False:
        return None
    if t.op in ("values", "asarray", "list", "tolist") and t.args[0].ty[0] == "idx" and t.op != "list":
        return getitem_t(t.args[0], i)
    if t.op == "getitem" and t.args[1].op == "slice" and t.ty[0] in ("list", "arr") and is_num(i):
        lo, hi, st = t.args[1].args
        if lo is NONE and st is NONE and not is_neg_const(i):
            pass
    if i.op == "slice" and all(x is NONE for x in i.args) and t.ty[0] in ("arr", "list", "ser"):
        return t
    return None


def index_scalar(x):
    """True: a single label or position, False: several of them, None: unknown."""
    if x.op == "slice" or x.ty[0] in ("list", "arr", "ser", "idx", "set", "dict", "df"):
        return False
    if x.ty[0] != "?":
        return True
    if x.op == "getitem":
        b, j = x.args
        if b.ty[0] in ("idx", "arr", "ser", "dict", "str"):
            return index_scalar(j)
        return None
    if x.op in ("ite",):
        r = {index_scalar(a) for a in x.args[1:]}
        return r.pop() if len(r) == 1 else None
    return None if x.op in ("foldout", "first", "last", "excv") else True


def elem_type(parts):
    """Common type of the elements of list parts, or unknown."""
    tys = set()
    for p in parts:
        if p.op == "guarded":
            p = p.args[1]
        if p.op == "seg":
            b = p.args[1].args[0]
            tys.add(elem_type(b.args if b.op == "list" else (b,)))
        elif p.op == "spread":
            tys.add(_ty_getitem((p.args[0], app("slice0", ty=("num", 0))), None))
        else:
            tys.add(p.ty)
    if len(tys) == 1:
        return tys.pop()
    if tys and all(t[0] in ("list", "idx", "arr") for t in tys):
        return ("list", None)
    return ("?", None)


@typ("getitem")
def _ty_getitem(args, attr):
    t, i = args
    k, n = t.ty
    if is_num(i) and num_val(i).denominator == 1:
        from . import libcalls
        r = libcalls.tuple_item_ty(t, int(num_val(i)))
        if r is not None:
            return r
    if k == "arr":
        if i.op == "slice" or i.ty[0] in ("list",):
            return ("arr", n)
        if i.op == "tuple":
            if n is None:
                return ("arr", None)
            d = n
            for x in i.args:
                if x.op != "slice" and x.ty[0] == "num":
                    d -= 1
            return ("num", 0) if d == 0 else ("arr", d)
        if i.ty[0] == "num":
            if n is None:
                return ("arr", None)
            return ("num", 0) if n == 1 else ("arr", n - 1)
        if i.ty[0] == "arr":
            return ("arr", i.ty[1] and (1 if i.op.startswith("e") else n))
        return ("arr", None)
    if k == "ser":
        if i.op == "slice" or i.ty[0] in ("list", "arr", "ser", "idx"):
            return ("ser", 1)
        return ("num", 0) if index_scalar(i) else ("?", None)
    if k == "df":
        if i.ty[0] in ("list", "idx", "df") or i.op == "slice":
            return ("df", 2)
        return ("ser", 1) if index_scalar(i) else ("?", None)
    if k == "cvx":
        if i.op == "slice" or i.ty[0] in ("list", "arr"):
            return ("cvx", n)
        if n == 1:
            return ("cvx", 0)
        return ("cvx", None)
    if k == "idx":
        if i.op == "slice" or i.ty[0] in ("list", "arr"):
            return ("idx", 1)
        return ("?", None)
    if k == "list":
        if i.op == "slice":
            return ("list", None)
        if t.op == "sym" and t.attr[1] == "numlist":
            return ("num", 0)
        if t.op == "sym" and t.attr[1] == "pairlist":
            return ("tuple", None)
        if t.op == "list":
            return elem_type(t.args)
        if isinstance(n, tuple):
            return n
        return ("?", None)
    if k == "str":
        return ("str", 0)
    return ("?", None)


def norm_index(I, idx):
    if isinstance(idx, Tup):
        return app("tuple", *[norm_index(I, x) for x in idx.items], ty=("tuple", None))
    if isinstance(idx, VIte):
        return ite(idx.c, norm_index(I, idx.a), norm_index(I, idx.b))
    t = I.term(idx)
    if t.op == "slice":
        lo, hi, st = t.args
        if lo is ZERO:
            lo = NONE
        if st is ONE:
            st = NONE
        return app("slice", lo, hi, st, ty=("slice", None))
    return t


def getitem(I, base, idx):
    if isinstance(base, VIte):
        return I.branch(base.c, lambda: getitem(I, base.a, idx), lambda: getitem(I, base.b, idx))
    if isinstance(idx, VIte):
        return I.branch(idx.c, lambda: getitem(I, base, idx.a), lambda: getitem(I, base, idx.b))
    if isinstance(base, Tup) or isinstance(base, str):
        seq = base.items if isinstance(base, Tup) else base
        if isinstance(idx, SliceV):
            try:
                s = slice(*[None if x is None else int(I.host(x)) for x in (idx.lo, idx.hi, idx.step)])
                return Tup(seq[s]) if isinstance(base, Tup) else seq[s]
            except ValueError:
                pass
        else:
            try:
                k = I.host(idx)
                if isinstance(k, int):
                    if not -len(seq) <= k < len(seq):
                        I.raise_exc(Lib("builtins.IndexError"), NONE)
                    return seq[k]
            except ValueError:
                pass
        return getitem_t(I.term(base), norm_index(I, idx))
    if isinstance(base, Ref):
        h = I.get(base)
        if isinstance(h, HList):
            if h.kind == "dict":
                return dict_get(I, base, idx, None, True)
            return list_get(I, base, h, idx)
        if isinstance(h, HObj):
            if I.class_lookup(h.cls, "__getitem__") is not UNDEF:
                return I.call(I.getattr(base, "__getitem__"), [idx], {})
    if isinstance(base, LibM) and base.name in ("iloc", "loc", "at", "iat"):
        t = I.term(base.base)
        ix = norm_index(I, idx)
        nm = {"iat": "iloc", "at": "loc"}.get(base.name, base.name)
        r = app("get" + nm, t, ix)
        return view(I, base.base, r)
    t = I.term(base)
    if t.op in ("tuple",):
        return getitem(I, I.unterm(t), idx)
    if t.op == "ite":
        a, b = t.args[1], t.args[2]
        return I.branch(batom(t.args[0]), lambda: getitem(I, I.unterm(a), idx), lambda: getitem(I, I.unterm(b), idx))
    if t.ty[0] == "dict":
        return lift(lambda d, k: app("dget", d, k), t, I.term(idx))
    ix = norm_index(I, idx)
    r = getitem_t(t, ix)
    if t.op == "call" and ix.op == "c":
        return r
    if ix.op == "slice" or (ix.op == "tuple" and any(x.op == "slice" for x in ix.args)) or (t.ty[0] == "arr" and t.ty[1] in (2, None) and ix.ty[0] == "num"):
        return view(I, base, r)
    if t.ty[0] == "df" and ix.ty[0] == "str":
        return view(I, base, r)
    return r


def list_get(I, base, h, idx):
    if isinstance(idx, SliceV):
        if all(p[0] == "i" and p[1] is TRUE for p in h.parts):
            try:
                s = slice(*[None if x is None else int(I.host(x)) for x in (idx.lo, idx.hi, idx.step)])
                return I.alloc(HList(h.parts[s], "list"))
            except ValueError:
                pass
        if all(x is None for x in (idx.lo, idx.hi, idx.step)):
            return I.alloc(HList(h.parts, "list"))
        return I.own(getitem_t(I.list_term(h), norm_index(I, idx)))
    try:
        k = I.host(idx)
    except ValueError:
        k = None
    if isinstance(k, int):
        ps = h.parts if k >= 0 else h.parts[::-1]
        kk = k if k >= 0 else -k - 1
        for p in ps:
            if p[0] != "i" or p[1] is not TRUE:
                break
            if kk == 0:
                return p[2]
            kk -= 1
        else:
            I.raise_exc(Lib("builtins.IndexError"), NONE)
    t = I.list_term(h)
    return I.own(lift(lambda x: getitem_t(t, x), I.term(idx)))


def key_eq(I, a, b):
    """True / False / None(unknown) for dict keys."""
    if is_host(a) and is_host(b):
        return a == b
    ta, tb = I.term(a), I.term(b)
    if ta is tb:
        return True
    if is_const(ta) and is_const(tb):
        return False
    return None


def dict_get(I, ref, key, default, strict):
    h = I.get(ref)
    known = []
    if h.parts and not I.is_const_value(key) and all(
            p[0] == "i" and p[1] is TRUE and is_host(p[2].items[0]) for p in h.parts) and len(h.parts) <= 24:
        cs = []
        rest = TRUE
        for p in h.parts:
            c = I.truth(equal(I, key, p[2].items[0]))
            c = constrain(c, I.st.pc)
            if c is not FALSE:
                cs.append((c, p[2].items[1]))
                rest = b_and(rest, b_not(c))
        if strict:
            I.raise_builtin("KeyError", rest)
            r = cs[-1][1]
            cs = cs[:-1]
        else:
            r = default
        for c, v in reversed(cs):
            r = I.merge_val(constrain(c, I.st.pc), v, r)
        return r
    for p in reversed(h.parts):
        if p[0] == "i":
            e = key_eq(I, p[2].items[0], key)
            if e is True:
                known.append((p[1], p[2].items[1]))
                if p[1] is TRUE:
                    break
            elif e is None:
                return _dget_opaque(I, ref, key, default, strict)
        else:
            if p[2].op == "seg" or not known or True:
                r = _dget_opaque(I, ref, key, default, strict, upto=p)
                for g, v in reversed(known):
                    r = I.merge_val(g, v, r)
                return r
    if known and known[-1][0] is TRUE:
        r = known[-1][1]
        for g, v in reversed(known[:-1]):
            r = I.merge_val(g, v, r)
        return r
    if not known:
        if strict:
            I.raise_exc(Lib("builtins.KeyError"), NONE)
        return default
    if strict:
        g = FALSE
        for c, _ in known:
            g = b_or(g, c)
        I.raise_builtin("KeyError", b_not(g))
        r = known[-1][1]
    else:
        r = I.merge_val(known[-1][0], known[-1][1], default)
    for g, v in reversed(known[:-1]):
        r = I.merge_val(g, v, r)
    return r


def _dget_opaque(I, ref, key, default, strict, upto=None):
    h = I.get(ref)
    d = I.list_term(h)
    k = I.term(key)
    # lookup of a key produced by iterating the same dict
    r = lift(lambda x: app("dget", d, x), k)
    if strict:
        I.may_raise(["KeyError"], app("dgetkey", d, k))
        return r
    c = batom(app("in", k, d, ty=("bool", 0)))
    return I.merge_val(c, r, default) if default is not UNDEF else r


@simpl("dget")
def _s_dget(args, attr, ty):
    d, k = args
    if d.op == "dict" and len(d.args) == 1:
        p = d.args[0]
        if p.op == "spread":
            return app("dget", p.args[0], k)
    if d.op == "dict" and d.args and not (d.ops & {"seg", "spread"}) and is_const(k):
        for p in reversed(d.args):
            if p.op == "pair" and p.args[0] is k:
                return p.args[1]
            if p.op != "pair" or not is_const(p.args[0]):
                return None
    return None


@typ("dget")
def _ty_dget(args, attr):
    d = args[0]
    if d.op == "sym":
        return ("num", 0) if d.attr[1] in ("dict", "numdict") else ("?", None)
    if d.op == "dict":
        tys = set()
        for p in d.args:
            if p.op == "guarded":
                p = p.args[1]
            if p.op == "seg":
                b = p.args[1].args[0]
                for q in b.args if b.op == "list" else ():
                    if q.op == "guarded":
                        q = q.args[1]
                    if q.op == "pair":
                        tys.add(q.args[1].ty)
            elif p.op == "pair":
                tys.add(p.args[1].ty)
            else:
                tys.add(("?", None))
        if len(tys) == 1:
            return tys.pop()
    return ("?", None)


def dict_set(I, ref, key, v):
    h = I.get(ref)
    parts = list(h.parts)
    for k, p in enumerate(parts):
        if p[0] == "i" and p[1] is TRUE and key_eq(I, p[2].items[0], key) is True:
            if all(q[0] == "i" and key_eq(I, q[2].items[0], key) is False for q in parts[k + 1:]):
                parts[k] = ("i", TRUE, Tup((key, v)))
                I.mutate_list(ref, parts)
                return
    parts.append(("i", TRUE, Tup((key, v))))
    I.mutate_list(ref, parts)


def list_extend(I, ref, v):
    h = I.get(ref)
    I.mutate_list(ref, list(h.parts) + parts_of(I, v))


def delitem(I, base, idx):
    if isinstance(base, Ref):
        h = I.get(base)
        if isinstance(h, HList):
            parts = list(h.parts)
            if h.kind == "dict":
                for k, p in enumerate(parts):
                    if p[0] == "i" and key_eq(I, p[2].items[0], idx) is True:
                        del parts[k]
                        I.mutate_list(base, parts)
                        return
            else:
                sl = I.term(idx)
                if sl.op == "slice":
                    lo, hi, st = (None if x is NONE else num_val(x) if is_num(x) else "?" for x in sl.args)
                    if "?" not in (lo, hi) and st in (None, 1):
                        lo, hi = (None if x is None else int(x) for x in (lo, hi))
                        exact = lambda ps: all(p[0] == "i" and p[1] is TRUE for p in ps)  # noqa
                        if exact(parts) or (lo or 0) >= 0 and hi is not None and 0 <= hi <= len(parts) and exact(parts[:hi]):
                            del parts[lo:hi]
                            I.mutate_list(base, parts)
                            return
                try:
                    k = I.host(idx)
                    if isinstance(k, int) and all(p[0] == "i" and p[1] is TRUE for p in (parts[: k + 1] if k >= 0 else parts[k:])):
                        del parts[k]
                        I.mutate_list(base, parts)
                        return
                except (ValueError, IndexError):
                    pass
            t = app("delitem", I.list_term(h), norm_index(I, idx), ty=({"gen": "list"}.get(h.kind, h.kind), None))
            I.mutate_list(base, [("s", TRUE, t)])
            return
        if isinstance(h, HCell):
            I.mutate_cell(base, app("delitem", h.t, norm_index(I, idx), ty=h.t.ty), "ident")
            return
    I.unknown("del")


# ---- stores
def store(I, t, ix, v):
    if ix.op == "e==0":
        p = ix.args[0]
        # np.eye(n) == 1
        if p.op == "poly" and len(p.attr) == 2:
            d = as_mons(p)
            if d.get(()) == -1 and any(m and m[0][0].op == "eye" and c == 1 for m, c in d.items()):
                return app("setdiag", t, v, ty=t.ty)
    if ix.op in ("e<0", "e<=0", "e==0", "e!=0", "e>0", "e>=0", "BitAnd", "BitOr") and v.ty[1] == 0 and t.ty[0] == "arr" and ix.ty[1] == t.ty[1]:
        from . import libcalls
        return libcalls.where(I, ix, v, t)
    w = app("w", ix, v)
    if t.op == "writes":
        return app("writes", *t.args, w, ty=t.ty)
    return app("writes", t, w, ty=t.ty)


def _apart(a, b):
    """Two subscripts address different places: different constants, or different clusters of a partition."""
    if a is b:
        return False
    if tm.is_const(a) and tm.is_const(b):
        return a.ty == b.ty
    if a.op == "getitem" and b.op == "getitem" and a.args[0] is b.args[0] and a.args[0].ty[0] == "list" and a.ty[0] in ("list", "idx", "?"):
        d = sub(a.args[1], b.args[1]) if a.args[1].ty == b.args[1].ty == ("num", 0) else ZERO
        return is_num(d) and num_val(d) != 0
    return False


@simpl("writes")
def _s_writes(args, attr, ty):
    base, ws = args[0], args[1:]
    if not ws:
        return base
    # stores to different places commute
    out = list(ws)
    for k in range(len(out) - 1):
        for j in range(len(out) - 1 - k):
            x, y = out[j], out[j + 1]
            if x.op == "w" and y.op == "w" and y.dig < x.dig and _apart(x.args[0], y.args[0]):
                out[j], out[j + 1] = y, x
    if any(x is not y for x, y in zip(out, ws)):
        return app("writes", base, *out, ty=ty)
    if base.op == "writes":
        return app("writes", *(base.args + tuple(ws)), ty=ty)
    if base.op == "ite":
        return lift(lambda x: app("writes", x, *ws, ty=x.ty), base)
    if len(ws) == 1 and ws[0].op == "wloop" and base.op == "zeros" and base.args[0].op == "tuple" and len(base.args[0].args) == 2 \
            and is_num(base.args[0].args[1]) and num_val(base.args[0].args[1]) == 1:
        return _column_writes(base, ws[0])
    if len(ws) == 1 and ws[0].op == "wloop" and base.ty[1] == 1:
        n, b = ws[0].args
        body = b.args[0]
        if len(b.args) == 2 and body.op == "tuple" and len(body.args) == 1:
            w = body.args[0]
            g = TRUE
            if w.op == "guarded":
                g, w = w.args
            if w.op == "w" and w.args[0] is b.args[1] and len_term(base) is n:
                v = b.args[1]
                f = fresh("num", 0, "i")
                val = subst(w.args[1], {v: f})
                gg = subst(g, {v: f}) if g is not TRUE else TRUE
                old = getitem_t(base, f)
                return amap(n, f, ite(gg, val, old))
    return None


def _column_writes(base, w):
    """zeros((n, 1)) filled row by row is a column."""
    n = base.args[0].args[0]
    m, b = w.args
    body = b.args[0]
    if len(b.args) != 2 or body.op != "tuple" or len(body.args) != 1:
        return None
    x, g = body.args[0], TRUE
    if x.op == "guarded":
        g, x = x.args
    if x.op != "w" or m is not n:
        return None
    k = x.args[0]
    if k.op == "tuple" and len(k.args) == 2 and k.args[1] is ZERO:
        k = k.args[0]
    if k is not b.args[1] or x.args[1].ty[1] not in (0, None):
        return None
    v = b.args[1]
    f = fresh("num", 0, "i")
    return app("col", amap(n, f, ite(subst(g, {v: f}) if g is not TRUE else TRUE, subst(x.args[1], {v: f}), ZERO)))


def amap(n, i, body):
    body = tm.in_domain(body, i, n)

    def f(b):
        if b.op == "getitem" and b.args[1] is i and i.attr not in b.args[0].fv and len_term(b.args[0]) is n and b.args[0].ty == ("arr", 1):
            return b.args[0]
        return app("amap", n, bind(b, i), ty=("arr", 1 if b.ty[1] in (0,) else None if b.ty[1] is None else b.ty[1] + 1))

    return hoist(f, body, i)


def is_zero_dom(n):
    return is_num(n) and num_val(n) == 0


def merge_writes(ws):
    """Two stores one after the other to one place are one store."""
    out = []
    for w in ws:
        g, x = (w.args[0], w.args[1]) if w.op == "guarded" else (TRUE, w)
        if out and x.op == "w":
            g0, y = out[-1]
            if y.op == "w" and y.args[0] is x.args[0]:
                out[-1] = (b_or(g0, g), app("w", x.args[0], ite(g, x.args[1], y.args[1])))
                continue
        out.append((g, x))
    return [x if g is TRUE else app("guarded", g, x) for g, x in out]


def writes_loop(init, n, i, ws):
    if not ws:
        return init
    ws = merge_writes(ws)
    wl = app("wloop", n, bind(app("tuple", *ws), i))
    if init.op == "writes":
        r = app("writes", *init.args, wl, ty=init.ty)
    else:
        r = app("writes", init, wl, ty=init.ty)
    return resolve2d(r)


def resolve2d(t):
    """Element map of a 2-D array filled by nested loops over (i, j)."""
    if t.op != "writes" or t.ty[1] != 2 or t.args[0].op != "zeros":
        return t
    base, ws = t.args[0], t.args[1:]
    a, b = fresh("num", 0, "i"), fresh("num", 0, "i")
    na, nb = dimt(base, 0), dimt(base, 1)
    val = ZERO
    for w in ws:
        r = _resolve_w(w, [], a, b, na, nb)
        if r is None:
            return t
        for c, v in r:
            val = ite(c, v, val)
    # 0 <= a < na and 0 <= b < nb hold
    if val.op == "ite":
        care = _dom_care(val, a, na)
        care = b_and(care, _dom_care(val, b, nb))
        val = _constrain_val(val, care)
    return app("amap2", na, nb, bind(val, a, b), ty=("arr", 2))


def _dom_care(val, a, n):
    return b_and(cmp0(a, ">="), cmp0(sub(a, n), "<"))


def _constrain_val(v, care):
    if v.op != "ite":
        return v
    ats = sorted(gate_atoms(v), key=atom_key)
    for at in ats:
        if b_and(care, batom(at)) is FALSE:
            return _constrain_val(cof(v, at, False), care)
        if b_and(care, b_not(batom(at))) is FALSE:
            return _constrain_val(cof(v, at, True), care)
    c, x, y = v.args
    return ite(batom(c), _constrain_val(x, b_and(care, batom(c))), _constrain_val(y, b_and(care, b_not(batom(c)))))


def _resolve_w(w, loops, a, b, na, nb):
    g = TRUE
    if w.op == "guarded":
        g, w = w.args
        if w.op != "w":
            return None
    if w.op == "ite":
        at = w.args[0]
        if any(v.attr in at.fv for v, _ in loops):
            return None
        x, y = (_resolve_w(q, loops, a, b, na, nb) for q in w.args[1:])
        if x is None or y is None:
            return None
        return [(b_and(batom(at), c), v) for c, v in x] + [(b_and(b_not(batom(at)), c), v) for c, v in y]
    if w.op == "wloop":
        n, bd = w.args
        v = fresh("num", 0, "i")
        body = inst(bd, v)
        out = []
        for x in body.args:
            r = _resolve_w(x, loops + [(v, n)], a, b, na, nb)
            if r is None:
                return None
            out += r
        # substitution of loop variables already done inside
        return out
    if w.op != "w" or w.args[0].op != "tuple" or len(w.args[0].args) != 2 or len(loops) != 2:
        return None
    r, c = w.args[0].args
    (v1, n1), (v2, n2) = loops
    sol = {}
    # r == a, c == b ; unknowns v1, v2 appear linearly with coefficient 1 in one coordinate each
    eqs = [(r, a), (c, b)]
    for _ in range(3):
        for e, tgt in eqs:
            e1 = subst(e, sol) if sol else e
            un = [v for v in (v1, v2) if v.attr in e1.fv]
            if len(un) == 1 and un[0] not in sol:
                rest = sub(e1, un[0])
                if un[0].attr in rest.fv:
                    return None
                sol[un[0]] = sub(tgt, rest)
    if v1 not in sol or v2 not in sol:
        return None
    if sub(subst(r, sol), a) is not ZERO or sub(subst(c, sol), b) is not ZERO:
        return None
    cond = g if not loops else subst(g, sol)
    for v, n in loops:
        x = sol[v]
        nn = subst(n, sol)
        cond = b_and(cond, cmp0(x, ">="), cmp0(sub(x, nn), "<"))
    return [(cond, subst(w.args[1], sol))]


def sumover(n, i, e):
    """Sum of e over i in [0, n)."""
    n, e = unsort(n, i, e)
    e = tm.in_domain(e, i, n)

    def f(x):
        mons = as_mons(x)
        out = ZERO
        for m, c in mons.items():
            inn, outn = [], []
            for a, ex in m:
                (inn if i.attr in a.fv else outn).append((a, ex))
            k = from_mons({tuple(outn): c}) if outn else num(c)
            if not inn:
                out = add(out, mul(k, n))
            else:
                body = from_mons({tuple(inn): Fr(1)})
                out = add(out, mul(k, tm._node("sumover", (n, bind(body, i)), None, body.ty)))
        return out

    return hoist(lambda b: lift_sum(f, b, i), e, i)


def lift_sum(f, b, i):
    """A sum of gated values is linear in the gated monomials: every monomial under its own gate."""
    if b.op != "ite":
        return f(b)
    ls = leaves(b)
    if any(x.op in tm.STRUCT or (x.op == "c" and x.attr[0] not in ("nan", "inf")) for x in ls):
        return _sum_gated(f, b, i)
    mons = {}
    for x in ls:
        for m in as_mons(x):
            mons[m] = None
    out = ZERO
    for m in mons:
        g = ZERO
        for x, c in ls.items():
            k = as_mons(x).get(m, 0)
            if k:
                g = ite(c, num(k), g)
        k = _lead(g)
        t = lift(lambda v: mul(v, from_mons({m: 1 / k})), g)
        if t.op == "ite" and t.ty[0] == "num" and tm.cmp0(t, ">=") is not TRUE and tm.cmp0(t, "<=") is TRUE:
            k, t = -k, neg(t)
        out = add(out, mul(num(k), f(t) if t.op != "ite" else _sum_gated(f, t, i)))
    return out


def _lead(g):
    """First nonzero leaf of a numeric diagram."""
    st = [g]
    while st:
        x = st.pop()
        if x.op == "ite":
            st += [x.args[2], x.args[1]]
        elif num_val(x):
            return num_val(x)
    return Fr(1)


def _sum_gated(f, b, i):
    c, x, y = b.args
    return f(tm._node("gated", (batom(c), x, y), None, b.ty))


@simpl("gated")
def _s_gated(args, attr, ty):
    c, x, y = args
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    return None


@simpl("sumover")
def _s_sumover(args, attr, ty):
    n, b = args
    x = b.args[0]
    if len(b.args) == 2 and (x.op == "ite" or x.op == "poly"):
        i = fresh("num", 0, "i")
        return sumover(n, i, inst(b, i))
    return None


# ------------------------------------------------------------------ views
def view(I, base, r):
    """Result sharing memory with base (numpy / pandas view)."""
    if isinstance(base, Ref) and isinstance(r, T) and r.ty[0] in ("arr", "ser", "df", "?"):
        h = I.get(base)
        if isinstance(h, HCell):
            return I.alloc(HCell(r, None, h.data, base.id))
    return r


def mark_view(I, base, r):
    return view(I, base, r)


# ------------------------------------------------------------------ attributes of library values
def attr_t(t, name):
    return lift(lambda x: _attr_leaf(x, name), t)


def _attr_leaf(t, name):
    k, n = t.ty
    if name in ("values",):
        if k == "arr":
            return t
        if t.op == "c":
            return t
        return app("values", t)
    if name in ("columns", "index"):
        return app(name, t)
    return app("attr", t, attr=name)


@typ("values")
def _ty_values(args, attr):
    k, n = args[0].ty
    return ("arr", 1 if k in ("ser", "idx") else 2 if k == "df" else n)


def subst_top(t, a, b):
    """Replace the atom a of a polynomial, not looking inside other atoms."""
    out = ZERO
    for c, m in t.attr:
        p = num(c)
        for x, e in m:
            p = mul(p, powr(b if x is a else x, e))
        out = add(out, p)
    return out


@simpl("values")
def _s_values(args, attr, ty):
    t, = args
    if t.ty[0] == "arr" or t.ty[0] == "num":
        return t
    if t.op == "values":
        return t
    if t.op == "poly":
        pan = {a for c, m in t.attr for a, e in m if a.ty[0] in ("ser", "df")}
        rest = [a for c, m in t.attr for a, e in m if a.ty[0] not in ("ser", "df", "arr", "num", "bool")]
        if len(pan) == 1 and not rest:
            a, = pan
            return subst_top(t, a, app("values", a))
    if t.op == "mm" and sum(a.ty[0] in ("df", "ser") for a in t.args) == 1 and all(a.ty[0] in ("df", "ser", "arr") for a in t.args):
        r = attr_t(t.args[0], "values")
        for a in t.args[1:]:
            r = mm(r, attr_t(a, "values"))
        return r
    if t.op == "T":
        return transpose(app("values", t.args[0]))
    if t.op == "DataFrame" and t.attr and t.attr[0] == "data" and t.args[0].ty == ("arr", 2):
        return t.args[0]
    if t.op == "Series" and t.attr and t.attr[0] == "data" and t.args[0].ty == ("arr", 1):
        return t.args[0]
    return None


@typ("columns", "index")
def _ty_idx(args, attr):
    return ("idx", 1)


@simpl("columns", "index")
def _s_idx(args, attr, ty):
    return None


def _idx_rule(op):
    def f(args, attr, ty):
        t, = args
        if t.op == "DataFrame" and t.attr and op in t.attr:
            x = t.args[t.attr.index(op)]
            if x.ty[0] == "idx":
                return x
        if t.op == "Series" and t.attr and op in t.attr:
            x = t.args[t.attr.index(op)]
            if x.ty[0] == "idx":
                return x
        if t.op in ("cov", "corr") and t.ty[0] == "df":
            return app("columns", t.args[0])
        if op == "columns" and t.op in ("pct_change", "shift", "dropna", "mask", "ffill", "round", "cumprod", "isnull", "copy"):
            if t.op == "dropna" and t.attr and "axis" in t.attr:
                return None
            return app(op, t.args[0])
        if op == "index" and t.op in ("shift", "round", "copy", "mask", "ffill", "cumprod"):
            return app(op, t.args[0])
        if op == "columns" and t.op == "poly" or op == "index" and t.op == "poly":
            xs = {a for c, m in t.attr for a, e in m if a.ty[0] in ("df", "ser")}
            ys = {a for c, m in t.attr for a, e in m if a.ty[0] in ("arr",) or a.ty[0] == "?"}
            if xs and all(x.ty[0] == t.ty[0] for x in xs):
                r = {app(op, x) for x in xs}
                if len(r) == 1:
                    return r.pop()
        if t.op == "T":
            return app("columns" if op == "index" else "index", t.args[0])
        if op in ("columns", "index") and t.op == "log" or t.op == "exp" or t.op == "sqrt":
            return app(op, t.args[0])
        if t.op == "fmin" or t.op == "fmax":
            xs = [a for a in t.args if a.ty[0] in ("df", "ser")]
            if len(xs) == 1:
                return app(op, xs[0])
        return None

    return f


SIMPL["columns"] = _idx_rule("columns")
SIMPL["index"] = _idx_rule("index")


PURE_ATTR = {"name", "dtype", "size", "ndim", "names", "nbytes", "is_unique"}


def getattr_lib(I, base, name):
    if isinstance(base, Lib):
        p = base.path
        if p == "sys" and name == "version_info":
            return Tup([3, 12, 3])
        r = canon(Lib(p + "." + name))
        if r.path in CONSTS:
            v = CONSTS[r.path]
            return v
        return r
    if isinstance(base, LibM) and base.name in ("str", "dt", "cat", "plot"):
        return LibM(base, name)
    k = I.kind(base)
    if isinstance(base, str) or isinstance(base, Tup):
        return LibM(base, name)
    if isinstance(base, Ref):
        h = I.get(base)
        if isinstance(h, HList):
            return LibM(base, name)
        if isinstance(h, HLib):
            if h.kind == "problem":
                if name == "status":
                    if h.attrs["k"] is None:
                        return None
                    return tm._node("status", (I.term(h.attrs["k"]),), None, ("str", 0))
                if name == "value":
                    if h.attrs["k"] is None:
                        return None
                    t = tm._node("optval", (I.term(h.attrs["k"]),), None, ("num", 0))
                    return t if h.attrs["sense"] == "min" else neg(t)
                if name == "constraints":
                    return h.attrs["cons"]
                if name == "objective":
                    return app("objective", h.attrs["obj"])
            if name in h.attrs:
                return h.attrs[name]
            return LibM(base, name)
    t = I.term(base) if not isinstance(base, (int, float)) else const(base)
    if isinstance(base, (Func, Bound)):
        if name in ("__name__", "__qualname__"):
            f = base.func if isinstance(base, Bound) else base
            return f.name
        return app("attr", I.term(base), attr=name)
    if t.op == "lib":
        return getattr_lib(I, Lib(t.attr), name)
    if t.op == "minimize":
        return I.getitem(base, name) if hasattr(I, "getitem") else getitem_t(t, const(name))
    if t.op == "par" and name == "value":
        return I.get(Ref(t.attr[0])).attrs["value"]
    if t.op == "par" and name == "name":
        return Intr("name", lambda I, args, kw: I.get(Ref(t.attr[0])).attrs["name"])
    if t.op == "ite" and t.ty[0] in ("?", "cvx", "con", "none"):
        a, b = t.args[1], t.args[2]
        return I.branch(batom(t.args[0]), lambda: I.getattr(I.unterm(a), name), lambda: I.getattr(I.unterm(b), name))
    if t is NONE:
        I.raise_exc(Lib("builtins.AttributeError"), NONE)
    k = t.ty[0]
    if k in ("cvx", "con") or (name == "args" and k in ("num", "arr")):
        if name == "args":
            return I.alloc(HList([("i", TRUE, cv_leaf(I, x)) for x in cv_args(t)]))
        if name == "id":
            if isinstance(base, Ref):
                return 10000000 + base.id
            return app("id", t, ty=("num", 0))
        if name == "value":
            return value_of(I, t)
        if name == "T":
            return transpose(t)
        if name == "shape":
            return shape_t(I, t)
    if name == "value" and k in ("num", "arr"):
        return t
    if name == "T":
        return view(I, base, transpose(t))
    if name == "values" and k in ("ser", "df", "idx"):
        return view(I, base, attr_t(t, "values"))
    if name in ("columns", "index") and k in ("df", "ser", "?"):
        return attr_t(t, name)
    if name == "shape":
        return shape_t(I, t)
    if name == "size":
        if t.ty[1] == 1:
            return len_term(t)
        if t.ty[1] == 2:
            return mul(len_term(t), dimt(t, 1))
    if name == "ndim" and t.ty[1] is not None:
        return t.ty[1]
    if name in ("iloc", "loc", "at", "iat", "str", "flat"):
        return LibM(base, name)
    if name in PURE_ATTR:
        return app("attr", t, attr=name)
    if k == "gfx":
        return LibM(base, name)
    if k == "?" and name in ATTRLIKE:
        return app("attr", t, attr=name)
    if t.op in ("attr", "libmod"):
        return LibM(base, name)
    return LibM(base, name)


ATTRLIKE = {"values", "empty", "clusters", "tickers", "weights", "args", "status", "message", "success", "x", "fun", "left", "right"}

CONSTS = {
    "numpy.inf": float("inf"),
    "numpy.nan": float("nan"),
    "numpy.NaN": float("nan"),
    "math.inf": float("inf"),
    "math.nan": float("nan"),
    "numpy.newaxis": None,
    "cvxpy.OPTIMAL": "optimal",
    "cvxpy.OPTIMAL_INACCURATE": "optimal_inaccurate",
    "cvxpy.INFEASIBLE": "infeasible",
    "cvxpy.UNBOUNDED": "unbounded",
}


def cv_leaf(I, x):
    if x.ops & {"var", "par"} or x.ty[0] in ("con", "cvx"):
        return x
    return I.alloc(en.HConst(x))


def cv_args(t):
    if t.op == "cvle" or t.op == "cveq":
        return list(t.args)
    if t.op in ("var", "par", "sym", "c") or is_num(t):
        return []
    if not (t.ops & {"var", "par"}) or t.op == "cvarg":
        return []
    if t.op == "ap":
        # what a caller's function built: opaque sides without parameters of its own
        return [app("cvarg", t, attr=k, ty=("cvx", None)) for k in (0, 1)] if t.ty[0] == "con" else []
    if t.op == "getitem":
        return [t.args[0]]
    if t.op == "poly":
        # as nested as cvxpy builds it: terms of a sum, then factors of a product
        if len(t.attr) > 1:
            return [tm.from_mons({m: c}) for c, m in t.attr]
    return [x for x in dict.fromkeys(children(t)) if x.op not in ("slice", "c", "tuple")]


def value_of(I, t):
    """Numeric value of a cvxpy expression in the current state (None before any solve)."""
    vs, ps = set(), set()
    leaf_terms(t, vs, ps)
    mp = {}
    for p in ps:
        mp[p] = I.term(I.get(Ref(p.attr[0])).attrs["value"])
    unsolved = FALSE
    for v in vs:
        r = NONE
        known = FALSE
        for pc, prob in I.st.solves:
            if v not in prob.all_vars:
                continue
            x = tm._node("sol", (v, prob.t), None, ("arr" if v.ty[1] else "num", v.ty[1]))
            c = constrain(pc, I.st.pc)
            r = ite(c, x, r)
            known = b_or(known, c)
        unsolved = b_or(unsolved, b_not(known))
        mp[v] = r
    unsolved = constrain(unsolved, I.st.pc)
    if unsolved is TRUE:
        return None
    if unsolved is FALSE:
        return devalue(subst(t, mp))
    mp2 = {k: (v if not v.op == "ite" else restrict_none(v)) for k, v in mp.items()}
    return I.merge_val(unsolved, None, devalue(subst(t, mp2)))


def restrict_none(v):
    """Drop the never-solved leaf of a gated solution value."""
    if v.op == "ite":
        a, b = restrict_none(v.args[1]), restrict_none(v.args[2])
        if a is NONE:
            return b
        if b is NONE:
            return a
        return ite(batom(v.args[0]), a, b)
    return v


def leaf_terms(t, vs, ps, seen=None):
    seen = set() if seen is None else seen
    if t in seen or not (t.ops & {"var", "par"}):
        return
    seen.add(t)
    if t.op == "var":
        vs.add(t)
        return
    if t.op == "par":
        ps.add(t)
        return
    if t.op in ("sol", "status", "optval"):
        return
    for c in children(t):
        leaf_terms(c, vs, ps, seen)


def devalue(t):
    return t


class Prob:
    def __init__(self, t, all_vars, loc):
        self.t, self.all_vars, self.loc = t, all_vars, loc


def vars_in(t, acc, seen):
    if t in seen or not (t.ops & {"var"}):
        return
    seen.add(t)
    if t.op == "var":
        acc.add(t)
    for c in children(t):
        vars_in(c, acc, seen)


def setattr_lib(I, base, name, v):
    if isinstance(base, Ref):
        h = I.get(base)
        if isinstance(h, HLib):
            at = dict(h.attrs)
            at[name] = v
            I.put(base, HLib(h.kind, at))
            return
        if isinstance(h, HCell):
            if h.t.op == "par" and name == "value":
                return set_param(I, h.t, v)
            if name == "index" and h.t.ty[0] == "ser":
                # the same values under new labels
                I.mutate_cell(base, app("Series", attr_t(h.t, "values"), I.term(v), attr=("data", "index")), "ident")
                return
            I.mutate_cell(base, app("setattr", h.t, I.term(v), attr=name, ty=h.t.ty), "ident")
            return
    t = I.term(base) if not isinstance(base, (Lib, LibM)) else None
    if t is not None and t.op == "par" and name == "value":
        return set_param(I, t, v)
    if t is not None and t.op == "ite":
        I.branch(batom(t.args[0]), lambda: setattr_lib(I, t.args[1], name, v), lambda: setattr_lib(I, t.args[2], name, v))
        return
    I.event("libwrite", app("setattr", t if t is not None else I.term(base), I.term(v), attr=name))


def set_param(I, par, v):
    ref = Ref(par.attr[0])
    h = I.get(ref)
    check_param(I, h.attrs, v)
    h = I.get(ref)
    at = dict(h.attrs)
    at["value"] = I.term(v)
    I.put(ref, HLib("param", at))


def check_param(I, attrs, v):
    if attrs.get("nonneg"):
        t = numt(I, v)
        I.raise_builtin("ValueError", cmp0(t, "<") if scalar_cmp_ok(t) else FALSE)


def unpack_item(I, t, k, n):
    if t.op == "tuple":
        return I.unterm(t.args[k])
    if t.ty[0] in ("ser",):
        return getitem_t(attr_t(t, "values"), num(k))
    if t.ty[0] == "dict":
        return app("dkey", t, num(k))
    return getitem_t(t, num(k))


# ------------------------------------------------------------------ setitem
def setitem(I, base, idx, v):
    if isinstance(base, VIte):
        I.branch(base.c, lambda: setitem(I, base.a, idx, v), lambda: setitem(I, base.b, idx, v))
        return
    if isinstance(base, Ref):
        h = I.get(base)
        if isinstance(h, HList):
            if h.kind == "dict":
                dict_set(I, base, idx, v)
                return
            parts = list(h.parts)
            try:
                k = I.host(idx)
                if isinstance(k, int) and -len(parts) <= k < len(parts):
                    sub_ = parts[: k + 1] if k >= 0 else parts[k:]
                    if all(p[0] == "i" and p[1] is TRUE for p in sub_):
                        parts[k] = ("i", TRUE, v)
                        I.mutate_list(base, parts)
                        return
            except (ValueError, AttributeError):
                pass
            t = I.list_term(h)
            nt = store(I, t, norm_index(I, idx), I.term(v))
            I.mutate_list(base, [("s", TRUE, nt)])
            return
        if isinstance(h, HCell):
            t = h.t
            ix = norm_index(I, idx)
            tv = I.term(v)
            if t.ty[0] == "df" and ix.ty[0] in ("str", "?", "num") and ix.op != "slice":
                I.mutate_cell(base, app("setcol", t, ix, tv, ty=t.ty), "ident")
                return
            I.mutate_cell(base, lift(lambda a, b, c: store(I, a, b, c), t, ix, tv), "data")
            return
        if isinstance(h, HObj) and I.class_lookup(h.cls, "__setitem__") is not UNDEF:
            I.call(I.getattr(base, "__setitem__"), [idx, v], {})
            return
    if isinstance(base, LibM) and base.name in ("iloc", "loc", "at", "iat"):
        b = base.base
        if isinstance(b, VIte):
            I.branch(b.c, lambda: setitem(I, LibM(b.a, base.name), idx, v), lambda: setitem(I, LibM(b.b, base.name), idx, v))
            return
        if isinstance(b, Ref) and isinstance(I.get(b), HCell):
            t = I.term(b)
            nm = {"iat": "iloc", "at": "loc"}.get(base.name, base.name)
            w = app("w", app(nm, norm_index(I, idx)), I.term(v))
            I.mutate_cell(b, app("writes", t, w, ty=t.ty), "data")
            return
    if isinstance(base, T) and base.op == "ite":
        I.branch(batom(base.args[0]), lambda: setitem(I, base.args[1], idx, v), lambda: setitem(I, base.args[2], idx, v))
        return
    I.unknown("setitem")
    I.event("unsupported", app("setitem"))


from . import libcalls as _lc  # noqa

call_lib = _lc.call_lib
call_method = _lc.call_method
call_term = _lc.call_term
make_builtins = _lc.make_builtins
array_of = _lc.array_of


def dict_of_parts(I, ps):
    """Heap dict of comprehension parts (duplicate constant keys collapse)."""
    ref = I.alloc(HList([], "dict"))
    for p in ps:
        if p[0] == "i" and p[1] is TRUE:
            dict_set(I, ref, p[2].items[0], p[2].items[1])
        else:
            h = I.get(ref)
            I.put(ref, HList(h.parts + (p,), "dict"))
    return ref
