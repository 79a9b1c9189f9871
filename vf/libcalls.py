"""Call models: builtins, containers, numpy / pandas / cvxpy / scipy / plotting."""
import re
from fractions import Fraction as Fr

from .terms import *  # noqa
from . import terms as tm
from .engine import (Ref, Tup, Func, Bound, Cls, Mod, Lib, LibM, VIte, SliceV, SuperV, Wrap, Intr, UNDEF, Dead,
                     HCell, HList, HObj, HLib, is_host, mk_list, mk_seg, exists_dom)
from . import engine as en

NUMK = ("num", "bool")


def L():
    from . import lib

    return lib


# ------------------------------------------------------------------ types of operators
def elem_ty(args, attr):
    return args[0].ty


ELEM = ["abs", "exp", "log", "isinf", "isnull", "floor", "ceil", "rint", "sign", "ffill", "mask", "fillna", "bfill",
        "cumprod", "cumsum", "copy", "sort_index", "nan_to_num", "round", "dropna", "pct_change", "sort", "clip_", "shift",
        "diff", "sort_values", "reindex", "replace", "rename", "ewm", "rolling", "expanding", "rank", "drop", "tanh", "cos", "sin", "where_"]
for _o in ELEM:
    TYF[_o] = elem_ty


def bcast_ty(args, attr=None):
    k, n = "num", 0
    for a in args:
        if tm._kind_rank(a.ty[0]) > tm._kind_rank(k):
            k = a.ty[0]
        if a.ty[1] is None:
            n = None
        elif n is not None:
            n = max(n, a.ty[1])
    if k in ("bool", "list"):
        k = "arr"
    if n == 0 and k == "arr":
        k = "num"
    return (k, n)


for _o in ("fmin", "fmax", "BitAnd", "BitOr"):
    TYF[_o] = bcast_ty
TYF["where"] = lambda args, attr: bcast_ty(args)
for _o in ("diag",):
    TYF[_o] = lambda args, attr: ("cvx" if args[0].ty[0] == "cvx" else "arr", 1)
for _o in ("diagm", "eye", "outer", "vstack", "col", "inv", "pinv", "npcov", "npcorr", "chol", "row"):
    TYF[_o] = lambda args, attr: ("arr", 2)
for _o in ("asarray", "arrlit"):
    TYF[_o] = lambda args, attr: ("arr", None)
for _o in ("linspace", "arange", "ones1", "flat"):
    TYF[_o] = lambda args, attr: ("arr", 1)
TYF["DataFrame"] = lambda args, attr: ("df", 2)
TYF["Series"] = lambda args, attr: ("ser", 1)
TYF["float"] = lambda args, attr: ("num", 0)
TYF["trunc"] = elem_ty
TYF["dkey"] = lambda args, attr: ("?", None)
TYF["repeat"] = lambda args, attr: ("list", None)


def _shape_nd(args, attr):
    s = args[0]
    return ("arr", len(s.args) if s.op == "tuple" else 1 if s.ty[0] in ("num",) else None)


TYF["zeros"] = _shape_nd
TYF["ones"] = _shape_nd


@typ("reshape")
def _ty_reshape(args, attr):
    s = args[1]
    return (args[0].ty[0] if args[0].ty[0] != "ser" else "arr", len(s.args) if s.op == "tuple" else None)


@typ("tile")
def _ty_tile(args, attr):
    n = args[0].ty[1]
    s = args[1]
    m = len(s.args) if s.op == "tuple" else 1
    return ("arr", None if n is None else max(n, m))


@typ("append")
def _ty_append(args, attr):
    return ("arr", args[0].ty[1] if attr and "axis" in attr else 1)


def _loc_part_scalar(x):
    """True: a single label, False: several labels, None: unknown."""
    return L().index_scalar(x)


@typ("getiloc", "getloc")
def _ty_iloc(args, attr):
    t, i = args
    k, n = t.ty
    parts = i.args if i.op == "tuple" else (i,)
    if any(_loc_part_scalar(x) is None for x in parts):
        return ("?", None)
    if k == "ser":
        return ("num", 0) if _loc_part_scalar(i) else ("ser", 1)
    if k == "df":
        if i.op == "tuple" and len(i.args) == 2:
            sc = sum(1 for x in i.args if _loc_part_scalar(x))
            return [("df", 2), ("ser", 1), ("num", 0)][sc]
        if _loc_part_scalar(i):
            return ("ser", 1)
        return ("df", 2)
    return ("?", None)


@simpl("getiloc")
def _s_getiloc(args, attr, ty):
    t, i = args
    if t.ty[0] == "df" and i.op == "tuple" and len(i.args) == 2 and i.args[1].op == "slice" and all(x is NONE for x in i.args[1].args):
        return app("getiloc", t, i.args[0])
    if i.op == "slice" and all(x is NONE for x in i.args):
        return t
    return None


@simpl("getloc")
def _s_getloc(args, attr, ty):
    t, i = args
    if i.op == "slice" and all(x is NONE for x in i.args):
        return t
    if t.ty[0] == "df" and i.op == "tuple" and len(i.args) == 2 and i.args[1].op == "slice" and all(x is NONE for x in i.args[1].args):
        return app("getloc", t, i.args[0])
    if t.ty[0] == "df" and i.op == "tuple" and len(i.args) == 2 and i.args[0].op == "slice" and all(x is NONE for x in i.args[0].args):
        if i.args[1].ty[0] == "str":
            return L().getitem_t(t, i.args[1])
    if t.ty[0] == "ser" and i.ty[0] == "str":
        return L().getitem_t(t, i)
    if t.ty[0] == "ser" and i.ty[0] in ("list",):
        return L().getitem_t(t, i)
    if t.ty[0] == "df" and i.op == "tuple" and len(i.args) == 2 and all(_loc_part_scalar(x) for x in i.args):
        # df.loc[a, b] == df[b].loc[a]
        return None
    return None


@simpl("len")
def _noop(args, attr, ty):
    return None


def fix_len():
    SIMPL["len"] = L()._s_len


REDS = ("sum", "prod", "mean", "min", "max", "std", "var", "any", "all", "count", "median", "skew", "kurt", "argmax", "argmin",
        "idxmax", "idxmin", "last_valid_index")


def red_ty(args, attr):
    a = args[0]
    k, n = a.ty
    if a.op == "ewm" or a.op in ("rolling", "expanding"):
        return a.ty
    axis = None
    if attr and "axis" in attr:
        axis = args[attr.index("axis")]
    if k == "df":
        return ("ser", 1)
    if k == "ser":
        return ("num", 0)
    if k == "cvx":
        return ("cvx", 0 if axis is None else None if n is None else n - 1)
    if k == "arr":
        if axis is None or n == 1:
            return ("num", 0)
        return ("arr", None if n is None else n - 1)
    if k in ("list", "num"):
        return ("num", 0)
    return ("?", None)


for _o in REDS:
    TYF[_o] = red_ty


@typ("cov", "corr")
def _ty_cov(args, attr):
    return ("df", 2) if args[0].ty[0] == "df" else ("num", 0)


@typ("to_numpy", "tolist")
def _ty_tolist(args, attr):
    return ("list", None)


@typ("join")
def _ty_join(args, attr):
    return ("df", 2)


# ------------------------------------------------------------------ helpers
def values(t):
    """The bare array of a pandas value (numpy semantics)."""
    return lift(lambda x: app("values", x) if x.ty[0] in ("ser", "df", "idx") else x, t)


def A(I, v):
    """Numeric term of a value."""
    return L().numt(I, v)


def nd(t):
    return t.ty[1]


def unelem(body, i, n):
    """Array whose i-th element is the polynomial body, when body is elementwise in 1-D arrays."""
    arrs = []
    ok = [True]

    def go(t):
        if i.attr not in t.fv:
            return
        if t.op == "getitem" and t.args[1] is i and i.attr not in t.args[0].fv and t.args[0].ty == ("arr", 1):
            arrs.append(t)
            return
        if t.op in ("poly", "abs", "exp", "log", "grp") or t.op == "pow":
            for c in children(t):
                go(c)
            return
        ok[0] = False

    go(body)
    if not ok[0] or not arrs:
        return None
    if not any(app("len", a.args[0]) is n for a in arrs):
        return None
    return subst(body, {a: a.args[0] for a in arrs})


def vsum(t):
    """Total of all elements of an array / cvxpy expression / series."""
    return lift(_vsum, t)


def _vsum(t):
    k, n = t.ty
    if k in ("num", "bool") or n == 0:
        return t
    if k == "ser" and nan_free(t):
        v = values(t)
        if v.ty == ("arr", 1):
            return vsum(v)
    if t.op == "poly":
        mons = as_mons(t)
        out = ZERO
        for m, c in mons.items():
            sc, fac = num(c), []
            for a, e in m:
                if a.ty[1] == 0 and a.ty[0] in ("num", "bool", "cvx"):
                    sc = mul(sc, powr(a, e))
                else:
                    fac.append((a, e))
            if not fac:
                # scalar added to every element
                if len(mons) > 1 and n is not None:
                    sz = app("len", t) if n == 1 else mul(app("len", t), L().dimt(t, 1)) if n == 2 else app("size", t, ty=("num", 0))
                    out = add(out, mul(sc, sz))
                    continue
                return tm._node("sum", (t,), None, red_ty((t,), None))
            body = from_mons({tuple(sorted(fac, key=lambda x: (x[0].dig, x[1]))): Fr(1)})
            if len(mons) > 1 and (body.ty[1] != n or n is None):
                return _sum_node(t)
            out = add(out, mul(sc, _sum_mono(body, fac)))
        return out
    return _sum_mono(t, [(t, Fr(1))])


def _sum_mono(body, fac):
    if all(tm.side(a) in ("col", "row") for a, _ in fac) and {tm.side(a) for a, _ in fac} == {"col", "row"}:
        u, v = ONE, ONE
        for a, e in fac:
            if tm.side(a) == "col":
                u = mul(u, powr(a.args[0], e))
            else:
                v = mul(v, powr(a.args[0].args[0], e))
        return mul(vsum(u), vsum(v))
    if len(fac) == 2 and all(e == 1 for _, e in fac):
        a, b = fac[0][0], fac[1][0]
        if nd(a) == 1 and nd(b) == 1 and (a.op == "mm" or b.op == "mm"):
            return L().mm(a, b)
    if len(fac) == 1 and fac[0][1] == 1:
        a = fac[0][0]
        if a.op in ("amap",):
            n, b = a.args
            i = fresh("num", 0, "i")
            return L().sumover(n, i, inst(b, i))
        if a.op == "T":
            return vsum(a.args[0])
        if a.op == "ones" and nd(a) == 1:
            return a.args[0]
        if a.op == "zeros":
            return ZERO
        if a.op == "diagm":
            return vsum(a.args[0])
    if len(fac) == 2 and any(a.op == "ones" and nd(a) == 1 for a, _ in fac) and all(e == 1 for _, e in fac):
        o = [a for a, _ in fac if not (a.op == "ones" and nd(a) == 1)]
        if len(o) == 1 and nd(o[0]) == 1:
            return vsum(o[0])
    if body.op == "poly" and any(a.op == "T" for a, _ in fac):
        t2 = L().transpose(body)
        if t2.dig < body.dig:
            body = t2
    return _sum_node(body)


def _sum_node(body):
    if body.ty == ("arr", 2) or body.ty == ("cvx", 2):
        t2 = L().transpose(body)
        if t2.dig < body.dig:
            body = t2
    return tm._node("sum", (body,), None, red_ty((body,), None))


@simpl("sum")
def _s_sum(args, attr, ty):
    if attr:
        return None
    t, = args
    if t.ty[0] in ("arr", "cvx", "num", "ser") and t.ty[1] is not None:
        r = _vsum(t)
        return r
    return None


def scale_out(op, t, extra=(), attr=None):
    """op(c*X) = c*op(X) for the linear reductions mean / sum on labelled data."""

    def f(x):
        if x.op == "poly" and len(x.attr) == 1:
            c, m = x.attr[0]
            sc, fac = num(c), []
            for a, e in m:
                if a.ty[0] == "num" and a.ty[1] == 0:
                    sc = mul(sc, powr(a, e))
                else:
                    fac.append((a, e))
            if fac and sc is not ONE:
                b = from_mons({tuple(fac): Fr(1)})
                return mul(sc, mk(op, (b,) + extra, attr))
        return mk(op, (x,) + extra, attr)

    return lift(f, t)


def reduce_(I, op, v, kw, npstyle=False):
    """Reduction op over v with numpy / pandas axis conventions."""
    t = A(I, v)
    axis = kw.pop("axis", None)
    for d in ("skipna", "numeric_only", "keepdims", "out", "min_count", "initial", "dtype"):
        if d in kw and d in ("skipna", "numeric_only") and (kw[d] is True and d == "skipna" or kw[d] is False and d == "numeric_only"):
            kw.pop(d)
        elif d in kw and d != "skipna" and kw[d] in (None, False, 0):
            kw.pop(d)
    if axis in ("index", "rows"):
        axis = 0
    if axis == "columns":
        axis = 1
    names, ex = [], []
    for k in sorted(kw):
        names.append(k)
        ex.append(I.term(kw[k]))
    if t.op == "ite":
        return lift(lambda x: I.term(reduce_(I, op, x, dict(kw, axis=axis), npstyle)), t)
    k, n = t.ty
    if k in ("list", "tuple", "set", "dict"):
        t = array_of(I, v)
        k, n = t.ty
    if axis == -1 and n:
        axis = n - 1
    if k == "ser" or n == 1:
        axis = None
    if k == "df":
        if npstyle and axis is None and op in ("any", "all", "min", "max"):
            t = values(t)
            k = "arr"
        elif npstyle and axis is None and op in ("sum", "mean") and False:
            pass
        elif axis == 0:
            axis = None
    if op in ("std", "var"):
        ddof = kw.get("ddof", None)
        if "ddof" not in kw:
            names.append("ddof")
            ex.append(num(1 if k in ("df", "ser") else 0))
    if op == "mean" and k == "arr" and not ex:
        if axis is None and n == 1:
            return div(vsum(t), app("len", t))
        if axis is None and n == 2:
            return div(vsum(t), mul(app("len", t), L().dimt(t, 1)))
        if axis in (0, 1) and n == 2:
            return div(axis_sum(t, axis), app("len", t) if axis == 0 else L().dimt(t, 1))
    if op == "sum" and not ex:
        if axis is None and k in ("arr", "cvx", "num", "ser"):
            return vsum(t)
        if axis in (0, 1) and k == "arr" and n == 2:
            return axis_sum(t, axis)
    if op in ("any", "all") and t.op == op and not ex and (len(t.args) == 1 or t.attr == ("a", "axis")) and t.args[0].ty[1] == 2:
        return batom(tm._node(op + "?", (values(t.args[0]),), None, ("bool", 0)))
    if op in ("any", "all") and t.ty == ("arr", 1) or op in ("any", "all") and k == "ser":
        i = fresh("num", 0, "i")
        vt = values(t)
        c = L().truth(I, elem1(vt, i))
        if op == "all":
            return I.bool_val(b_not(I.some(app("len", vt), i, b_not(c))))
        return I.bool_val(I.some(app("len", vt), i, c))
    attr = ("a",) + (("axis",) if axis is not None else ()) + tuple(names)
    ext = ((num(axis) if isinstance(axis, int) else I.term(axis),) if axis is not None else ()) + tuple(ex)
    if len(attr) == 1:
        attr = None
    if op in ("sum", "mean"):
        return scale_out(op, t, ext, attr)
    if op in ("max", "min") and k in NUMK:
        return t
    r = mk(op, (t,) + ext, attr)
    if op in ("any", "all") and r.ty[1] == 0:
        r = mk(op, (t,) + ext, attr, ("bool", 0))
        return batom(tm._node(op + "?", (t,), None, ("bool", 0)))
    return r


def axis_sum(t, axis):
    def f(x):
        mons = as_mons(x)
        out = ZERO
        for m, c in mons.items():
            sc, fac = num(c), []
            for a, e in m:
                if a.ty[1] == 0:
                    sc = mul(sc, powr(a, e))
                else:
                    fac.append((a, e))
            if not fac:
                return tm._node("sum", (x, num(axis)), ("a", "axis"), ("arr", 1))
            b = from_mons({tuple(fac): Fr(1)})
            if b.ty[1] != 2:
                return tm._node("sum", (x, num(axis)), ("a", "axis"), ("arr", 1))
            if b.op == "T":
                b, ax = b.args[0], 1 - axis
            else:
                ax = axis
            out = add(out, mul(sc, tm._node("sum", (b, num(ax)), ("a", "axis"), ("arr", 1))))
        return out

    return lift(f, t)


EPUSH = {"abs", "exp", "log", "isnull", "isinf", "floor", "ceil", "rint", "sign"}


def elem1(t, i):
    """Element i of a 1-D array term, pushed through elementwise operators."""
    if t.op == "poly":
        arrs = {a for c, m in t.attr for a, e in m if a.ty[1] == 1}
        return subst(t, {a: elem1(a, i) for a in arrs})
    if t.op in ("e<0", "e<=0", "e==0", "e!=0", "e>0", "e>=0") and t.args[0].ty[1] == 1:
        return cmp0(elem1(t.args[0], i), t.op[1:-1])
    if t.op in EPUSH and t.args[0].ty[1] == 1:
        return app(t.op, elem1(t.args[0], i), attr=t.attr, ty=("bool", 0) if t.op in ("isnull", "isinf") else ("num", 0))
    if t.op == "grp":
        return elem1(t.args[0], i)
    if t.op == "values" and t.args[0].op in EPUSH | {"e<0", "e<=0", "e==0", "e!=0", "e>0", "e>=0"}:
        a = t.args[0]
        return elem1(tm._node(a.op, (app("values", a.args[0]),) + a.args[1:], a.attr, ("arr", 1)), i)
    if t.op == "values" and t.args[0].op == "poly":
        a = t.args[0]
        sers = {x for c, m in a.attr for x, e in m if x.ty[1] == 1}
        return subst(a, {x: elem1(app("values", x) if x.ty[0] == "ser" else x, i) for x in sers})
    return L().getitem_t(t, i)


# ------------------------------------------------------------------ arrays
def array_of(I, v):
    """np.array(v)."""
    if isinstance(v, VIte):
        return ite(v.c, array_of(I, v.a), array_of(I, v.b))
    if isinstance(v, (int, float)):
        return const(v) if not isinstance(v, bool) else num(int(v))
    if isinstance(v, Ref):
        h = I.get(v)
        if isinstance(h, HCell):
            return array_of_t(I, h.t)
        if isinstance(h, HList):
            if h.kind == "dict" or h.kind == "set":
                return app("asarray", I.term(v), ty=("arr", 0))
            return array_parts(I, h.parts)
    if isinstance(v, Tup):
        return array_parts(I, [("i", TRUE, x) for x in v.items])
    return array_of_t(I, I.term(v))


def array_of_t(I, t):
    if t.op == "ite":
        return lift(lambda x: array_of_t(I, x), t)
    if t.op == "spread":
        t = t.args[0]
        if t.ty[1] is None:
            return app("asarray", tm._node("spread", (t,), None, t.ty), ty=("arr", 1))
    k = t.ty[0]
    if k in ("ser", "df", "idx"):
        return values(t)
    if k in ("arr", "cvx", "num", "bool"):
        return t
    if t.op in ("list", "tuple"):
        return array_parts(I, I.from_list_term(t).parts if t.op == "list" else [("i", TRUE, x) for x in t.args])
    if k == "list":
        n = None
        if t.op == "sym" and t.attr[1] in ("numlist", "pairlist"):
            n = 1 if t.attr[1] == "numlist" else 2
        if t.op == "tolist":
            return t.args[0]
        return app("asarray", t, ty=("arr", n))
    return app("asarray", t, ty=("arr", t.ty[1]))


def array_parts(I, parts):
    if len(parts) == 1 and parts[0][0] == "s" and parts[0][1] is TRUE:
        t = parts[0][2]
        if t.op == "seg":
            n, b = t.args
            body = b.args[0]
            if body.op == "list" and len(body.args) == 1 and body.args[0].op not in ("guarded", "seg", "spread", "pair"):
                i = fresh("num", 0, "i")
                x = inst(b, i).args[0]
                x = L().strip_float(x)
                if x.op in ("list", "tuple"):
                    x = array_of_t(I, x)
                return L().amap(n, i, x)
            return app("asarray", app("list", t, ty=("list", None)), ty=("arr", 1))
        return array_of_t(I, t)
    if all(p[0] == "i" and p[1] is TRUE for p in parts):
        items = [array_of(I, p[2]) if not is_host(p[2]) or isinstance(p[2], (int, float)) else const(p[2]) for p in parts]
        items = [L().strip_float(x) for x in items]
        nds = {x.ty[1] for x in items}
        if nds == {1}:
            return app("vstack", *items)
        n = nds.pop() + 1 if len(nds) == 1 and None not in nds else None
        if any(x.ty[0] == "cvx" for x in items):
            return app("arrlit", *items, ty=("cvx", n))
        return app("arrlit", *items, ty=("arr", n))
    t = I.term(I.alloc(HList(parts)))
    return app("asarray", t, ty=("arr", 1))


@simpl("asarray")
def _s_asarray(args, attr, ty):
    t, = args
    if t.ty[0] in ("arr",) and t.ty[1] is not None:
        return t
    return None


# substitution can expose list structure inside vstack etc.; nothing to do there


def column(t):
    if t.op == "flat" and t.args[0].op in ("col",):
        return t.args[0]
    return app("col", t)


@simpl("col")
def _s_col(args, attr, ty):
    t, = args
    if t.op == "poly":
        mons = as_mons(t)
        if all(sum(1 for a, e in m if a.ty[1] == 1) >= 1 and all(a.ty[1] in (0, 1) for a, e in m) for m in mons):
            out = ZERO
            for m, c in mons.items():
                p = num(c)
                for a, e in m:
                    p = mul(p, powr(app("col", a) if a.ty[1] == 1 else a, e))
                out = add(out, p)
            return out
    if t.op == "getitem" and False:
        return None
    return None


def reshape(I, t, shape):
    def f(x, s):
        dims = s.args if s.op == "tuple" else (s,)
        n = x.ty[1]
        if len(dims) == 1 and dims[0].ty[0] == "num":
            return ravel(x)
        if len(dims) == 2:
            one = [is_num(d) and num_val(d) == 1 for d in dims]
            if n == 1:
                if one[1]:
                    return column(x)
                if one[0]:
                    return L().transpose(column(x))
            if n == 2 and one[1] and x.op == "col":
                return x
            ln = app("len", x) if n == 2 else None
            if n == 2 and one[1] and is_num(L().dimt(x, 1)) and num_val(L().dimt(x, 1)) == 1:
                return x
        return app("reshape", x, s if s.op == "tuple" else app("tuple", s, ty=("tuple", None)))

    return lift(f, t, shape)


def ravel(x):
    def f(t):
        n = t.ty[1]
        if n in (0,):
            return app("arrlit", t, ty=("arr", 1))
        if n == 1:
            return values(t)
        if t.op == "col":
            return t.args[0]
        if t.op == "T" and t.args[0].op == "col":
            return t.args[0].args[0]
        return app("flat", values(t))

    return lift(f, x)


@simpl("flat")
def _s_flat(args, attr, ty):
    t, = args
    if t.ty[1] == 1:
        return t
    if t.op == "col":
        return t.args[0]
    if t.op == "poly":
        mons = as_mons(t)
        if all(all(a.ty[1] in (0,) or a.op == "col" for a, e in m) and any(a.op == "col" for a, e in m) for m in mons):
            return subst(t, {a: a.args[0] for m in mons for a, e in m if a.op == "col"})
    return None


@simpl("diag")
def _s_diag(args, attr, ty):
    t, = args
    if t.ty[0] in ("df",):
        return app("diag", values(t))
    if t.op == "T":
        return app("diag", t.args[0])
    if t.op == "poly" and t.ty[1] == 2:
        mons = as_mons(t)
        if all(all(a.ty[1] in (0, 2) for a, e in m) and any(a.ty[1] == 2 for a, e in m) for m in mons):
            out = ZERO
            for m, c in mons.items():
                p = num(c)
                for a, e in m:
                    sd = tm.side(a)
                    if a.op == "ones" and a.ty[1] == 2 and len(m) > 1:
                        continue
                    d = a.args[0] if sd == "col" else a.args[0].args[0] if sd == "row" else app("diag", a) if a.ty[1] == 2 else a
                    p = mul(p, powr(d, e))
                out = add(out, p)
            return out
    if t.op == "eye":
        return app("ones", t.args[0])
    if t.op == "diagm":
        return t.args[0]
    if t.op == "setdiag" and t.args[1].ty[1] == 1:
        return t.args[1]
    if t.op == "outer":
        return mul(*t.args)
    if t.op == "values" and t.args[0].op == "poly" and t.args[0].ty == ("df", 2):
        p = t.args[0]
        m = {a for c, mm_ in p.attr for a, e in mm_ if a.ty[0] == "df"}
        return app("diag", subst(p, {a: app("values", a) for a in m}))
    return None


def diag_of(t):
    def f(x):
        x = values(x)
        if x.ty[1] == 1:
            return app("diagm", x)
        if x.ty[1] == 2:
            return app("diag", x)
        return app("npdiag", x, ty=("arr", None))

    return lift(f, t)


@simpl("diagm")
def _s_diagm(args, attr, ty):
    t, = args
    if t.op == "ones":
        return app("eye", t.args[0])
    return None


@simpl("outer")
def _s_outer(args, attr, ty):
    a, b = args
    if b.dig < a.dig and False:
        return None
    return None


def where(I, c, x, y):
    def f(cc, a, b):
        if cc.op in ("e<0", "e<=0", "e==0", "e!=0", "e>0", "e>=0"):
            flip = {"e<0": ("e>=0", 1), "e<=0": ("e>0", 1), "e!=0": ("e==0", 1)}
            if cc.op in flip:
                cc = app(flip[cc.op][0], *cc.args, ty=cc.ty)
                a, b = b, a
            q, s = tm._prim_sign(cc.args[0])
            if s < 0 and cc.op != "e==0":
                cc = app({"e>0": "e>=0", "e>=0": "e>0"}[cc.op], neg(cc.args[0]), ty=cc.ty)
                a, b = b, a
            if cc.op == "e==0" and b.ty == ("arr", 2) and a.ty[1] in (0, 2):
                # the diagonal is chosen by comparing with the identity
                p = cc.args[0]
                d = tm.as_mons(p) if p.op == "poly" else {}
                if len(d) == 2 and d.get(()) == -1 and any(m and m[0][0].op == "eye" and k == 1 for m, k in d.items()):
                    return app("setdiag", b, a if a.ty[1] == 0 else app("diag", a, ty=("arr", 1)), ty=b.ty)
            # strict / non strict agree when the two branches agree at zero
            if cc.op == "e>=0" and _agree_at_zero(cc.args[0], a, b):
                cc = app("e>0", *cc.args, ty=cc.ty)
            if cc.op == "e>0" and not _agree_at_zero(cc.args[0], a, b):
                pass
            return app("where", cc, a, b)
        if cc is TRUE:
            return a
        if cc is FALSE:
            return b
        if cc.op == "BitAnd":
            return where(I, cc.args[0], where(I, cc.args[1], a, b), b)
        if cc.op == "BitOr":
            return where(I, cc.args[0], a, where(I, cc.args[1], a, b))
        return app("where", cc, a, b)

    return lift(f, c, x, y)


def _agree_at_zero(p, a, b):
    d = sub(a, b)
    if d is ZERO:
        return True
    q, s = tm._prim_sign(p)
    c, m, r = content(d)
    return r is q or sub(r, q) is ZERO or (d.op == q.op and d is q)


_MINOF = {}  # a term that is min(x, d) for a constant d: (x, d)


def maximum(I, a, b):
    for x, y in ((a, b), (b, a)):
        if is_num(x):
            r = _MINOF.get(y)
            if r is not None and num_val(r[1]) >= num_val(x):
                return neg(_maximum(I, neg(_maximum(I, r[0], x)), neg(r[1])))
    return _maximum(I, a, b)


def _maximum(I, a, b):
    if is_num(a) or (not is_num(b) and b.dig < a.dig):
        a, b = b, a  # one spelling of the tie
    d = sub(a, b)
    if L().scalar_cmp_ok(a) and L().scalar_cmp_ok(b) and (a.ty[0] in NUMK or b.ty[0] in NUMK) and a.ty[1] == 0 and b.ty[1] == 0:
        return ite(L().truth(I, cmp0(d, ">")), a, b)
    if "cvx" in (a.ty[0], b.ty[0]):
        x, y = sorted((a, b), key=lambda t: t.dig)
        return app("cvmax", x, y, ty=bcast_ty((a, b)))
    return where(I, L().elementwise_cmp(d, ">"), a, b)


def minimum(I, a, b):
    r = neg(_maximum(I, neg(a), neg(b)))
    for x, y in ((a, b), (b, a)):
        if is_num(x) and not is_num(y):
            _MINOF[r] = (y, x)
    return r


def norm(I, t, p):
    if p == 1:
        return vsum(app("abs", t))
    if p is None or p == 2 or p == "fro":
        return sqrt(vsum(powr(t, 2)))
    if isinstance(p, float) and p == float("inf"):
        return app("max", app("abs", t))
    return app("norm", t, I.term(p), ty=("cvx" if t.ty[0] == "cvx" else "num", 0))


@simpl("abs")
def _s_abs(args, attr, ty):
    t, = args
    if is_num(t):
        return num(abs(num_val(t)))
    if t.op == "abs" or t.op == "len":
        return t
    if t.op == "poly":
        q, s = tm._prim_sign(t)
        if len(t.attr) == 1:
            (c, m), = t.attr
            if len(m) == 1 and m[0][1].denominator == 1 and m[0][1] % 2 == 0:
                return mul(num(abs(c)), from_mons({m: Fr(1)}))
            return mul(num(abs(c)), tm._node("abs", (from_mons({m: Fr(1)}),), None, t.ty)) if abs(c) != 1 or c < 0 else None
        if s < 0 or q is not t:
            k = 1
            # factor the positive content
            mons = as_mons(t)
            nz = [m for m in mons if m]
            lead = min(nz, key=tm._mon_key) if nz else min(mons, key=tm._mon_key)
            k = abs(mons[lead])
            return mul(num(k), tm._node("abs", (q,), None, t.ty))
    return None


@simpl("exp")
def _s_exp(args, attr, ty):
    if args[0] is ZERO:
        return ONE
    if args[0].op == "log":
        return args[0].args[0]
    return None


@simpl("log")
def _s_log(args, attr, ty):
    if args[0] is ONE:
        return ZERO
    if args[0].op == "exp":
        return args[0].args[0]
    return None


@simpl("round")
def _s_round(args, attr, ty):
    if len(args) > 1 and is_num(args[1]) and num_val(args[1]) >= 12:
        return args[0]
    if len(args) > 1 and is_num(args[1]) and num_val(args[1]) == 0:
        return app("rint", args[0])
    if is_num(args[0]) and num_val(args[0]).denominator == 1:
        return args[0]
    return None


@simpl("rint")
def _s_rint(args, attr, ty):
    if is_num(args[0]) and num_val(args[0]).denominator == 1:
        return args[0]
    if args[0].op in ("rint", "trunc"):
        return args[0]
    return None


def _argext(op):
    @simpl(op)
    def f(args, attr, ty):
        t = args[0]
        if t.op == "amap" and t.args[1].op == "bind" and t.args[1].args[0].ty == ("arr", 2):
            # each entry a 1x1 matrix (the only kind that can be ordered)
            b = t.args[1]
            e = app("getitem", b.args[0], app("tuple", ZERO, ZERO, ty=("tuple", None)), ty=("num", 0))
            am = tm._node("amap", (t.args[0], tm._node("bind", (e,) + b.args[1:], b.attr, e.ty)) + t.args[2:], t.attr, ("arr", 1))
            return app(op, am, *args[1:], attr=attr, ty=("num", 0))


_argext("argmin")
_argext("argmax")


@simpl("trunc")
def _s_trunc(args, attr, ty):
    t = args[0]
    if is_num(t):
        v = num_val(t)
        return num(int(v))
    if t.op in ("rint", "trunc", "floor", "ceil", "len", "argmin", "argmax", "indexof"):
        return t
    if t.op == "sym" and t.attr[1] == "int":
        return t
    if t.op == "getitem" and t.args[0].op in ("rint", "trunc"):
        return t
    if t.op == "poly" and t.fv is not None and all(c.denominator == 1 and all(a.op in ("trunc", "rint", "len", "floor", "ceil") or (a.op == "sym" and a.attr[1] == "int") for a, e in m) and all(e > 0 and e.denominator == 1 for a, e in m) for c, m in t.attr):
        return t
    return None


@simpl("float")
def _s_float(args, attr, ty):
    t = args[0]
    if t.op == "float":
        return t
    if is_num(t):
        return t
    if t.op == "sym" and t.attr[1] == "float":
        return t
    return None


@simpl("isnull", "isinf")
def _s_isnull(args, attr, ty):
    if is_num(args[0]):
        return FALSE
    return None


@simpl("copy", "nan_to_num_")
def _s_copy(args, attr, ty):
    return args[0]


@simpl("values")
def _s_values2(args, attr, ty):
    r = L()._s_values(args, attr, ty)
    if r is not None:
        return r
    t = args[0]
    if t.op in ("nan_to_num",):
        return None
    if t.op == "where":
        return where(None, *(values(x) for x in t.args))
    if t.op == "poly" and t.ty[0] in ("ser", "df"):
        lab = {a for c, m in t.attr for a, e in m if a.ty[0] in ("ser", "df")}
        if len(lab) == 1:
            a, = lab
            return subst(t, {a: app("values", a)})
    if t.op in ("abs", "exp", "log", "isnull", "isinf", "rint", "round"):
        return mk(t.op, (app("values", t.args[0]),) + t.args[1:], t.attr)
    if t.op == "T":
        return L().transpose(app("values", t.args[0]))
    if t.op in ("e<0", "e>0", "e==0", "e<=0", "e>=0", "e!=0"):
        lab = t.args[0]
        return app(t.op, app("values", lab), ty=("arr", t.ty[1]))
    return None


# ------------------------------------------------------------------ signatures
SIGS = {
    # pandas
    "pct_change": "a periods=1 fill_method='pad' limit=None freq=None",
    "dropna": "a axis=0 how='any' thresh=None subset=None inplace=False ignore_index=False",
    "fillna": "a value=None method=None axis=None inplace=False limit=None",
    "ffill": "a axis=None inplace=False limit=None",
    "bfill": "a axis=None inplace=False limit=None",
    "mask": "a cond other=NAN inplace=False axis=None level=None",
    "join": "a other on=None how='left' lsuffix='' rsuffix='' sort=False validate=None",
    "drop": "a labels=None axis=0 index=None columns=None level=None inplace=False errors='raise'",
    "ewm": "a com=None span=None halflife=None alpha=None min_periods=0 adjust=True ignore_na=False axis=0",
    "rolling": "a window min_periods=None center=False",
    "sort_index": "a axis=0 level=None ascending=True inplace=False kind='quicksort'",
    "sort_values": "a by=None axis=0 ascending=True inplace=False kind='quicksort'",
    "reindex": "a labels=None index=None columns=None axis=None method=None",
    "rename": "a mapper=None index=None columns=None axis=None copy=True inplace=False",
    "shift": "a periods=1 freq=None axis=0 fill_value=None",
    "diff": "a periods=1 axis=0",
    "cov": "a min_periods=None ddof=1 numeric_only=False",
    "corr": "a method='pearson' min_periods=1 numeric_only=False",
    "cumprod": "a axis=None skipna=True",
    "cumsum": "a axis=None skipna=True",
    "astype": "a dtype copy=True",
    "isin": "a values",
    "replace": "a to_replace=None value=None inplace=False",
    "DataFrame": "data=None index=None columns=None dtype=None copy=None",
    "Series": "data=None index=None dtype=None name=None copy=None",
    "concat": "objs axis=0 join='outer' ignore_index=False keys=None",
    "to_csv": "a path_or_buf=None sep=',' na_rep='' float_format=None columns=None header=True index=True",
    # numpy
    "linspace": "start stop num=50 endpoint=True retstep=False dtype=None axis=0",
    "tile": "A reps",
    "append": "arr values axis=None",
    "npcov": "m y=None rowvar=True bias=False ddof=None",
    "npcorr": "m y=None rowvar=True",
    "nan_to_num": "x copy=True nan=0.0 posinf=None neginf=None",
    "sort": "a axis=-1 kind=None order=None",
    "argsort": "a axis=-1 kind=None order=None",
    "solve": "a b",
    "lstsq": "a b rcond='warn'",
    "inv": "a",
    "pinv": "a rcond=1e-15 hermitian=False",
    "eigh": "a UPLO='L'",
    "cholesky": "a",
    "concatenate": "arrays axis=0",
    "outer": "a b out=None",
    "floor": "x", "ceil": "x", "rint": "x", "exp": "x", "log": "x", "sign": "x", "isinf": "x", "isnull": "x",
    # scipy
    "squareform": "X force='no' checks=True",
    "linkage": "y method='single' metric='euclidean' optimal_ordering=False",
    "to_tree": "Z rd=False",
    "fmin": "x1 x2", "fmax": "x1 x2",
    "round": "a decimals=0 out=None",
    "argmax": "a axis=None out=None", "argmin": "a axis=None out=None",
    "minimize": "fun x0 args=() method=None jac=None hess=None hessp=None bounds=None constraints=() tol=None callback=None options=None",
    "ledoit_wolf": "X assume_centered=False block_size=1000",
    "oas": "X assume_centered=False",
    "fast_mcd": "X support_fraction=None cov_computation_method='EMPIRICAL' random_state=None",
}
_PSIG = {}


def sig(op):
    r = _PSIG.get(op)
    if r is None:
        names, defs = [], {}
        import ast

        for tok in SIGS[op].split():
            if "=" in tok:
                n, d = tok.split("=", 1)
                defs[n] = float("nan") if d == "NAN" else ast.literal_eval(d)
            else:
                n = tok
            names.append(n)
        r = _PSIG[op] = (names, defs)
    return r


AXIS = {"index": 0, "rows": 0, "columns": 1}


def bindsig(I, op, args, kw):
    names, defs = sig(op)
    out = {}
    for n, v in zip(names, args):
        out[n] = v
    for k, v in kw.items():
        out[k] = v
    if len(args) > len(names):
        for j, v in enumerate(args[len(names):]):
            out["#%d" % j] = v
    for n in list(out):
        v = out[n]
        if n == "axis" and isinstance(v, str) and v in AXIS:
            v = out[n] = AXIS[v]
        if n in defs:
            d = defs[n]
            if is_host(v) and (v == d and type(v) is type(d) or (d != d and v != v)) or (v is None and d is None):
                del out[n]
            elif isinstance(d, float) and is_host(v) and not isinstance(v, (bool, str)) and v is not None and v == d:
                del out[n]
            elif isinstance(d, tuple) and isinstance(v, Tup) and not v.items:
                del out[n]
            elif isinstance(v, T) and is_const(v):
                try:
                    if tm.py_of(v) == d and type(tm.py_of(v)) is type(d):
                        del out[n]
                except ValueError:
                    pass
    return out


def emit(I, op, args, kw, ty=None, conv=None):
    b = bindsig(I, op, args, kw)
    names, _ = sig(op)
    order = [n for n in names if n in b] + sorted(n for n in b if n not in names)
    ts = [(conv or I.term)(b[n]) if n == names[0] else I.term(b[n]) for n in order]
    attr = tuple(order)
    if len(attr) == 1 and attr[0] == names[0]:
        attr = None
    return mk(op, tuple(ts), attr, ty)


# ------------------------------------------------------------------ event helpers
def gfx(I, path, args, kw, base=None):
    ts = ([base] if base is not None else []) + [I.term(a) for a in args] + [I.term(kw[k]) for k in sorted(kw)]
    t = tm.mk("gfx", tuple(ts), (path, len(args), tuple(sorted(kw))), ("gfx", None))
    I.event("eff", t)
    return t


def generic(I, path, args, kw, base=None, ty=("?", None)):
    ts = ([base] if base is not None else []) + [I.term(a) for a in args] + [I.term(kw[k]) for k in sorted(kw)]
    I.may_raise(["*"], tm._node("callkey", tuple(ts), path, ("?", None))) if I.handlers and any(
        any("Exception" in I.exc_names(t)[0] for t in tys) for h in I.handlers for tys in h.types) else None
    return tm.mk("call", tuple(ts), (path, len(args), tuple(sorted(kw))), ty)


NONDET = ("numpy.random", "random.", "time.", "os.", "datetime.", "uuid.", "secrets.", "threading.", "multiprocessing.", "tempfile.")
GFX = ("matplotlib", "plotly", "scipy.cluster.hierarchy.dendrogram")
EXC_CALLS = {"inv": ["numpy.linalg.LinAlgError"], "cholesky": ["numpy.linalg.LinAlgError"], "solve": ["numpy.linalg.LinAlgError"],
             "eigh": ["numpy.linalg.LinAlgError"], "lstsq": ["numpy.linalg.LinAlgError"], "pinv": ["numpy.linalg.LinAlgError"]}


def is_gfx_path(p):
    return any(p.startswith(g) for g in GFX)


# ------------------------------------------------------------------ functions
def np_elem(op):
    def f(I, args, kw):
        return app(op, A(I, args[0]))

    return f


def f_sqrt(I, args, kw):
    return sqrt(A(I, args[0]))


def f_square(I, args, kw):
    return powr(A(I, args[0]), 2)


def f_dot(I, args, kw):
    a, b = values(A(I, args[0])), values(A(I, args[1]))
    return L().mm(a, b)


def f_matmul(I, args, kw):
    return L().mm(A(I, args[0]), A(I, args[1]))


def f_multi_dot(I, args, kw):
    ps = [values(A(I, p[2])) for p in L().parts_of(I, args[0])]
    r = ps[0]
    for x in ps[1:]:
        r = L().mm(r, x)
    return r


def shape_arg(I, v):
    """Canonical shape: scalar length for 1-D."""
    if isinstance(v, Tup):
        v = v if len(v.items) != 1 else v.items[0]
    elif isinstance(v, Ref) and isinstance(I.get(v), HList):
        it = [p[2] for p in I.get(v).parts]
        v = it[0] if len(it) == 1 else Tup(it)
    t = I.term(v)
    if t.op == "tuple" and len(t.args) == 1:
        return t.args[0]
    return t


def f_zeros(I, args, kw):
    t = shape_arg(I, args[0] if args else kw["shape"])
    dt = kw.get("dtype", args[1] if len(args) > 1 else None)
    if dt is not None and not isinstance(dt, Lib):
        return app("zeros", t, I.term(dt), attr=("shape", "dtype"), ty=("arr", 1))
    return lift(lambda x: app("zeros", x), t)


def f_ones(I, args, kw):
    return lift(lambda x: app("ones", x), shape_arg(I, args[0] if args else kw["shape"]))


def f_full(I, args, kw):
    sh = shape_arg(I, args[0] if args else kw["shape"])
    v = A(I, args[1] if len(args) > 1 else kw["fill_value"])

    def one(x):
        if x.ty[0] == "num" and v.ty[0] == "num" and not kw.get("dtype"):
            return L().amap(x, fresh("num", 0, "i"), v)
        return mul(v, app("ones", x))

    return lift(one, sh)


def shape_of_t(t):
    if t.ty[1] == 1:
        return app("len", t)
    if t.ty[1] == 2:
        return app("tuple", app("len", t), L().dimt(t, 1), ty=("tuple", None))
    return app("shape", t, ty=("tuple", None))


def f_like(op):
    def f(I, args, kw):
        t = A(I, args[0])
        return lift(lambda x: app(op, shape_of_t(x)), t)

    return f


@simpl("ones")
def _s_ones(args, attr, ty):
    s = args[0]
    if s.op == "tuple" and len(s.args) == 2 and is_num(s.args[1]) and num_val(s.args[1]) == 1:
        return app("col", app("ones", s.args[0]))
    return None


def f_eye(I, args, kw):
    return app("eye", A(I, args[0] if args else kw.get("N", kw.get("n"))))


def f_array(I, args, kw):
    v = args[0] if args else kw.get("object", kw.get("a"))
    t = array_of(I, v)
    dt = kw.get("dtype", args[1] if len(args) > 1 else None)
    if isinstance(dt, Lib) and dt.path in ("builtins.int", "numpy.int64", "numpy.int32"):
        return app("trunc", t)
    return t


def f_asarray(I, args, kw):
    v = args[0] if args else kw.get("a")
    if isinstance(v, Ref):
        h = I.get(v)
        if isinstance(h, HCell) and h.t.ty[0] == "arr":
            return v
        if isinstance(h, HCell) and h.t.ty[0] in ("ser", "df"):
            return L().view(I, v, values(h.t))
    return f_array(I, args, kw)


def f_diag(I, args, kw):
    return diag_of(A(I, args[0]))


def f_trace(I, args, kw):
    return vsum(app("diag", values(A(I, args[0]))))


def f_norm(I, args, kw):
    p = args[1] if len(args) > 1 else kw.get("ord", kw.get("p"))
    return norm(I, A(I, args[0]), p)


def f_nan_to_num(I, args, kw):
    return emit(I, "nan_to_num", args, {k: v for k, v in kw.items() if k != "copy"}, conv=lambda v: A(I, v))


def f_clip(I, args, kw):
    x = A(I, args[0])
    lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min", kw.get("lower")))
    hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max", kw.get("upper")))
    r = x
    if hi is not None:
        r = minimum(I, r, A(I, hi))
    if lo is not None:
        r = maximum(I, r, A(I, lo))
    return r


def f_maximum(I, args, kw):
    r = A(I, args[0])
    for a in args[1:]:
        r = maximum(I, r, A(I, a))
    return r


def f_minimum(I, args, kw):
    r = A(I, args[0])
    for a in args[1:]:
        r = minimum(I, r, A(I, a))
    return r


def f_where(I, args, kw):
    if len(args) == 1:
        return generic(I, "numpy.where", args, kw)
    c = I.term(args[0])
    if c.ty == ("bool", 0):
        return ite(L().truth(I, args[0]), A(I, args[1]), A(I, args[2]))
    if c.op == "ite":
        x, y = A(I, args[1]), A(I, args[2])
        return lift(lambda cc: where(I, cc, x, y), c)
    return where(I, c, A(I, args[1]), A(I, args[2]))


def nan_free(t, seen=None):
    """Every table it is computed from had its missing values removed."""
    seen = set() if seen is None else seen
    if t in seen or t.op in ("index", "columns", "len") or t.op == "dropna" and not t.attr:
        return True
    seen.add(t)
    if t.op in ("sym", "fresh") and (t.ty[0] in ("df", "ser", "?") or t.ty == ("arr", 2)):
        return False
    if t.op in ("shift", "pct_change", "mask", "log"):
        return False
    return all(nan_free(c, seen) for c in tm.children(t))


def f_fm(op):
    def f(I, args, kw):
        a, b = A(I, args[0]), A(I, args[1])
        if nan_free(a) and nan_free(b):
            return minimum(I, a, b) if op == "fmin" else maximum(I, a, b)
        x, y = sorted((a, b), key=lambda t: t.dig)
        return app(op, x, y)

    return f


def f_shape(I, args, kw):
    return L().shape(I, args[0])


def f_reshape(I, args, kw):
    return reshape(I, values(A(I, args[0])), I.term(args[1] if len(args) > 1 else kw["newshape"]))


def f_ravel(I, args, kw):
    return ravel(A(I, args[0]))


def f_red(op):
    def f(I, args, kw):
        kw = dict(kw)
        if len(args) > 1:
            kw["axis"] = args[1]
        v = args[0]
        if isinstance(v, Ref) and isinstance(I.get(v), HList) and op in ("any", "all") and "axis" not in kw:
            return b_any(I, [v], {}) if op == "any" else b_all(I, [v], {})
        t = A(I, v)
        if op in ("any", "all") and t.ty == ("bool", 0):
            return I.bool_val(L().truth(I, v))
        return reduce_(I, op, v, kw, npstyle=True)

    return f


def f_emit(op, pick=None, conv=None):
    def f(I, args, kw):
        args = list(args)
        c = (lambda v: values(A(I, v))) if conv == "values" else (lambda v: A(I, v)) if conv == "num" else None
        if conv == "values":
            args = [values(A(I, a)) for a in args]
            kw = {k: values(A(I, v)) if k in ("a", "b") else v for k, v in kw.items()}
        if op in EXC_CALLS:
            b = bindsig(I, op, args, kw)
            I.may_raise(EXC_CALLS[op], tm._node("callkey", tuple(I.term(b[k]) for k in sorted(b) if k != "rcond"), op, ("?", None)))
        ty = None
        if op == "solve":
            b = bindsig(I, op, args, kw)
            ty = ("arr", I.term(b["b"]).ty[1])
        if op == "lstsq":
            b = bindsig(I, op, args, kw)
            x = mk("lstsq", (I.term(b["a"]), I.term(b["b"])), None, ("tuple", None))
            return x
        return emit(I, op, args, kw, ty=ty, conv=c)

    return f


@typ("lstsq")
def _ty_lstsq(args, attr):
    return ("tuple", None)


def f_isscalar(I, args, kw):
    v = args[0]
    if is_host(v):
        return v is not None
    k = I.kind(v)
    if k in ("num", "bool", "str"):
        return True
    if k == "?":
        t = I.term(v)
        if t.op == "ite":
            return I.bool_val(lift(lambda x: I.term(f_isscalar(I, [I.unterm(x)], {})), t))
        return batom(app("isscalar", t, ty=("bool", 0)))
    return False


def f_arange(I, args, kw):
    r = b_range(I, args, kw)
    ps = L().parts_of(I, r)
    if len(args) == 1:
        return app("arange", A(I, args[0]))
    if len(args) == 2 and args[0] == 0:
        return app("arange", A(I, args[1]))
    if len(args) == 3 and args[0] == 0 and args[2] == 1:
        return app("arange", A(I, args[1]))
    return app("arange3", *[A(I, a) for a in args], ty=("arr", 1))


def f_vstack(I, args, kw):
    t = array_of(I, args[0])
    return t


def f_column_stack(I, args, kw):
    return L().transpose(array_of(I, args[0]))


def f_isnan(I, args, kw):
    t = A(I, args[0])
    r = lift(lambda x: app("isnull", x, ty=("bool", 0) if x.ty[0] == "num" or x.ty[1] == 0 else x.ty if x.ty[0] != "?" else None), t)
    if r.ty == ("bool", 0) and r.op != "ite" and r.op != "c":
        return batom(r)
    return r


def f_isinf(I, args, kw):
    t = A(I, args[0])
    r = lift(lambda x: app("isinf", x, ty=("bool", 0) if x.ty[0] == "num" else x.ty), t)
    if r.ty == ("bool", 0) and r.op != "ite" and r.op != "c":
        return batom(r)
    return r


def f_copy(I, args, kw):
    return array_of(I, args[0])


def f_outer(I, args, kw):
    return lift(lambda a, b: mul(column(a), L().transpose(column(b))), ravel(A(I, args[0])), ravel(A(I, args[1])))


@simpl("tile")
def _s_tile(args, attr, ty):
    t, r = args
    r = r.args if r.op == "tuple" else (r,)
    if t.op == "ones":
        return None
    if t.ty == ("arr", 2) and L()._one_sided(t, "col") and (len(r) == 1 or len(r) == 2 and is_num(r[0]) and num_val(r[0]) == 1):
        return mul(t, app("ones", app("tuple", app("len", t), r[-1], ty=("tuple", None))))
    if len(r) == 2 and is_num(r[1]) and num_val(r[1]) == 1:
        if t.ty == ("arr", 1):
            t = L().transpose(column(t))
        if t.ty == ("arr", 2) and L()._one_sided(t, "row"):
            return mul(t, app("ones", app("tuple", r[0], L().dimt(t, 1), ty=("tuple", None))))
    return None


@tm.simpl("pct_change")
def s_pct(args, attr, ty):
    """Without filling, the relative change is the quotient of a table and its shift."""
    if attr and "fill_method" in attr and args[attr.index("fill_method")] is NONE and set(attr) <= {"a", "fill_method", "periods"}:
        x = args[0]
        if x.ty[0] not in ("df", "ser"):
            return None
        if "periods" in attr:
            sh = tm.mk("shift", (x, args[attr.index("periods")]), ("a", "periods"))
        else:
            sh = tm.mk("shift", (x,), None)
        return tm.sub(tm.div(x, sh), ONE)
    return None


@tm.simpl("drop")
def s_drop(args, attr, ty):
    """Removing labels commutes with scalar arithmetic on one table."""
    x = args[0]
    if x.op != "poly":
        return None
    at = {a for c, m in x.attr for a, e in m if a.ty[1] != 0 or a.ty[0] not in NUMK}
    if len(at) != 1:
        return None
    a = at.pop()
    if a.ty[0] not in ("ser", "df") or a.ty[0] != x.ty[0] or a.op == "poly":
        return None
    return subst(x, {a: tm.mk("drop", (a,) + tuple(args[1:]), attr, ty)})


def s_table(op, args, attr, ty):
    """Scalar factors of the data are scalar factors of the table."""
    if not attr or attr[0] != "data" or args[0].op != "poly" or args[0].ty[0] != "arr" or "dtype" in attr:
        return None
    c, cm, p = tm.content(args[0])
    out = tuple((a, e) for a, e in cm if a.ty[1] == 0)
    k = tm.from_mons({out: Fr(1)})
    rest = tm.mul(args[0], tm.from_mons({tuple((a, -e) for a, e in out): Fr(1)}))
    k = tm.mul(k, num(c))
    rest = tm.mul(rest, num(1 / c))
    if tm.is_num(k) and tm.num_val(k) == 1:
        return None
    return tm.mul(k, tm.mk(op, (rest,) + tuple(args[1:]), attr, ty))


tm.SIMPL["DataFrame"] = lambda args, attr, ty: s_table("DataFrame", args, attr, ty)
tm.SIMPL["Series"] = lambda args, attr, ty: s_table("Series", args, attr, ty)


def f_df(I, args, kw):
    b = bindsig(I, "DataFrame", args, kw)
    b.pop("copy", None)
    if set(b) == {"data"}:
        v = b["data"]
        k = I.kind(v)
        if k == "df":
            # shares data with the source frame
            if isinstance(v, Ref) and isinstance(I.get(v), HCell):
                h = I.get(v)
                return I.alloc(HCell(h.t, None, h.data, v.id))
            return I.term(v)
        t = I.term(v)
        if t.op == "ite":
            return lift(lambda x: I.term(f_df(I, [x], {})), t)
        if isinstance(v, Ref) and isinstance(I.get(v), HCell) and k == "arr":
            return I.alloc(HCell(app("DataFrame", t, attr=("data",)), None, I.get(v).data, None))
    names = ["data", "index", "columns", "dtype"]
    order = [n for n in names if n in b]
    ts = []
    for n in order:
        x = b[n]
        if n == "data" and I.kind(x) in ("list", "tuple"):
            ts.append(array_of(I, x))
        else:
            ts.append(I.term(x))
    return app("DataFrame", *ts, attr=tuple(order))


def f_series(I, args, kw):
    b = bindsig(I, "Series", args, kw)
    b.pop("copy", None)
    if set(b) == {"data"}:
        v = b["data"]
        if I.kind(v) == "ser":
            if isinstance(v, Ref) and isinstance(I.get(v), HCell):
                h = I.get(v)
                return I.alloc(HCell(h.t, None, h.data, v.id))
            return I.term(v)
    names = ["data", "index", "dtype", "name"]
    order = [n for n in names if n in b]
    ts = []
    for n in order:
        x = b[n]
        ts.append(array_of(I, x) if n == "data" and I.kind(x) in ("list", "tuple", "gen") else I.term(x))
    return app("Series", *ts, attr=tuple(order))


def f_fill_diagonal(I, args, kw):
    a, v = args[0], A(I, args[1])
    t = I.term(a)
    if isinstance(a, Ref):
        I.mutate_cell(a, app("setdiag", t, v, ty=t.ty), "data")
    return None


def f_issubdtype(I, args, kw):
    t, k = I.term(args[0]), args[1]
    if isinstance(k, Lib) and k.path == "numpy.number" and t.op == "attr" and t.attr == "dtype":
        x = t.args[0]
        while x.op in ("reshape", "asarray", "values", "col", "flat", "T", "copy"):
            x = x.args[0]
        if x.op == "sym" and (x.ty[0] == "arr" or x.attr[1] == "numlist" or x.ty[0] == "numlist"):
            return TRUE
    return batom(app("issubdtype", *[I.term(a) for a in args], ty=("bool", 0)))


# ---- cvxpy
def _cvty(t):
    return t


def cv_const(I, v):
    return A(I, v)


def f_cvvar(I, args, kw):
    sh = args[0] if args else kw.get("shape", None)
    shp = None
    n = 0
    if isinstance(sh, Tup):
        n = len(sh.items)
        shp = I.term(sh.items[0]) if n == 1 else I.term(sh) if n else None
    elif sh is not None:
        t = I.term(sh)
        if t.op == "tuple":
            n = len(t.args)
            shp = t.args[0] if n == 1 else t if n else None
        else:
            n = 1
            shp = t
    I.uid = getattr(I, "uid", 0) + 1
    flags = []
    for k in sorted(kw):
        if k in ("shape", "name"):
            continue
        v = kw[k]
        if v is False or v is None:
            continue
        flags.append((k, v) if is_host(v) else (k, I.term(v).dig.hex()))
    return tm._node("var", (shp,) if shp is not None else (), (I.uid, tuple(flags)), ("cvx", n))


def f_cvpar(I, args, kw):
    flags = {k: v for k, v in kw.items() if k not in ("shape", "value", "name") and v not in (False, None)}
    name = kw.get("name", args[1] if len(args) > 1 else None)
    val = kw.get("value")
    attrs = {"name": name, "value": I.term(val) if val is not None else NONE, "nonneg": bool(flags.get("nonneg") or flags.get("pos"))}
    for k in flags:
        attrs["flag_" + k] = True
    if val is not None:
        L().check_param(I, attrs, val)
    ref = I.alloc(HLib("param", attrs))
    s = tm._node("par", (), (ref.id, name if isinstance(name, str) else None), ("cvx", 0))
    attrs = dict(attrs, sym=s)
    I.put(ref, HLib("param", attrs))
    return s


def f_quad_form(I, args, kw):
    x = A(I, args[0] if args else kw["x"])
    P = values(A(I, args[1] if len(args) > 1 else kw["P"]))
    if P.ty[1] is None:
        P = app("asmat", P, ty=("arr", 2))
    return L().mm(L().mm(x, P), x)


def f_objective(sense):
    def f(I, args, kw):
        t = A(I, args[0] if args else kw["expr"])
        return app("objective", t if sense == "min" else neg(t), attr=sense, ty=("cvxobj", None))

    return f


def f_problem(I, args, kw):
    obj = I.term(args[0] if args else kw["objective"])
    cons = args[1] if len(args) > 1 else kw.get("constraints")
    parts = L().parts_of(I, cons) if cons is not None else []
    cl = I.alloc(HList(parts))
    sense = "min"
    if obj.op == "objective":
        sense = obj.attr
    return I.alloc(HLib("problem", {"obj": obj, "cons": cl, "k": None, "sense": sense}))


def unpar(I, t):
    """Replace parameters by their current values."""
    vs, ps = set(), set()
    L().leaf_terms(t, vs, ps)
    mp = {p: I.term(I.get(Ref(p.attr[0])).attrs["value"]) for p in ps}
    return subst(t, mp) if mp else t


def cvx_solve(I, ref, args, kw):
    h = I.get(ref)
    obj = h.attrs["obj"]
    o = lift(lambda x: x.args[0] if x.op == "objective" else x, obj)
    cons = I.term(h.attrs["cons"])
    o2, c2 = unpar(I, o), unpar(I, cons)
    kk = []
    kws = dict(kw)
    if args:
        kws["solver"] = args[0]
    if kws.get("solver", 1) is None:
        del kws["solver"]
    if kws.get("verbose", 1) is False:
        del kws["verbose"]
    kt = tm._node("kwargs", tuple(I.term(kws[k]) for k in sorted(kws)), tuple(sorted(kws)), ("kwargs", None))
    p = tm._node("problem", (o2, c2, kt), None, ("problem", None))
    vs = set()
    L().vars_in(o2, vs, set())
    L().vars_in(c2, vs, set())
    for kind in ("cvxpy.DCPError", "cvxpy.SolverError", "TypeError", "ValueError"):
        if I.handlers:
            I.may_raise([kind], p)
    prob = L().Prob(p, frozenset(vs), I.loc)
    I.st.solves = I.st.solves + ((I.st.pc, prob),)
    h = I.get(ref)
    at = dict(h.attrs)
    at["k"] = p
    I.put(ref, HLib("problem", at))
    I.event("solve", p)
    return tm._node("optval", (p,), None, ("num", 0))


def f_minimize(I, args, kw):
    b = bindsig(I, "minimize", args, kw)
    names, _ = sig("minimize")
    order = [n for n in names if n in b]
    ts = []
    for n in order:
        v = b[n]
        if n == "x0":
            ts.append(array_of(I, v))
        elif n == "args" and not isinstance(v, Tup):
            ts.append(I.term(v))
        else:
            ts.append(I.term(v))
    t = tm._node("minimize", tuple(ts), tuple(order), ("optres", None))
    I.event("solve", t)
    return t


# ---- misc library
def warning_filter(path, args, kw):
    """Predicate of the warnings that an "ignore" filter of literals silences, None for any other filter."""
    names = ["action", "category"] if path.endswith("simplefilter") else ["action", "message", "category"]
    b = dict(zip(names, args))
    b.update(kw)
    if b.pop("action", None) != "ignore" or set(b) - {"message", "category"}:
        return None
    start, kind = b.get("message", ""), b.get("category")
    if not isinstance(start, str):
        return None

    def silent(message, cat):
        if start and not (isinstance(message, str) and re.match(start, message, re.I)):
            return False
        here = getattr(cat, "path", "builtins.UserWarning")
        return kind is None or getattr(kind, "path", "") in ("builtins.Warning", here)
    return silent


def f_warn(I, args, kw):
    cat = args[1] if len(args) > 1 else kw.get("category")
    if any(f(args[0] if args else kw.get("message"), cat) for fs in I.quiet for f in fs):
        return None
    I.event("warn", I.term(cat) if cat is not None else NONE)
    return None


def f_copycopy(I, args, kw):
    v = args[0]
    if isinstance(v, VIte):
        return I.branch(v.c, lambda: f_copycopy(I, [v.a], {}), lambda: f_copycopy(I, [v.b], {}))
    if isinstance(v, Ref):
        h = I.get(v)
        if isinstance(h, HObj):
            return I.alloc(HObj(h.cls, dict(h.attrs)))
        if isinstance(h, HList):
            return I.alloc(HList(h.parts, h.kind))
        if isinstance(h, HCell):
            return I.alloc(HCell(h.t))
        if isinstance(h, HLib):
            return I.alloc(HLib(h.kind, dict(h.attrs)))
    return v


def f_deepcopy(I, args, kw, memo=None):
    v = args[0]
    memo = {} if memo is None else memo
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        h = I.get(v)
        if isinstance(h, HObj):
            r = I.alloc(HObj(h.cls, {}))
            memo[v.id] = r
            I.put(r, HObj(h.cls, {k: f_deepcopy(I, [x], {}, memo) for k, x in h.attrs.items()}))
            return r
        if isinstance(h, HList):
            r = I.alloc(HList([(p[0], p[1], f_deepcopy(I, [p[2]], {}, memo)) for p in h.parts], h.kind))
            memo[v.id] = r
            return r
        if isinstance(h, HCell):
            return I.alloc(HCell(h.t))
        return v
    if isinstance(v, Tup):
        return Tup([f_deepcopy(I, [x], {}, memo) for x in v.items])
    return v


def f_open(I, args, kw):
    I.event("file", app("open", *[I.term(a) for a in args], *[I.term(kw[k]) for k in sorted(kw)]))
    mode = args[1] if len(args) > 1 else kw.get("mode", "r")
    return I.alloc(HLib("file", {"name": args[0] if args else kw.get("file"), "mode": mode}))


def f_jsondump(I, args, kw):
    I.event("file", app("json.dump", *[I.term(a) for a in args], *[I.term(kw[k]) for k in sorted(kw)],
                        attr=tuple(sorted(kw))))
    return None


def f_itemgetter(I, args, kw):
    ks = list(args)

    def g(I2, a, k2):
        if len(ks) == 1:
            return L().getitem(I2, a[0], ks[0])
        return Tup([L().getitem(I2, a[0], k) for k in ks])

    return Intr("itemgetter(%s)" % ",".join(str(k) for k in ks), g)


def f_partial(I, args, kw):
    f0, a0, k0 = args[0], list(args[1:]), dict(kw)
    return Intr("partial", lambda I2, a, k: I2.call(f0, a0 + a, dict(k0, **k)))


def f_reduce(I, args, kw):
    f0, seq = args[0], args[1]
    ps = L().parts_of(I, seq)
    if all(p[0] == "i" and p[1] is TRUE for p in ps):
        items = [p[2] for p in ps]
        acc = args[2] if len(args) > 2 else items.pop(0)
        for x in items:
            acc = I.call(f0, [acc, x], {})
        return acc
    if len(args) > 2:
        # accumulate through the generic loop summary: sum-like reductions only
        pass
    return I.unknown("reduce")


def f_chain(I, args, kw):
    parts = []
    for a in args:
        parts += L().parts_of(I, a)
    return I.alloc(HList(parts, "gen"))


def opfn(op):
    return lambda I, args, kw: I.binop(op, args[0], args[1])


def cmpfn(op):
    return lambda I, args, kw: I.compare(op, args[0], args[1])


FUNCS = {}


def reg(paths, f):
    for p in paths.split():
        FUNCS[p] = f


for _p in ("numpy", "cvxpy"):
    reg("%s.abs %s.absolute" % (_p, _p), np_elem("abs"))
    reg("%s.exp" % _p, np_elem("exp"))
    reg("%s.log" % _p, np_elem("log"))
    reg("%s.sqrt" % _p, f_sqrt)
    reg("%s.square" % _p, f_square)
    reg("%s.sum" % _p, f_red("sum"))
    reg("%s.mean" % _p, f_red("mean"))
    reg("%s.max" % _p, f_red("max"))
    reg("%s.min" % _p, f_red("min"))
    reg("%s.maximum" % _p, f_maximum)
    reg("%s.minimum" % _p, f_minimum)
    reg("%s.diag" % _p, f_diag)
    reg("%s.trace" % _p, f_trace)
    reg("%s.outer" % _p, f_outer)
    reg("%s.multiply" % _p, opfn("Mult*"))
    reg("%s.matmul" % _p, f_matmul)
    reg("%s.vstack" % _p, f_vstack)
    reg("%s.cumsum" % _p, f_emit("cumsum"))


def f_multiply(I, args, kw):
    return mul(A(I, args[0]), A(I, args[1]))


reg("numpy.multiply cvxpy.multiply np.mul", f_multiply)
reg("math.sqrt", f_sqrt)
reg("math.exp", np_elem("exp"))
reg("math.log", np_elem("log"))
reg("math.fabs", np_elem("abs"))
reg("math.isnan numpy.isnan pandas.isnull pandas.isna", f_isnan)
reg("numpy.isinf math.isinf", f_isinf)
reg("numpy.log1p", lambda I, a, k: app("log", add(ONE, A(I, a[0]))))
reg("numpy.expm1", lambda I, a, k: sub(app("exp", A(I, a[0])), ONE))
reg("numpy.power math.pow cvxpy.power", lambda I, a, k: power(A(I, a[0]), A(I, a[1])))
reg("numpy.add operator.add", lambda I, a, k: I.binop("Add", a[0], a[1]))
reg("numpy.subtract operator.sub", lambda I, a, k: I.binop("Sub", a[0], a[1]))
reg("numpy.divide numpy.true_divide operator.truediv", lambda I, a, k: I.binop("Div", a[0], a[1]))
reg("operator.mul", lambda I, a, k: I.binop("Mult", a[0], a[1]))
reg("numpy.negative operator.neg", lambda I, a, k: neg(A(I, a[0])))
reg("operator.matmul", f_matmul)
reg("operator.itemgetter", f_itemgetter)
reg("functools.partial", f_partial)
reg("functools.reduce", f_reduce)
reg("itertools.chain", f_chain)
reg("numpy.greater operator.gt", cmpfn("Gt"))
reg("numpy.less operator.lt", cmpfn("Lt"))
reg("numpy.greater_equal operator.ge", cmpfn("GtE"))
reg("numpy.less_equal operator.le", cmpfn("LtE"))
reg("numpy.equal operator.eq", cmpfn("Eq"))
reg("numpy.floor math.floor", np_elem("floor"))
reg("numpy.ceil math.ceil", np_elem("ceil"))
reg("numpy.rint", np_elem("rint"))
reg("numpy.sign", np_elem("sign"))
reg("numpy.trunc math.trunc numpy.fix", np_elem("trunc"))
reg("numpy.round numpy.around", f_emit("round", conv="num"))
reg("numpy.dot numpy.inner numpy.vdot", f_dot)
reg("numpy.linalg.multi_dot", f_multi_dot)
reg("numpy.zeros numpy.empty", f_zeros)
reg("numpy.ones", f_ones)
reg("numpy.full", f_full)
reg("numpy.zeros_like", f_like("zeros"))
reg("numpy.ones_like", f_like("ones"))
reg("numpy.eye numpy.identity", f_eye)
reg("numpy.array", f_array)
reg("numpy.fromiter", f_array)
reg("numpy.asarray numpy.asanyarray numpy.ascontiguousarray", f_asarray)
reg("numpy.copy", f_copy)
reg("numpy.amax", f_red("max"))
reg("numpy.amin", f_red("min"))
reg("numpy.nanmax", f_red("nanmax"))
reg("numpy.nanmean", f_red("nanmean"))
reg("numpy.nansum", f_red("nansum"))
reg("numpy.prod", f_red("prod"))
reg("numpy.std", f_red("std"))
reg("numpy.var", f_red("var"))
reg("numpy.any", f_red("any"))
reg("numpy.all", f_red("all"))
reg("numpy.median", f_red("median"))
reg("numpy.count_nonzero", lambda I, a, k: vsum(app("e!=0", A(I, a[0]), ty=A(I, a[0]).ty)))
reg("numpy.linalg.norm cvxpy.norm cvxpy.pnorm", f_norm)
reg("cvxpy.norm1", lambda I, a, k: norm(I, A(I, a[0]), 1))
reg("cvxpy.norm2", lambda I, a, k: norm(I, A(I, a[0]), 2))
reg("cvxpy.sum_squares", lambda I, a, k: vsum(powr(A(I, a[0]), 2)))
reg("cvxpy.pos", lambda I, a, k: maximum(I, A(I, a[0]), ZERO))
reg("cvxpy.neg", lambda I, a, k: maximum(I, neg(A(I, a[0])), ZERO))
reg("cvxpy.quad_form", f_quad_form)
reg("cvxpy.Variable", f_cvvar)
reg("cvxpy.Parameter", f_cvpar)
reg("cvxpy.Minimize", f_objective("min"))
reg("cvxpy.Maximize", f_objective("max"))
reg("cvxpy.Problem", f_problem)
reg("cvxpy.Constant", lambda I, a, k: A(I, a[0]))
reg("numpy.nan_to_num", f_nan_to_num)
reg("numpy.clip", f_clip)
reg("numpy.where", f_where)
reg("numpy.fmin", f_fm("fmin"))
reg("numpy.logical_and", lambda I, a, k: L().binop(I, "BitAnd", a[0], a[1]))
reg("numpy.logical_or", lambda I, a, k: L().binop(I, "BitOr", a[0], a[1]))
reg("numpy.logical_not", lambda I, a, k: L().invert(I, a[0]))
reg("numpy.fmax", f_fm("fmax"))
reg("numpy.shape", f_shape)
reg("numpy.size", lambda I, a, k: L().getattr_lib(I, a[0], "size"))
reg("numpy.ndim", lambda I, a, k: L().getattr_lib(I, a[0], "ndim"))
reg("numpy.reshape", f_reshape)
reg("numpy.ravel", f_ravel)
reg("numpy.squeeze", lambda I, a, k: squeeze(A(I, a[0])))
reg("numpy.transpose", lambda I, a, k: L().transpose(A(I, a[0])))
reg("numpy.isscalar", f_isscalar)
reg("numpy.arange", f_arange)
reg("numpy.row_stack", f_vstack)
reg("numpy.column_stack", f_column_stack)
reg("numpy.fill_diagonal", f_fill_diagonal)
reg("numpy.issubdtype", f_issubdtype)
reg("numpy.diagonal", lambda I, a, k: app("diag", values(A(I, a[0]))))
reg("numpy.float64 numpy.float32 numpy.int64", lambda I, a, k: A(I, a[0]))
reg("scipy.spatial.distance.squareform", f_emit("squareform", conv="values"))
reg("scipy.cluster.hierarchy.linkage", f_emit("linkage", conv="num"))
reg("scipy.cluster.hierarchy.to_tree", f_emit("to_tree"))
reg("scipy.optimize.minimize", f_minimize)
for _n in ("linspace", "tile", "append", "sort", "argsort", "argmax", "argmin", "concatenate", "cumprod"):
    reg("numpy." + _n, f_emit(_n, conv="num" if _n not in ("concatenate",) else None))
for _n in ("inv", "pinv", "solve", "lstsq", "eigh", "cholesky"):
    reg("numpy.linalg." + _n, f_emit(_n, conv="values"))
    reg("scipy.linalg." + _n, f_emit(_n, conv="values"))
reg("numpy.cov", f_emit("npcov", conv="num"))
reg("numpy.corrcoef", f_emit("npcorr", conv="num"))
reg("pandas.DataFrame", f_df)
reg("pandas.Series", f_series)
reg("pandas.concat", f_emit("concat", conv=None))
reg("sklearn.covariance.ledoit_wolf", f_emit("ledoit_wolf", conv="num"))
reg("sklearn.covariance.oas", f_emit("oas", conv="num"))
reg("sklearn.covariance.fast_mcd", f_emit("fast_mcd", conv="num"))
reg("warnings.warn", f_warn)
reg("copy.copy", f_copycopy)
reg("copy.deepcopy", f_deepcopy)
reg("builtins.open io.open", f_open)
reg("json.dump", f_jsondump)
for _n in ("ledoit_wolf", "oas", "fast_mcd", "eigh"):
    TYF[_n] = lambda args, attr: ("tuple", None)
TYF["cholesky"] = lambda args, attr: ("arr", 2)
TYF["concat"] = lambda args, attr: ("df", 2)
TYF["squareform"] = lambda args, attr: ("arr", 1)
TYF["linkage"] = lambda args, attr: ("arr", 2)
SIMPL_TUP = {"eigh": [("arr", 1), ("arr", 2)], "ledoit_wolf": [("arr", 2), ("num", 0)], "oas": [("arr", 2), ("num", 0)],
             "fast_mcd": [("arr", 1), ("arr", 2), ("arr", 1), ("arr", 1)], "lstsq": None}


def tuple_item_ty(t, k):
    tys = SIMPL_TUP.get(t.op)
    if t.op == "lstsq":
        return ("arr", t.args[1].ty[1]) if k == 0 else ("arr", 1)
    if tys and 0 <= k < len(tys):
        return tys[k]
    return None


def squeeze(t):
    def f(x):
        if x.ty[1] in (0, 1):
            return x
        if x.op == "col":
            return x.args[0]
        return app("squeeze", x, ty=("arr", None))

    return lift(f, t)


def call_lib(I, path, args, kw):
    path = L().canon(Lib(path)).path
    f = FUNCS.get(path)
    if f is not None:
        return f(I, list(args), dict(kw))
    b = I.builtins.get(path[9:]) if path.startswith("builtins.") else None
    if isinstance(b, Intr):
        return b.fn(I, list(args), dict(kw))
    if path.startswith("builtins.") and path[9:] in en.BUILTIN_EXC:
        return tm._node("excv", tuple(I.term(a) for a in args), path[9:], ("obj", None)) if False else tm._node("excv", (), path[9:], ("obj", None))
    if path in en.LIB_EXC:
        return tm._node("excv", (), path, ("obj", None))
    if is_gfx_path(path):
        return gfx_result(I, path, args, kw)
    if any(path.startswith(n) for n in NONDET):
        I.event("nondet", app("lib", attr=path))
        t = generic(I, path, args, kw)
        if path.startswith("numpy.random"):
            return app("nondet", t, ty=("arr", None))
        return t
    if path == "warnings.catch_warnings" and not args and not kw:
        return app("lib", attr=path)
    if path in ("warnings.simplefilter", "warnings.filterwarnings") and I.quiet:
        f = warning_filter(path, args, kw)
        if f is not None:
            I.quiet[-1].append(f)
            return None
    if path.startswith("warnings.") or path.startswith("numpy.set") or path.startswith("pandas.set") or path.startswith("matplotlib.rc"):
        I.event("libwrite", app("lib", attr=path))
        return app("lib", attr=path)
    if path.startswith("logging.") or path in ("sys.stdout.write", "sys.stderr.write"):
        I.event("print", NONE)
        return None
    if "random_state" in kw or path.startswith("sklearn."):
        pass
    if path == "cvxpy.installed_solvers":
        return app("call", attr=(path, 0, ()), ty=("list", None))
    if path in ("scipy.optimize.OptimizeResult",):
        pass
    return generic(I, path, args, kw)


def gfx_result(I, path, args, kw):
    t = gfx(I, path, args, kw)
    if path.endswith("pyplot.subplots"):
        return Tup([app("gfxpart", t, attr="fig", ty=("gfx", None)), app("gfxpart", t, attr="ax", ty=("gfx", None))])
    return t


# ------------------------------------------------------------------ method calls
RED_METH = {"sum": "sum", "prod": "prod", "mean": "mean", "min": "min", "max": "max", "std": "std", "var": "var", "any": "any",
            "all": "all", "count": "count", "median": "median", "skew": "skew", "kurt": "kurt"}
ELEM_METH = {"abs": "abs", "isnull": "isnull", "isna": "isnull"}
EMIT_METH = ("pct_change", "dropna", "fillna", "ffill", "bfill", "mask", "ewm", "rolling", "sort_index", "sort_values", "reindex",
             "rename", "shift", "diff", "cov", "corr", "cumprod", "cumsum", "isin", "replace", "join", "round", "argmax", "argmin", "argsort")
LIST_METH = {"append", "extend", "insert", "remove", "pop", "index", "count", "sort", "reverse", "copy", "clear"}


def call_method(I, base, name, args, kw):
    lib = L()
    args, kw = list(args), dict(kw)
    if isinstance(base, VIte):
        return I.branch(base.c, lambda: I.call(I.getattr(base.a, name), args, kw), lambda: I.call(I.getattr(base.b, name), args, kw))
    if isinstance(base, str):
        return str_method(I, base, name, args, kw)
    if isinstance(base, Tup):
        if name == "index" and len(args) == 1:
            for k, x in enumerate(base.items):
                if lib.key_eq(I, x, args[0]) is True:
                    return k
                if lib.key_eq(I, x, args[0]) is None:
                    break
        if name == "count":
            return generic(I, ".count", args, kw, I.term(base))
        return generic(I, "." + name, args, kw, I.term(base))
    if isinstance(base, SuperV):
        if name == "__init__":
            return None
        return generic(I, "super." + name, args, kw)
    if isinstance(base, Ref):
        h = I.get(base)
        if isinstance(h, HList):
            if h.kind == "dict":
                return dict_method(I, base, name, args, kw)
            if h.kind == "set":
                return set_method(I, base, name, args, kw)
            return list_method(I, base, name, args, kw)
        if isinstance(h, HLib):
            return hlib_method(I, base, h, name, args, kw)
        if isinstance(h, HObj):
            if name == "__init__":
                at = dict(h.attrs)
                at["args"] = Tup(args)
                I.put(base, HObj(h.cls, at))
                return None
            return generic(I, "." + name, args, kw, I.term(base))
        return cell_method(I, base, name, args, kw)
    if isinstance(base, LibM):
        t = I.term(base)
        return generic(I, "." + name, args, kw, t)
    if isinstance(base, (Lib,)):
        return call_lib(I, base.path + "." + name, args, kw)
    if isinstance(base, (Func, Bound, Cls, Intr)):
        if isinstance(base, Cls) and name == "__init__":
            return None
        return generic(I, "." + name, args, kw, I.term(base))
    t = I.term(base)
    if t.op == "lib":
        return call_lib(I, t.attr + "." + name, args, kw)
    if t.op == "ite":
        return I.branch(batom(t.args[0]), lambda: I.call(I.getattr(I.unterm(t.args[1]), name), args, kw),
                        lambda: I.call(I.getattr(I.unterm(t.args[2]), name), args, kw))
    k = t.ty[0]
    if t.op == "par" and name == "name":
        return I.get(Ref(t.attr[0])).attrs["name"]
    if t.op == "var" and name == "name":
        return app("varname", t, ty=("str", 0))
    if t.op in ("list", "dict", "set") or k in ("list", "set"):
        r = I.alloc(I.from_list_term(t)) if t.op in ("list", "dict", "set") else I.alloc(HList([("s", TRUE, t)], k))
        return call_method(I, r, name, args, kw)
    if k == "dict":
        r = I.alloc(HList([("s", TRUE, t)], "dict"))
        return dict_method(I, r, name, args, kw)
    if k == "str" or t.op == "c" and isinstance(t.attr[1], str):
        if t.op == "c":
            return str_method(I, t.attr[1], name, args, kw)
        return app("strm", t, *[I.term(a) for a in args], attr=name,
                   ty=("str", 0) if name not in ("split", "rsplit", "splitlines", "startswith", "endswith", "isdigit") else
                   ("list", None) if "split" in name else ("bool", 0))
    if k == "gfx" or t.op == "gfx" or (t.op == "sym" and t.attr[1] == "gfx"):
        return gfx(I, "." + name, args, kw, t)
    return cell_method(I, base, name, args, kw)


def str_method(I, s, name, args, kw):
    if name == "format":
        if all(is_host(a) for a in args) and all(is_host(a) for a in kw.values()):
            try:
                return s.format(*args, **kw)
            except Exception:
                pass
        return app("fmt", const(s), *[I.term(a) for a in args], *[I.term(kw[k]) for k in sorted(kw)], ty=("str", 0))
    if name == "join":
        ps = L().parts_of(I, args[0])
        if all(p[0] == "i" and isinstance(p[2], str) for p in ps):
            return s.join(p[2] for p in ps)
        return app("fmt", const(s), I.term(args[0]), ty=("str", 0))
    if all(is_host(a) for a in args) and not kw and name in (
            "lower", "upper", "strip", "split", "rsplit", "startswith", "endswith", "replace", "lstrip", "rstrip", "title", "casefold",
            "isdigit", "find", "count", "index", "capitalize", "rpartition", "partition"):
        r = getattr(s, name)(*args)
        if isinstance(r, list):
            return I.alloc(HList([("i", TRUE, x) for x in r]))
        if isinstance(r, tuple):
            return Tup(r)
        return r
    return app("strm", const(s), *[I.term(a) for a in args], attr=name, ty=("str", 0))


def concrete(h):
    return all(p[0] == "i" and p[1] is TRUE for p in h.parts)


def list_method(I, ref, name, args, kw):
    lib = L()
    h = I.get(ref)
    parts = list(h.parts)
    if name == "append":
        I.mutate_list(ref, parts + [("i", TRUE, args[0])])
        return None
    if name == "extend":
        lib.list_extend(I, ref, args[0])
        return None
    if name == "insert":
        k = args[0]
        if isinstance(k, int):
            if k == 0:
                I.mutate_list(ref, [("i", TRUE, args[1])] + parts)
                return None
            if concrete(h):
                parts.insert(k, ("i", TRUE, args[1]))
                I.mutate_list(ref, parts)
                return None
    if name == "clear":
        I.mutate_list(ref, [])
        return None
    if name == "copy":
        return I.alloc(HList(parts, h.kind))
    if name == "reverse" and concrete(h):
        I.mutate_list(ref, parts[::-1])
        return None
    if name == "pop":
        k = args[0] if args else -1
        if isinstance(k, int) and parts:
            seg = parts[: k + 1] if k >= 0 else parts[k:]
            if len(seg) == (k + 1 if k >= 0 else -k) and all(p[0] == "i" and p[1] is TRUE for p in seg):
                v = parts[k][2]
                del parts[k]
                I.mutate_list(ref, parts)
                return v
        v = lib.getitem(I, ref, k)
        lib.delitem(I, ref, k)
        return v
    if name == "sort":
        r = b_sorted(I, [ref], kw)
        I.mutate_list(ref, lib.parts_of(I, r))
        return None
    if name == "index":
        if concrete(h):
            for k, p in enumerate(parts):
                e = lib.key_eq(I, p[2], args[0])
                if e is True:
                    return k
                if e is None:
                    break
        if len(args) == 1 and h.kind == "list" and parts and not concrete(h):
            at = I.term(args[0])
            for w in ("min", "max"):
                if w in at.ops and at is I.term(b_minmax(w)(I, [ref], {})):
                    return reduce_(I, "arg" + w, ref, {}, npstyle=True)
        if len(args) == 1:
            c = lib.contains(I, args[0], ref)
            c = const(c) if isinstance(c, bool) else lib.truth(I, c)
            I.raise_builtin("ValueError", b_not(c))
        return app("indexof", I.term(ref), *[I.term(a) for a in args], ty=("num", 0))
    if name == "count":
        return app("countof", I.term(ref), *[I.term(a) for a in args], ty=("num", 0))
    if name == "remove":
        if concrete(h):
            for k, p in enumerate(parts):
                e = lib.key_eq(I, p[2], args[0])
                if e is True:
                    del parts[k]
                    I.mutate_list(ref, parts)
                    return None
                if e is None:
                    break
        t = app("removed", I.term(ref), I.term(args[0]), ty=("list", None))
        I.mutate_list(ref, [("s", TRUE, t)])
        return None
    if name in ("union", "difference", "intersection", "add", "update", "keys", "values", "items", "tolist"):
        if name == "tolist":
            return I.alloc(HList(parts))
    if name == "__len__":
        return lib.length(I, ref)
    return generic(I, "." + name, args, kw, I.term(ref))


def set_method(I, ref, name, args, kw):
    lib = L()
    h = I.get(ref)
    parts = list(h.parts)
    if name == "add":
        for p in parts:
            if p[0] == "i" and p[1] is TRUE and lib.key_eq(I, p[2], args[0]) is True:
                return None
        I.mutate_list(ref, parts + [("i", TRUE, args[0])])
        return None
    if name == "update":
        I.mutate_list(ref, parts + lib.parts_of(I, args[0]))
        return None
    if name == "union":
        return I.alloc(HList(parts + [p for a in args for p in lib.parts_of(I, a)], "set"))
    if name == "difference":
        return app("setdiff", I.term(ref), setterm(I, args[0]), ty=("set", None))
    if name == "copy":
        return I.alloc(HList(parts, "set"))
    if name in ("remove", "discard"):
        I.mutate_list(ref, [("s", TRUE, app("setdiff", I.term(ref), app("set", I.term(args[0]), ty=("set", None)), ty=("set", None)))])
        return None
    if name == "issubset":
        return batom(app("subset", I.term(ref), setterm(I, args[0]), ty=("bool", 0)))
    return generic(I, "." + name, args, kw, I.term(ref))


def setterm(I, v):
    if I.kind(v) == "set":
        return I.term(v)
    return I.term(I.alloc(HList(L().parts_of(I, v), "set")))


def pairs_of(I, v):
    """Dict parts of a mapping or an iterable of pairs."""
    lib = L()
    if isinstance(v, VIte):
        return None
    k = I.kind(v)
    if isinstance(v, Ref) and isinstance(I.get(v), HList) and I.get(v).kind == "dict":
        return list(I.get(v).parts)
    if k == "dict":
        t = I.term(v)
        if t.op == "dict":
            return list(I.from_list_term(t).parts)
        return [("s", TRUE, t)]
    if k == "ser":
        return [("s", TRUE, app("dictof", I.term(v), ty=("dict", None)))]
    if k == "?":
        t = I.term(v)
        return [("s", TRUE, app("asdict", t, ty=("dict", None)))]
    out = []
    for p in lib.parts_of(I, v):
        if p[0] == "i":
            a, b = I.unpack(p[2], 2)
            out.append(("i", p[1], Tup((a, b))))
        else:
            t = p[2]
            if t.op == "seg":
                n, b = t.args
                body = b.args[0]
                ok = body.op == "list" and all(
                    (q.args[1] if q.op == "guarded" else q).op == "tuple" and len((q.args[1] if q.op == "guarded" else q).args) == 2
                    for q in body.args)
                if ok:
                    i = fresh("num", 0, "i")
                    items = []
                    for q in inst(b, i).args:
                        if q.op == "guarded":
                            items.append(app("guarded", q.args[0], app("pair", *q.args[1].args)))
                        else:
                            items.append(app("pair", *q.args))
                    out.append(("s", p[1], mk_seg(n, i, items)))
                    continue
            out.append(("s", p[1], app("asdict", app("list", t, ty=("list", None)) if t.op == "seg" else t, ty=("dict", None))))
    return out


def make_dict(I, args, kw):
    ref = I.alloc(HList([], "dict"))
    if args:
        v = args[0]
        if isinstance(v, VIte):
            return I.branch(v.c, lambda: make_dict(I, [v.a], kw), lambda: make_dict(I, [v.b], kw))
        t = None
        if not isinstance(v, (Ref, Tup)):
            t = I.term(v)
            if t.op == "ite":
                return I.branch(batom(t.args[0]), lambda: make_dict(I, [I.unterm(t.args[1])], kw), lambda: make_dict(I, [I.unterm(t.args[2])], kw))
        dict_update(I, ref, pairs_of(I, v))
    for k, v in kw.items():
        if k == "**":
            dict_update(I, ref, [("s", TRUE, v)])
        else:
            L().dict_set(I, ref, k, v)
    return ref


def dict_update(I, ref, ps):
    h = I.get(ref)
    if not h.parts:
        I.put(ref, HList([], "dict", h.ident))
    for p in ps:
        if p[0] == "i" and p[1] is TRUE:
            L().dict_set(I, ref, p[2].items[0], p[2].items[1])
        else:
            h = I.get(ref)
            I.mutate_list(ref, list(h.parts) + [p])


def dict_items(I, ref, what):
    """Parts of d.items() / keys() / values()."""
    lib = L()
    h = I.get(ref)
    out = []
    for p in h.parts:
        if p[0] == "i":
            k, v = p[2].items
            out.append(("i", p[1], Tup((k, v)) if what == "items" else k if what == "keys" else v))
            continue
        t = p[2]
        i = fresh("num", 0, "i")
        if t.op == "seg":
            n, b = t.args
            items = []
            ok = True
            for q in inst(b, i).args:
                g = TRUE
                if q.op == "guarded":
                    g, q = q.args
                if q.op != "pair":
                    ok = False
                    break
                x = app("tuple", *q.args, ty=("tuple", None)) if what == "items" else q.args[0] if what == "keys" else q.args[1]
                items.append(x if g is TRUE else app("guarded", g, x))
            if ok:
                out.append(("s", p[1], mk_seg(n, i, items)))
                continue
            d = app("dict", t, ty=("dict", None))
        else:
            d = t
        n = app("len", d)
        kx = app("dkey", d, i)
        vx = app("dget", d, kx)
        x = app("tuple", kx, vx, ty=("tuple", None)) if what == "items" else kx if what == "keys" else vx
        out.append(("s", p[1], mk_seg(n, i, [x])))
    return out


def dict_method(I, ref, name, args, kw):
    lib = L()
    h = I.get(ref)
    if name in ("items", "keys", "values"):
        return I.alloc(HList(dict_items(I, ref, name), "list"))
    if name == "get":
        return lib.dict_get(I, ref, args[0], args[1] if len(args) > 1 else kw.get("default", None), False)
    if name == "update":
        if args:
            ps = pairs_of(I, args[0])
            if ps is None:
                I.branch(args[0].c, lambda: dict_method(I, ref, "update", [args[0].a], kw), lambda: dict_method(I, ref, "update", [args[0].b], kw))
                return None
            dict_update(I, ref, ps)
        for k, v in kw.items():
            lib.dict_set(I, ref, k, v)
        return None
    if name == "copy":
        return I.alloc(HList(h.parts, "dict"))
    if name == "clear":
        I.mutate_list(ref, [])
        return None
    if name == "pop":
        v = lib.dict_get(I, ref, args[0], args[1] if len(args) > 1 else UNDEF, len(args) < 2)
        parts = list(h.parts)
        for k, p in enumerate(parts):
            if p[0] == "i" and lib.key_eq(I, p[2].items[0], args[0]) is True:
                del parts[k]
                I.mutate_list(ref, parts)
                return v
            if p[0] != "i" or lib.key_eq(I, p[2].items[0], args[0]) is None:
                t = app("delitem", I.term(ref), I.term(args[0]), ty=("dict", None))
                I.mutate_list(ref, [("s", TRUE, t)])
                return v
        return v
    if name == "setdefault":
        c = lib.contains(I, args[0], ref)
        cur = {}

        def no():
            lib.dict_set(I, ref, args[0], args[1] if len(args) > 1 else None)

        I.branch(c, lambda: None, no)
        return lib.dict_get(I, ref, args[0], None, True)
    if name == "__len__":
        return lib.length(I, ref)
    if name == "move_to_end":
        pass
    return generic(I, "." + name, args, kw, I.term(ref))


def hlib_method(I, ref, h, name, args, kw):
    if h.kind == "problem":
        if name == "solve":
            return cvx_solve(I, ref, args, kw)
    if h.kind == "file":
        if name in ("write", "writelines"):
            I.event("file", app("write", I.term(h.attrs["name"]), *[I.term(a) for a in args]))
            return None
        if name in ("close", "flush", "__exit__"):
            return None
        if name == "__enter__":
            return ref
    if h.kind == "param" and name == "name":
        return h.attrs["name"]
    return generic(I, "." + name, args, kw, I.term(ref))


def cell_method(I, base, name, args, kw):
    """Method of an array / series / frame / cvxpy expression / unknown value."""
    lib = L()
    t = A(I, base) if not isinstance(base, Ref) or isinstance(I.get(base), HCell) else I.term(base)
    if t.op == "ite":
        a, b = t.args[1], t.args[2]
        if a.ty[0] != b.ty[0] or a.ty[0] in ("none", "str", "list", "dict"):
            return I.branch(batom(t.args[0]), lambda: call_method(I, I.unterm(a), name, args, kw),
                            lambda: call_method(I, I.unterm(b), name, args, kw))
    k, n = t.ty
    if t is NONE:
        I.raise_exc(Lib("builtins.AttributeError"), NONE)
    if k == "optres" or t.op == "minimize":
        if name == "get":
            return lib.getitem_t(t, I.term(args[0]))
    if kw.get("inplace") is True:
        kw = dict(kw)
        kw.pop("inplace")
        r = I.term(cell_method(I, t, name, args, kw))
        if isinstance(base, Ref):
            I.mutate_cell(base, r, "data" if name in ("fillna", "replace", "mask", "clip", "ffill") else "ident")
        return None
    if name in RED_METH:
        kw2 = dict(kw)
        if args:
            if name in ("any", "all", "sum", "prod", "mean", "min", "max", "std", "var", "count", "median"):
                kw2["axis"] = args[0]
        if t.op in ("ewm", "rolling", "expanding"):
            return mk(name, (t,) + tuple(I.term(kw2[q]) for q in sorted(kw2)), ("a",) + tuple(sorted(kw2)) if kw2 else None)
        return reduce_(I, RED_METH[name], base, kw2)
    if name in ("isnull", "isna"):
        return app("isnull", t)
    if name == "notnull" or name == "notna":
        return lib.invert(I, app("isnull", t))
    if name == "abs":
        return app("abs", t)
    if name == "clip":
        return f_clip(I, [base] + args, kw)
    if name == "dot":
        b = A(I, args[0])
        if k in ("arr", "num"):
            b = values(b)
        return lib.mm(t, b)
    if name in ("add", "sub", "mul", "div", "truediv", "pow", "subtract", "multiply", "divide") and k in ("ser", "df"):
        b = A(I, args[0] if args else kw["other"])
        ax = args[1] if len(args) > 1 else kw.get("axis")
        if ax in (None, 1, "columns") or k == "ser":
            op = {"add": add, "sub": sub, "subtract": sub, "mul": mul, "multiply": mul, "div": div, "truediv": div, "divide": div, "pow": power}[name]
            return op(t, b)
        return app("axisop", t, b, attr=name, ty=t.ty)
    if name == "copy":
        if isinstance(base, Ref):
            return I.alloc(HCell(t))
        return I.alloc(HCell(t)) if k in I.CELLK else t
    if name in ("to_numpy",):
        return values(t)
    if name == "transpose":
        return lib.view(I, base, lib.transpose(t))
    if name == "reshape":
        sh = args[0] if len(args) == 1 else Tup(args)
        return lib.view(I, base, reshape(I, values(t), I.term(sh)))
    if name in ("ravel", "flatten"):
        r = ravel(t)
        return lib.view(I, base, r) if name == "ravel" else r
    if name == "squeeze":
        return squeeze(t)
    if name == "item":
        if n == 0 or k == "num":
            return t
        return app("item", t, *[I.term(a) for a in args], ty=("num", 0))
    if name in ("tolist", "to_list"):
        if n == 1 or k in ("idx", "ser"):
            i = fresh("num", 0, "i")
            vt = values(t) if k in ("ser",) else t
            return I.alloc(HList([("s", TRUE, mk_seg(app("len", vt), i, [lib.getitem_t(vt, i)]))]))
        return app("tolist", t)
    if name == "to_dict":
        if k == "ser":
            return app("dictof", t, ty=("dict", None))
    if name == "keys" and k == "ser":
        return lib.attr_t(t, "index")
    if name in ("items", "iteritems") and k == "ser":
        i = fresh("num", 0, "i")
        ix = lib.attr_t(t, "index")
        return I.alloc(HList([("s", TRUE, mk_seg(app("len", t), i, [app("tuple", lib.getitem_t(ix, i), lib.getitem_t(values(t), i), ty=("tuple", None))]))]))
    if name == "astype":
        d = args[0] if args else kw.get("dtype")
        if isinstance(d, Lib) and d.path in ("builtins.float", "numpy.float64") or d == "float":
            return t
        if isinstance(d, Lib) and d.path in ("builtins.int", "numpy.int64", "numpy.int32") or d == "int":
            return app("trunc", t)
        return app("astype", t, I.term(d), ty=t.ty)
    if name == "fill" and isinstance(base, Ref):
        v = A(I, args[0])
        I.mutate_cell(base, mul(v, app("ones", shape_of_t(t))), "data")
        return None
    if name == "sort" and isinstance(base, Ref) and k == "arr":
        I.mutate_cell(base, emit(I, "sort", [t], kw), "data")
        return None
    if name in ("to_csv", "to_json", "to_excel", "to_pickle", "to_hdf", "tofile", "to_parquet"):
        b = bindsig(I, "to_csv", [t] + args, kw) if name == "to_csv" else dict(kw, a=t)
        I.event("file", app(name, *[I.term(b[q]) for q in sorted(b)], attr=tuple(sorted(b))))
        return None
    if name == "trace":
        return vsum(app("diag", t))
    if name == "diagonal":
        return app("diag", values(t))
    if name == "conj" or name == "conjugate":
        return t
    if name == "insert" and isinstance(base, Ref) and k == "df":
        b = args + [kw.get(q) for q in ("loc", "column", "value")][len(args):]
        I.mutate_cell(base, app("setcol", t, I.term(b[1]), I.term(b[2]), ty=t.ty), "ident")
        return None
    if name == "assign" and k == "df":
        r = t
        for q, v in kw.items():
            v = I.call(v, [r], {}) if I.kind(v) == "fn" else v
            r = app("setcol", r, const(q), I.term(v), ty=t.ty)
        return r
    if name == "drop":
        b = bindsig(I, "drop", [t] + args, kw)
        b.pop("a")
        if "index" in b:
            b["labels"] = b.pop("index")
            b.pop("axis", None)
        if "columns" in b:
            b["labels"] = b.pop("columns")
            b["axis"] = 1
        if k == "ser":
            b.pop("axis", None)
        lab = I.term(b["labels"])
        if lab.op == "list" and len(lab.args) == 1:
            lab = lab.args[0]
        names = ["a", "labels"] + sorted(q for q in b if q != "labels")
        return mk("drop", (t, lab) + tuple(I.term(b[q]) for q in names[2:]), tuple(names))
    if name == "get" and k in ("ser", "df"):
        d = args[1] if len(args) > 1 else None
        key = I.term(args[0])
        c = batom(app("in", key, t, ty=("bool", 0)))
        return I.merge_val(c, lib.getitem_t(t, key), d)
    if name == "equals":
        return batom(app("eq?", *sorted((t, I.term(args[0])), key=lambda x: x.dig), ty=("bool", 0)))
    if name == "pipe":
        return I.call(args[0], [base] + args[1:], kw)
    if name == "apply" and k == "df":
        r = df_apply(I, t, args, kw)
        if r is not None:
            return r
    if name == "iterrows" or name == "itertuples":
        pass
    if name == "round":
        b = bindsig(I, "round", [t] + args, kw)
        return mk("round", (t, I.term(b["decimals"])) if "decimals" in b else (t,), ("a", "decimals") if "decimals" in b else None)
    if name == "mask":
        b = bindsig(I, "mask", [t] + args, kw)
        return emit(I, "mask", [t] + args, kw)
    if name in EMIT_METH and k not in ("gfx",):
        return emit(I, name, [t] + args, kw)
    if name == "get_loc" and k == "idx":
        return app("indexof", t, I.term(args[0]), ty=("num", 0))
    if name == "pre_order":
        return app("pre_order", t, ty=("list", None))
    if k == "cvx" and name in ("copy", "__copy__"):
        return I.alloc(HCell(t))
    if name == "is_dcp":
        return batom(app("is_dcp", t, ty=("bool", 0)))
    r = generic(I, "." + name, args, kw, t)
    return r


def df_apply(I, t, args, kw):
    return None


def call_term(I, f, args, kw):
    t = I.term(f)
    if t.op == "ite":
        return I.branch(batom(t.args[0]), lambda: I.call(I.unterm(t.args[1]), args, kw), lambda: I.call(I.unterm(t.args[2]), args, kw))
    if t.op == "lib":
        return call_lib(I, t.attr, args, kw)
    if t is NONE or t.ty[0] in ("num", "str", "bool", "list", "dict", "arr", "ser", "df"):
        I.raise_exc(Lib("builtins.TypeError"), NONE)
    if t.ty[0] == "gfx":
        return gfx(I, "()", args, kw, t)
    ts = [t] + [I.term(a) for a in args] + [I.term(kw[k]) for k in sorted(kw)]
    ty = ("?", None)
    if t.op == "sym":
        ty = {"confn": ("con", None), "objfn": ("cvx", 0), "numfn": ("num", 0), "arrfn": ("arr", 2), "listfn": ("list", None)}.get(t.attr[1], ty)
    return tm.mk("ap", tuple(ts), (len(args), tuple(sorted(kw))), ty)


# ------------------------------------------------------------------ builtins
def b_len(I, args, kw):
    return L().length(I, args[0])


def b_range(I, args, kw):
    xs = [a for a in args]
    if len(xs) == 1:
        lo, hi, st = 0, xs[0], 1
    elif len(xs) == 2:
        lo, hi, st = xs[0], xs[1], 1
    else:
        lo, hi, st = xs
    try:
        l, h, s = (int(I.host(v)) for v in (lo, hi, st))
        r = range(l, h, s)
        if len(r) <= 40:
            return I.alloc(HList([("i", TRUE, k) for k in r], "list"))
    except ValueError:
        pass
    i = fresh("num", 0, "i")
    tl, th, ts = A(I, lo), A(I, hi), A(I, st)
    if ts is ONE:
        n = sub(th, tl)
        return I.alloc(HList([("s", TRUE, mk_seg(n, i, [add(tl, i)]))], "list"))
    if is_num(ts) and num_val(ts) == -1:
        n = sub(tl, th)
        return I.alloc(HList([("s", TRUE, mk_seg(n, i, [sub(tl, i)]))], "list"))
    n = app("rangelen", tl, th, ts, ty=("num", 0))
    return I.alloc(HList([("s", TRUE, mk_seg(n, i, [add(tl, mul(ts, i))]))], "list"))


def single_dom(I, v):
    """(n, elem) when v iterates one symbolic unguarded domain, ('c', items) when concrete, else a generic view."""
    lib = L()
    ch = lib.chunks(I, v)
    if all(c[0] == "item" and c[1] is TRUE for c in ch):
        return ("c", [c[2] for c in ch])
    if len(ch) == 1 and ch[0][0] == "dom":
        i = fresh("num", 0, "i")
        g, x = ch[0][2](i)
        if g is TRUE:
            return ("d", ch[0][1], lambda j: ch[0][2](j)[1])
    t = I.term(I.alloc(HList(lib.parts_of(I, v))))
    return ("d", app("len", t), lambda j: lib.getitem_t(t, j))


def b_enumerate(I, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    d = single_dom(I, args[0])
    if d[0] == "c" and isinstance(start, int):
        return I.alloc(HList([("i", TRUE, Tup((k + start, x))) for k, x in enumerate(d[1])], "list"))
    i = fresh("num", 0, "i")
    x = I.term(d[2](i))
    return I.alloc(HList([("s", TRUE, mk_seg(d[1], i, [app("tuple", add(i, A(I, start)), x, ty=("tuple", None))]))], "list"))


def minlen(ns):
    ns = list(dict.fromkeys(ns))
    if len(ns) == 1:
        return ns[0]
    return app("minlen", *sorted(ns, key=lambda t: t.dig), ty=("num", 0))


def b_zip(I, args, kw):
    ds = [single_dom(I, a) for a in args]
    if all(d[0] == "c" for d in ds):
        return I.alloc(HList([("i", TRUE, Tup(x)) for x in zip(*[d[1] for d in ds])], "list"))
    if any(d[0] == "c" for d in ds):
        # a known length fixes the others
        n = min(len(d[1]) for d in ds if d[0] == "c")
        out = []
        for k in range(n):
            out.append(("i", TRUE, Tup([d[1][k] if d[0] == "c" else d[2](num(k)) for d in ds])))
        return I.alloc(HList(out, "list"))
    i = fresh("num", 0, "i")
    n = minlen([d[1] for d in ds])
    x = app("tuple", *[I.term(d[2](i)) for d in ds], ty=("tuple", None))
    return I.alloc(HList([("s", TRUE, mk_seg(n, i, [x]))], "list"))


def map_parts(I, f, v):
    """Parts of [f(x) for x in v] (f: value -> value)."""
    return _map_chunks(I, f, L().chunks(I, v, True))


def _map_chunks(I, f, chunks):
    out = []
    for ch in chunks:
        if ch[0] == "nest":
            i = fresh("num", 0, "i")
            ps = _map_chunks(I, f, ch[2](i))
            out.append(("s", TRUE, mk_seg(ch[1], i, [I.part_term(p, "list", 0) for p in ps])))
        elif ch[0] == "item":
            if ch[1] is TRUE:
                out.append(("i", TRUE, f(ch[2])))
            else:
                box = []
                I.branch(ch[1], lambda: box.append(I.own(f(ch[2]))), lambda: None)
                out.append(("i", ch[1], box[0]))
        else:
            i = fresh("num", 0, "i")
            g, x = ch[2](i)
            t = I.term(f(x))
            out.append(("s", TRUE, mk_seg(ch[1], i, [t if g is TRUE else app("guarded", g, t)])))
    return out


def b_map(I, args, kw):
    f0 = args[0]
    if len(args) == 2:
        return I.alloc(HList(map_parts(I, lambda x: I.own(I.call(f0, [x], {})), args[1]), "list"))
    z = b_zip(I, args[1:], {})
    n = len(args) - 1
    return I.alloc(HList(map_parts(I, lambda x: I.own(I.call(f0, I.unpack(x, n), {})), z), "list"))


def b_filter(I, args, kw):
    f0 = args[0]
    out = []
    for ch in L().chunks(I, args[1]):
        if ch[0] == "item":
            c = I.truth(I.call(f0, [ch[2]], {})) if f0 is not None else I.truth(ch[2])
            g = b_and(ch[1], c)
            if g is not FALSE:
                out.append(("i", g, ch[2]))
        else:
            i = fresh("num", 0, "i")
            g, x = ch[2](i)
            c = b_and(g, I.truth(I.call(f0, [x], {})) if f0 is not None else I.truth(x))
            t = I.term(x)
            if c is not FALSE:
                out.append(("s", TRUE, mk_seg(ch[1], i, [t if c is TRUE else app("guarded", c, t)])))
    return I.alloc(HList(out, "list"))


def b_sorted(I, args, kw):
    lib = L()
    v = args[0]
    key = kw.get("key")
    rev = kw.get("reverse", False)
    ps = lib.parts_of(I, v)
    if all(p[0] == "i" and p[1] is TRUE for p in ps):
        items = [p[2] for p in ps]
        try:
            ks = [I.host(x if key is None else I.call(key, [x], {})) for x in items]
            order = sorted(range(len(items)), key=lambda j: ks[j], reverse=bool(I.host(rev)))
            return I.alloc(HList([("i", TRUE, items[j]) for j in order]))
        except (ValueError, TypeError):
            pass
        if len(items) <= 1:
            return I.alloc(HList(ps))
    t = mk_list([I.part_term(p, "list", 0) for p in ps], "list")
    x = fresh("?", None, "l")
    kt = x if key is None else L().numt(I, I.call(key, [x], {}))
    r = I.truth(rev)
    if r is TRUE:
        kt2 = neg(kt) if kt.ty[0] in ("num", "?") and key is not None else None
        if kt2 is not None:
            return app("sorted", t, bind(kt2, x), ty=("list", None))
        return app("sorted", t, bind(kt, x), attr="rev", ty=("list", None))
    if r is not FALSE:
        return app("sorted", t, bind(kt, x), I.term(rev), ty=("list", None))
    return app("sorted", t, bind(kt, x), ty=("list", None))


@simpl("sorted")
def _s_sorted(args, attr, ty):
    return None


def b_reversed(I, args, kw):
    ps = L().parts_of(I, args[0])
    if all(p[0] == "i" for p in ps):
        return I.alloc(HList(ps[::-1]))
    d = single_dom(I, args[0])
    i = fresh("num", 0, "i")
    return I.alloc(HList([("s", TRUE, mk_seg(d[1], i, [I.term(d[2](sub(sub(d[1], ONE), i)))]))]))


def b_sum(I, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    acc = start
    v = args[0]
    t0 = None
    if I.kind(v) in ("arr", "ser"):
        t0 = A(I, v)
        if t0.ty[1] == 1:
            return I.binop("Add", vsum(values(t0)), start) if start != 0 else vsum(values(t0))
        if t0.ty == ("arr", 2):
            return app("flatsum0", t0, ty=("arr", 1)) if False else axis_sum(t0, 0)
    for ch in L().chunks(I, v):
        if ch[0] == "item":
            if ch[1] is TRUE:
                acc = I.binop("Add", acc, ch[2])
            else:
                cur = acc
                acc = I.branch(ch[1], lambda: I.own(I.binop("Add", cur, ch[2])), lambda: cur)
        else:
            i = fresh("num", 0, "i")
            g, x = ch[2](i)
            e = ite(g, A(I, x), ZERO)
            acc = add(A(I, acc), L().sumover(ch[1], i, e))
    return acc


def b_minmax(which):
    def f(I, args, kw):
        key = kw.get("key")
        if len(args) == 1:
            v = args[0]
            if I.kind(v) in ("arr", "ser"):
                t = A(I, v)
                if t.ty[1] == 1:
                    t = values(t)
                    return mk(which, (t,))
            ps = L().parts_of(I, v)
            if not (all(p[0] == "i" and p[1] is TRUE for p in ps) and ps):
                lt = mk_list([I.part_term(p, "list", 0) for p in ps], "list")
                if key is None and "default" not in kw:
                    ar = array_parts(I, ps)
                    if ar.op != "asarray":
                        return mk(which, (ar,), None, ("num", 0))
                    return app(which, lt, ty=("num", 0))
                if key is not None and "default" not in kw:
                    ref = I.alloc(HList(ps, "list"))
                    return L().getitem(I, ref, reduce_(I, "arg" + which, b_map(I, [key, ref], {}), {}, npstyle=True))
                x = fresh("?", None, "l")
                ex = [bind(A(I, I.call(key, [x], {})), x)] if key is not None else []
                return app(which + "by", lt, *ex, attr=tuple(sorted(kw)), ty=("?", None))
            items = [p[2] for p in ps]
        else:
            items = list(args)
        if key is not None:
            return generic(I, which, items, kw)
        if all(is_host(x) for x in items):
            try:
                return (max if which == "max" else min)(items)
            except TypeError:
                pass
        r = A(I, items[0])
        for x in items[1:]:
            r = maximum(I, r, A(I, x)) if which == "max" else minimum(I, r, A(I, x))
        return r

    return f


def b_abs(I, args, kw):
    if isinstance(args[0], (int, float)):
        return abs(args[0])
    return app("abs", A(I, args[0]))


def b_float(I, args, kw):
    if not args:
        return 0.0
    v = args[0]
    if isinstance(v, str):
        return float(v)
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, VIte):
        return I.branch(v.c, lambda: b_float(I, [v.a], {}), lambda: b_float(I, [v.b], {}))
    t = A(I, v)
    if t is NONE:
        I.raise_exc(Lib("builtins.TypeError"), NONE)
    if t.ty[0] == "arr" and t.ty[1] in (1, 2, None):
        t = app("item", t, ty=("num", 0))
    return lift(lambda x: app("float", x), t)


@simpl("item")
def _s_item(args, attr, ty):
    t = args[0]
    if t.ty[0] in ("num", "bool"):
        return t
    if t.op == "poly":
        # scalar of an affine combination of 1x1 arrays
        arrs = {a for c, m in t.attr for a, e in m if a.ty[0] == "arr"}
        if all(sum(1 for a, e in m if a in arrs) <= 9 for c, m in t.attr):
            return subst(t, {a: app("item", a, ty=("num", 0)) for a in arrs})
    if t.op == "grp":
        return None
    return None


def b_int(I, args, kw):
    if not args:
        return 0
    v = args[0]
    if isinstance(v, (int, float, str)):
        return int(v)
    return lift(lambda x: app("trunc", x), A(I, v))


def b_str(I, args, kw):
    if not args:
        return ""
    if isinstance(args[0], str):
        return args[0]
    if isinstance(args[0], int):
        return str(args[0])
    t = I.term(args[0])
    if t.ty[0] == "str":
        return t
    return app("str", t, ty=("str", 0))


def b_bool(I, args, kw):
    return I.bool_val(I.truth(args[0])) if args else False


def b_list(I, args, kw):
    if not args:
        return I.alloc(HList([]))
    v = args[0]
    if isinstance(v, VIte):
        return I.branch(v.c, lambda: b_list(I, [v.a], {}), lambda: b_list(I, [v.b], {}))
    return I.alloc(HList(L().parts_of(I, v)))


def b_tuple(I, args, kw):
    if not args:
        return Tup(())
    v = args[0]
    if isinstance(v, Tup):
        return v
    if isinstance(v, VIte):
        return I.branch(v.c, lambda: b_tuple(I, [v.a], {}), lambda: b_tuple(I, [v.b], {}))
    t = I.term(v) if not isinstance(v, Ref) or not isinstance(I.get(v), HList) else None
    if t is not None and t.op == "arrlit":
        return Tup([I.unterm(x) for x in t.args])
    ps = L().parts_of(I, v)
    if all(p[0] == "i" and p[1] is TRUE for p in ps):
        return Tup([p[2] for p in ps])
    return app("totuple", mk_list([I.part_term(p, "list", 0) for p in ps], "list"), ty=("tuple", None))


def b_set(I, args, kw):
    if not args:
        return I.alloc(HList([], "set"))
    ps = L().parts_of(I, args[0])
    ref = I.alloc(HList([], "set"))
    for p in ps:
        if p[0] == "i" and p[1] is TRUE:
            set_method(I, ref, "add", [p[2]], {})
        else:
            h = I.get(ref)
            I.put(ref, HList(h.parts + (p,), "set"))
    return ref


def b_isinstance(I, args, kw):
    return I.bool_val(L().isinstance_one(I, args[0], args[1]))


def b_issubclass(I, args, kw):
    a, b = args
    if isinstance(a, Cls):
        bs = b.items if isinstance(b, Tup) else [b]
        return any(x in a.mro() for x in bs)
    return generic(I, "issubclass", args, kw)


def b_callable(I, args, kw):
    v = args[0]
    if isinstance(v, (Func, Bound, Cls, Lib, LibM, Intr)):
        return True
    if isinstance(v, VIte):
        return I.branch(v.c, lambda: b_callable(I, [v.a], {}), lambda: b_callable(I, [v.b], {}))
    if isinstance(v, Ref) and isinstance(I.get(v), HObj):
        return I.class_lookup(I.get(v).cls, "__call__") is not UNDEF
    t = I.term(v)
    if t.op == "ite":
        return I.bool_val(lift(lambda x: I.term(b_callable(I, [I.unterm(x)], {})), t))
    if t.ty[0] == "fn":
        return True
    if t.ty[0] == "?":
        return batom(app("callable", t, ty=("bool", 0)))
    return False


def b_any(I, args, kw):
    v = args[0]
    out = FALSE
    t = None
    if I.kind(v) in ("arr", "ser", "df"):
        t = values(A(I, v))
        if t.ty[1] == 1:
            i = fresh("num", 0, "i")
            return I.bool_val(I.some(app("len", t), i, I.truth(elem1(t, i))))
        if t.ty[1] == 2:
            return reduce_(I, "any", t, {})
    for ch in L().chunks(I, v):
        if ch[0] == "item":
            out = b_or(out, b_and(ch[1], I.truth(ch[2])))
        else:
            i = fresh("num", 0, "i")
            g, x = ch[2](i)
            out = b_or(out, I.some(ch[1], i, b_and(g, I.truth(x))))
    return I.bool_val(out)


def b_all(I, args, kw):
    v = args[0]
    out = TRUE
    if I.kind(v) in ("arr", "ser"):
        t = values(A(I, v))
        i = fresh("num", 0, "i")
        return I.bool_val(b_not(I.some(app("len", t), i, b_not(I.truth(elem1(t, i))))))
    for ch in L().chunks(I, v):
        if ch[0] == "item":
            out = b_and(out, b_or(b_not(ch[1]), I.truth(ch[2])))
        else:
            i = fresh("num", 0, "i")
            g, x = ch[2](i)
            out = b_and(out, b_not(I.some(ch[1], i, b_and(g, b_not(I.truth(x))))))
    return I.bool_val(out)


def b_print(I, args, kw):
    f = kw.get("file")
    if f is not None and isinstance(f, Ref) and isinstance(I.get(f), HLib) and I.get(f).kind == "file":
        I.event("file", app("write", I.term(I.get(f).attrs["name"]), *[I.term(a) for a in args]))
        return None
    I.event("print", app("tuple", *[I.term(a) for a in args], ty=("tuple", None)))
    return None


def b_super(I, args, kw):
    if args:
        return SuperV(args[0], args[1])
    fr = I.frame
    cls = I._cur[3]
    p = fr
    while p is not None:
        f = I.get(p)
        if f.kind == "func" and f.vars:
            first = next(iter(f.vars.values()))
            if isinstance(first, Ref) and isinstance(I.get(first), HObj) or isinstance(first, Cls):
                return SuperV(cls, first)
        p = f.parent
    return I.unknown("super")


def b_getattr(I, args, kw):
    if isinstance(args[1], str):
        if len(args) > 2:
            return getattr_default(I, args[0], args[1], args[2])
        return I.getattr(args[0], args[1])
    return I.unknown("getattr")


def has_attr(I, v, name):
    if isinstance(v, VIte):
        return ite(v.c, has_attr(I, v.a, name), has_attr(I, v.b, name))
    if isinstance(v, Ref):
        h = I.get(v)
        if isinstance(h, HObj):
            x = h.attrs.get(name, UNDEF)
            if x is not UNDEF:
                return TRUE
            return const(I.class_lookup(h.cls, name) is not UNDEF)
        if isinstance(h, HLib):
            return const(name in h.attrs)
    if isinstance(v, Cls):
        return const(I.class_lookup(v, name) is not UNDEF)
    t = I.term(v)
    k = t.ty[0]
    known = {"values": ("ser", "df", "idx", "dict"), "columns": ("df",), "index": ("ser", "df", "list", "str", "tuple"),
             "shape": ("arr", "ser", "df", "cvx", "idx"), "value": ("cvx",), "items": ("dict", "ser", "df"), "keys": ("dict", "ser", "df"),
             "loc": ("ser", "df"), "iloc": ("ser", "df"), "__iter__": ("list", "dict", "tuple", "arr", "ser", "df", "str", "set"),
             "__len__": ("list", "dict", "tuple", "arr", "ser", "df", "str", "set", "cvx"), "__call__": ("fn",), "T": ("arr", "ser", "df", "cvx")}
    if name in known and k not in ("?",):
        return const(k in known[name])
    return batom(app("hasattr", t, attr=name, ty=("bool", 0)))


def getattr_default(I, v, name, d):
    c = has_attr(I, v, name)
    return I.branch(c, lambda: I.getattr(v, name), lambda: d)


def b_hasattr(I, args, kw):
    return I.bool_val(has_attr(I, args[0], args[1]))


def b_setattr(I, args, kw):
    if isinstance(args[1], str):
        I.setattr(args[0], args[1], args[2])
        return None
    return I.unknown("setattr")


def b_type(I, args, kw):
    v = args[0]
    if isinstance(v, Ref) and isinstance(I.get(v), HObj):
        return I.get(v).cls
    k = I.kind(v)
    m = {"df": "pandas.DataFrame", "ser": "pandas.Series", "arr": "numpy.ndarray", "dict": "builtins.dict", "list": "builtins.list",
         "str": "builtins.str", "tuple": "builtins.tuple", "bool": "builtins.bool", "set": "builtins.set"}
    if k in m:
        return Lib(m[k])
    if isinstance(v, int):
        return Lib("builtins.int")
    if isinstance(v, float):
        return Lib("builtins.float")
    t = I.term(v)
    if t.op == "sym" and t.attr[1] in ("float", "int"):
        return Lib("builtins." + t.attr[1])
    return app("typeof", t, ty=("fn", None))


def b_round(I, args, kw):
    nd_ = args[1] if len(args) > 1 else kw.get("ndigits")
    if isinstance(args[0], (int, float)) and (nd_ is None or isinstance(nd_, int)):
        return round(args[0], nd_) if nd_ is not None else round(args[0])
    t = A(I, args[0])
    if nd_ is None:
        return app("rint", t)
    return mk("round", (t, I.term(nd_)), ("a", "decimals"))


def b_next(I, args, kw):
    v = args[0]
    ps = L().parts_of(I, v)
    if ps and ps[0][0] == "i" and ps[0][1] is TRUE:
        return ps[0][2]
    t = mk_list([I.part_term(p, "list", 0) for p in ps], "list")
    if len(args) > 1:
        n = app("len", t)
        return I.merge_val(cmp0(n, ">"), L().getitem_t(t, ZERO), args[1])
    return L().getitem_t(t, ZERO)


def b_iter(I, args, kw):
    return I.alloc(HList(L().parts_of(I, args[0])))


def b_id(I, args, kw):
    if isinstance(args[0], Ref):
        return 10000000 + args[0].id
    return app("id", I.term(args[0]), ty=("num", 0))


def b_slice(I, args, kw):
    a = list(args)
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


def b_pow(I, args, kw):
    return I.binop("Pow", args[0], args[1])


def b_divmod(I, args, kw):
    return Tup([I.binop("FloorDiv", args[0], args[1]), I.binop("Mod", args[0], args[1])])


def b_vars(I, args, kw):
    return I.unknown("vars")


def b_format(I, args, kw):
    return app("fmt", *[I.term(a) for a in args], ty=("str", 0))


def make_builtins(I):
    fix_len()
    SIMPL["values"] = _s_values2
    b = {"len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "map": b_map, "filter": b_filter,
         "sorted": b_sorted, "reversed": b_reversed, "sum": b_sum, "min": b_minmax("min"), "max": b_minmax("max"), "abs": b_abs,
         "isinstance": b_isinstance, "issubclass": b_issubclass, "callable": b_callable, "any": b_any, "all": b_all, "print": b_print,
         "open": f_open, "super": b_super, "getattr": b_getattr, "hasattr": b_hasattr, "setattr": b_setattr,
         "round": b_round, "next": b_next, "iter": b_iter, "id": b_id, "slice": b_slice, "pow": b_pow, "divmod": b_divmod,
         "vars": b_vars, "format": b_format, "repr": b_str}
    out = {k: Intr("builtins." + k, f) for k, f in b.items()}
    # types are both callable and usable in isinstance
    for n, f in {"float": b_float, "int": b_int, "str": b_str, "bool": b_bool, "list": b_list, "tuple": b_tuple, "dict": make_dict,
                 "set": b_set, "frozenset": b_set, "type": b_type}.items():
        FUNCS["builtins." + n] = f
        out[n] = Lib("builtins." + n)
    for n in ("object", "staticmethod", "classmethod", "property", "bytes"):
        out[n] = Lib("builtins." + n)
    out["NotImplemented"] = app("lib", attr="builtins.NotImplemented", ty=("fn", None))
    out["__debug__"] = True
    return out


L()._norm_labels("DataFrame")
L()._norm_labels("Series")
