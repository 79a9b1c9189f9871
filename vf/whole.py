"""Whole-number arrays: a dataflow analysis of the element kind of arrays, over the syntax trees of the package.

numpy takes the element type of an array from the data it is built of.  An array built from numbers of the caller without a
dtype therefore holds integers when the caller passes integers; storing a fraction into it drops the fractional part, and
dividing it in place fails.  The analysis follows kinds through assignments, attributes, lists, tuples and calls within the
package (flow-sensitive in a function, flow-insensitive over attributes), and reports every such store or in-place operation.

Kinds: Z whole numbers, N numbers of the caller (whole or not), F floating point, U anything else.
"""
import ast
import os

FLOATY = {"zeros", "ones", "empty", "full", "linspace", "eye", "identity", "sqrt", "exp", "log", "mean", "std", "var", "inv",
          "pinv", "logspace", "divide", "true_divide", "average", "cov", "corrcoef"}
SAME = {"copy", "reshape", "ravel", "flatten", "squeeze", "transpose", "sum", "max", "min", "cumsum", "abs", "absolute", "dot",
        "atleast_1d", "atleast_2d", "ascontiguousarray", "diag", "clip", "repeat", "tile", "flip", "sort", "to_numpy", "item",
        "tolist", "head", "tail", "diagonal", "take", "append", "concatenate", "hstack", "vstack", "zeros_like", "ones_like",
        "empty_like", "full_like", "amax", "amin", "maximum", "minimum"}
LIKE = {"zeros_like", "ones_like", "empty_like", "full_like"}
ARRAYS = SAME | {"array", "asarray", "asanyarray", "fromiter", "arange"}


class V:
    __slots__ = ("shape", "k", "items")

    def __init__(self, shape, k="U", items=None):
        self.shape, self.k, self.items = shape, k, items

    def key(self):
        return (self.shape, self.k, None if self.items is None else tuple(i.key() for i in self.items))


UNK = V("any")
BOT = None


def joink(a, b):
    if a == b:
        return a
    if "U" in (a, b):
        return "U"
    return "N"


def join(a, b):
    if a is BOT:
        return b
    if b is BOT:
        return a
    if a.shape == "none" or b.shape == "none":
        return b if a.shape == "none" else a
    if a.shape == b.shape:
        if a.shape == "tup" and len(a.items) == len(b.items):
            return V("tup", "U", [join(x, y) or UNK for x, y in zip(a.items, b.items)])
        if a.shape == "list":
            e = [join(a.items[0] if a.items else BOT, b.items[0] if b.items else BOT)]
            return V("list", "U", [x for x in e if x is not BOT])
        return V(a.shape, joink(a.k, b.k))
    if a.shape in ("tup", "list") or b.shape in ("tup", "list"):
        return UNK
    return V("any", joink(a.k, b.k))


def kind_of(v):
    """Kind of the numbers in a value (of the elements, for a sequence turned into an array)."""
    if v is BOT or v.shape == "none":
        return "U"
    if v.shape in ("tup", "list"):
        ks = [kind_of(i) for i in v.items]
        if not ks or "U" in ks:
            return "U"
        if v.shape == "tup" and "F" in ks:
            return "F"
        k = ks[0]
        for x in ks[1:]:
            k = joink(k, x)
        return k
    return v.k


def element(v):
    if v is BOT:
        return UNK
    if v.shape in ("tup", "list"):
        r = BOT
        for i in v.items:
            r = join(r, i)
        return r if r is not BOT else UNK
    if v.shape in ("any", "arr"):
        return V("any" if v.shape == "any" else "arr", v.k)
    return UNK


class Package:
    def __init__(self, repo):
        self.mods, self.funcs, self.classes = {}, {}, {}
        root = os.path.join(repo, "pypfopt")
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, repo)
                    tree = ast.parse(open(p).read())
                    self.mods[rel] = tree
                    for s in tree.body:
                        if isinstance(s, ast.FunctionDef):
                            self.funcs[s.name] = (rel, None, s)
                        elif isinstance(s, ast.ClassDef):
                            bases = [b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else "" for b in s.bases]
                            self.classes[s.name] = (rel, bases, {m.name: m for m in s.body if isinstance(m, ast.FunctionDef)})
        self.attrs = {}
        self.memo = {}
        self.depth = 0
        self.hits = {}
        self.sites = set()
        self.changed = False

    def method(self, cls, name):
        while cls in self.classes:
            rel, bases, ms = self.classes[cls]
            if name in ms:
                return rel, cls, ms[name]
            nxt = [b for b in bases if b in self.classes]
            if not nxt:
                return None
            cls = nxt[0]
        return None

    def attr(self, cls, name):
        return self.attrs.get((cls, name), BOT)

    def set_attr(self, cls, name, v):
        old = self.attrs.get((cls, name), BOT)
        new = join(old, v)
        if (old.key() if old else None) != (new.key() if new else None):
            self.attrs[(cls, name)] = new
            self.changed = True

    def analyse(self):
        """Attributes to a fixpoint, then every function once more with its sinks recorded."""
        for _ in range(6):
            self.changed = False
            self.memo = {}
            self.hits, self.sites = {}, set()
            for cls in self.classes:
                c, names = cls, {}
                while c in self.classes:
                    for n in self.classes[c][2]:
                        names.setdefault(n, c)
                    nxt = [b for b in self.classes[c][1] if b in self.classes]
                    c = nxt[0] if nxt else None
                for n in sorted(names, key=lambda n: (n != "__init__", n)):
                    if n == "__init__" or not n.startswith("_"):
                        self.call(self.method(cls, n), cls, None, {})
            for n, f in self.funcs.items():
                if not n.startswith("_"):
                    self.call(f, None, None, {})
            if not self.changed:
                break

    def call(self, target, cls, args, kw):
        """Result of a function of the package; args None: an entry point, given numbers of the caller."""
        rel, owner, fn = target
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list)
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if owner and not static and names:
            env[names.pop(0)] = V("self")
        defaults = dict(zip(reversed(names), reversed(a.defaults)))
        for i, n in enumerate(names):
            if args is None:
                d = defaults.get(n)
                plain = isinstance(d, ast.Constant) and isinstance(d.value, (str, bool))
                env[n] = UNK if plain else V("any", "N")
            elif i < len(args):
                env[n] = args[i]
            elif n in kw:
                env[n] = kw[n]
            elif n in defaults and isinstance(defaults[n], ast.Constant):
                env[n] = const(defaults[n].value)
            else:
                env[n] = UNK
        for x in a.kwonlyargs:
            env[x.arg] = kw.get(x.arg, UNK)
        key = (rel, fn.lineno, cls, tuple(sorted((n, v.key()) for n, v in env.items())))
        if key in self.memo:
            return self.memo[key]
        if self.depth > 12:
            return UNK
        self.memo[key] = UNK
        self.depth += 1
        try:
            r = Flow(self, rel, cls, fn, env).run()
        finally:
            self.depth -= 1
        self.memo[key] = r
        return r


def const(v):
    if isinstance(v, bool) or isinstance(v, str):
        return UNK
    if v is None:
        return V("none")
    if isinstance(v, int):
        return V("num", "Z")
    if isinstance(v, float):
        return V("num", "F")
    return UNK


class Flow:
    def __init__(self, pkg, rel, cls, fn, env):
        self.pkg, self.rel, self.cls, self.fn, self.env = pkg, rel, cls, fn, env
        self.ret = BOT

    def run(self):
        self.block(self.fn.body)
        return self.ret if self.ret is not BOT else V("none")

    # ---- statements
    def block(self, body):
        for s in body:
            m = getattr(self, "s_" + type(s).__name__, None)
            if m:
                m(s)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Return(self, s):
        self.ret = join(self.ret, self.ev(s.value) if s.value is not None else V("none"))

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.bind(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value), s)

    def s_AugAssign(self, s):
        cur = self.ev(s.target)
        val = self.ev(s.value)
        op = type(s.op).__name__
        new = arith(op, cur, val)
        if isinstance(s.target, ast.Subscript):
            self.store(s.target, new, s)
            return
        self.pkg.sites.add((self.rel, s.lineno))
        if cur is not BOT and cur.shape == "arr" and cur.k in ("Z", "N"):
            if op == "Div":
                self.hit(s, "divides in place an array that holds whole numbers when the caller's numbers are whole")
            elif kind_of(val) == "F" and op in ("Add", "Sub", "Mult", "Pow"):
                self.hit(s, "updates in place with fractions an array that holds whole numbers when the caller's numbers are whole")
        self.bind(s.target, new, s)

    def s_If(self, s):
        self.ev(s.test)
        e0 = dict(self.env)
        self.block(s.body)
        e1, self.env = self.env, e0
        self.block(s.orelse)
        dead1, dead0 = ends(s.body), ends(s.orelse)
        if dead1:
            return
        if dead0:
            self.env = e1
            return
        self.merge(e1)

    def merge(self, other):
        for n in set(self.env) | set(other):
            if n in self.env and n in other:
                self.env[n] = join(self.env[n], other[n])
            else:
                self.env[n] = self.env.get(n, other.get(n))

    def loop(self, s, head):
        for _ in range(3):
            before = dict(self.env)
            head()
            self.block(s.body)
            self.merge(before)
        self.block(s.orelse)

    def s_For(self, s):
        it = s.iter
        self.loop(s, lambda: self.bind(s.target, self.iterate(it), s))

    def s_While(self, s):
        self.loop(s, lambda: self.ev(s.test))

    def s_With(self, s):
        for i in s.items:
            self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, UNK, s)
        self.block(s.body)

    def s_Try(self, s):
        before = dict(self.env)
        self.block(s.body)
        self.block(s.orelse)
        after = self.env
        for h in s.handlers:
            self.env = dict(before)
            if h.name:
                self.env[h.name] = UNK
            self.block(h.body)
            if not ends(h.body):
                e, self.env = self.env, after
                self.merge(e)
                after = self.env
        self.env = after
        self.block(s.finalbody)

    def bind(self, t, v, s):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = any(isinstance(x, ast.Starred) for x in t.elts)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, UNK, s)
                elif v is not BOT and v.shape == "tup" and len(v.items) == len(t.elts) and not star:
                    self.bind(x, v.items[i], s)
                else:
                    self.bind(x, element(v), s)
        elif isinstance(t, ast.Attribute):
            if self.is_self(t.value):
                self.pkg.set_attr(self.cls, t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.store(t, v, s)

    def store(self, t, v, s):
        self.pkg.sites.add((self.rel, s.lineno))
        self.ev(t.slice)
        base = self.ev(t.value)
        if base is not BOT and base.shape == "arr" and base.k in ("Z", "N") and kind_of(v) in ("F", "N"):
            if not (kind_of(v) == "N" and base.k == "N" and same_source(t.value, s)):
                self.hit(s, "stores fractions in an array that holds whole numbers when the caller's numbers are whole")

    def hit(self, s, why):
        owner = (self.cls + "." if self.cls else "") + self.fn.name
        self.pkg.hits[(self.rel, s.lineno)] = (owner, why, ast.unparse(s))

    # ---- expressions
    def is_self(self, e):
        return isinstance(e, ast.Name) and e.id in self.env and self.env[e.id] is not BOT and self.env[e.id].shape == "self"

    def iterate(self, e):
        if isinstance(e, ast.Call):
            f = e.func.id if isinstance(e.func, ast.Name) else ""
            if f == "range":
                return V("num", "Z")
            if f == "enumerate" and e.args:
                return V("tup", "U", [V("num", "Z"), self.iterate(e.args[0])])
            if f == "zip":
                return V("tup", "U", [self.iterate(x) for x in e.args])
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("items", "iteritems"):
                return V("tup", "U", [UNK, element(self.ev(e.func.value))])
            if isinstance(e.func, ast.Attribute) and e.func.attr == "keys":
                return UNK
        return element(self.ev(e))

    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m:
            return m(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return UNK

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        return self.env.get(e.id, UNK) or UNK

    def e_Lambda(self, e):
        return UNK

    def e_Tuple(self, e):
        return V("tup", "U", [self.ev(x) for x in e.elts])

    def e_List(self, e):
        items = [self.ev(x) for x in e.elts]
        if not items:
            return V("list", "U", [])
        ks = [kind_of(i) for i in items]
        if "F" in ks and "U" not in ks and all(i.shape in ("num", "any") for i in items):
            return V("list", "U", [V("num", "F")])
        r = BOT
        for i in items:
            r = join(r, i)
        return V("list", "U", [r])

    def comp(self, e):
        env = dict(self.env)
        for g in e.generators:
            self.bind(g.target, self.iterate(g.iter), e)
            for c in g.ifs:
                self.ev(c)
        v = self.ev(e.elt)
        self.env = env
        return V("list", "U", [v])

    e_ListComp = e_GeneratorExp = comp

    def e_IfExp(self, e):
        self.ev(e.test)
        return join(self.ev(e.body), self.ev(e.orelse)) or UNK

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        return v if isinstance(e.op, (ast.USub, ast.UAdd)) else UNK

    def e_BinOp(self, e):
        return arith(type(e.op).__name__, self.ev(e.left), self.ev(e.right))

    def e_Attribute(self, e):
        if self.is_self(e.value):
            v = self.pkg.attr(self.cls, e.attr)
            return v if v is not BOT else UNK
        v = self.ev(e.value)
        if e.attr in ("T", "flat"):
            return v
        if e.attr == "values":
            return V("arr", v.k) if v.shape in ("any", "arr") else UNK
        if e.attr in ("loc", "iloc", "at", "iat"):
            return v
        return UNK

    def e_Subscript(self, e):
        v = self.ev(e.value)
        if not isinstance(e.slice, ast.Slice):
            self.ev(e.slice)
        if v is BOT:
            return UNK
        if v.shape == "tup" and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(v.items) <= e.slice.value < len(v.items):
            return v.items[e.slice.value]
        if v.shape == "list" and isinstance(e.slice, ast.Slice):
            return v
        return element(v)

    def e_Call(self, e):
        f = e.func
        args = [self.ev(x) for x in e.args]
        kw = {k.arg: self.ev(k.value) for k in e.keywords if k.arg}
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        dtype = next((k.value for k in e.keywords if k.arg == "dtype"), None)
        star = any(isinstance(x, ast.Starred) for x in e.args) or any(k.arg is None for k in e.keywords)
        # functions and methods of the package
        if not star:
            if isinstance(f, ast.Name) and name in self.pkg.funcs and name not in self.env:
                return self.pkg.call(self.pkg.funcs[name], None, args, kw)
            if isinstance(f, ast.Attribute):
                if self.is_self(f.value):
                    t = self.pkg.method(self.cls, name)
                    return self.pkg.call(t, self.cls, args, kw) if t else UNK
                if isinstance(f.value, ast.Name) and f.value.id in self.pkg.classes:
                    t = self.pkg.method(f.value.id, name)
                    return self.pkg.call(t, f.value.id, args, kw) if t else UNK
                if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and self.cls:
                    mine = [c for c in self.pkg.classes if self.fn in self.pkg.classes[c][2].values()]
                    base = [b for b in self.pkg.classes[mine[0]][1] if b in self.pkg.classes] if mine else []
                    t = self.pkg.method(base[0], name) if base else None
                    return self.pkg.call(t, self.cls, args, kw) if t else UNK
        if isinstance(f, ast.Name):
            if name in ("int", "len", "round"):
                return V("num", "Z") if name != "round" or len(args) == 1 else V("num", "N")
            if name == "float":
                return V("num", "F")
            if name in ("sum", "abs", "max", "min") and args:
                k = kind_of(args[0]) if len(args) == 1 else _many(args)
                return V("any", k)
            if name in ("list", "tuple", "sorted", "reversed") and args:
                v = args[0]
                return V("list", "U", [element(v)]) if v is not BOT and v.shape in ("any", "arr") else v
            return UNK
        if not isinstance(f, ast.Attribute):
            return UNK
        module = isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy", "math") and f.value.id not in self.env \
            or isinstance(f.value, ast.Attribute) and isinstance(f.value.value, ast.Name) and f.value.value.id in ("np", "numpy") \
            and f.value.attr == "linalg"
        if module:
            if name in FLOATY:
                if dtype is None and name in ("zeros", "ones", "empty", "full") and len(e.args) > (2 if name == "full" else 1):
                    dtype = e.args[2 if name == "full" else 1]
                if dtype is not None:
                    return V("arr", typed(dtype))
                if name == "full":
                    return V("arr", kind_of(args[1]) if len(args) > 1 else "U")
                return V("arr", "F")
            if name in ARRAYS:
                if dtype is None and name in ("array", "asarray", "asanyarray", "fromiter") and len(e.args) > 1:
                    dtype = e.args[1]
                if dtype is not None:
                    return V("arr", typed(dtype))
                if name in LIKE:
                    return V("arr", kind_of(args[0])) if args else UNK
                if name == "arange":
                    return V("arr", _many(args))
                if name in ("append", "concatenate", "dot", "maximum", "minimum", "hstack", "vstack"):
                    ks = [kind_of(a) for a in args[:2] if a is not BOT]
                    if "F" in ks and "U" not in ks:
                        return V("arr", "F")
                    return V("arr", _many(args[:2])) if len(ks) == 2 else UNK
                return V("arr", kind_of(args[0])) if args else UNK
            return UNK
        base = self.ev(f.value)
        if name == "append" and base is not BOT and base.shape == "list" and args:
            new = V("list", "U", [join(base.items[0] if base.items else BOT, args[0])])
            if isinstance(f.value, ast.Name):
                self.env[f.value.id] = new
            elif isinstance(f.value, ast.Attribute) and self.is_self(f.value.value):
                self.pkg.set_attr(self.cls, f.value.attr, new)
            return V("none")
        if name == "astype":
            return V("arr" if base is not BOT and base.shape == "arr" else "any", typed(e.args[0]) if e.args else "U")
        if name in ("mean", "std", "var"):
            return V("any", "F")
        if name in SAME and base is not BOT and base.shape in ("arr", "any"):
            return V("arr" if base.shape == "arr" or name == "to_numpy" else "any", base.k)
        return UNK


def _many(args):
    ks = [kind_of(a) for a in args]
    if not ks or "U" in ks:
        return "U"
    if "F" in ks:
        return "F"
    return "N" if "N" in ks else "Z"


def arith(op, a, b):
    if a is BOT or b is BOT or a.shape in ("tup", "none", "self") or b.shape in ("tup", "none", "self"):
        return UNK
    if a.shape == "list" or b.shape == "list":
        if op == "Add" and a.shape == b.shape:
            return join(a, b)
        if op == "Mult" and (a.shape == "num" or b.shape == "num"):
            return a if a.shape == "list" else b
        if a.shape not in ("arr", "any") and b.shape not in ("arr", "any"):
            return UNK
    shape = "arr" if "arr" in (a.shape, b.shape) else "num" if a.shape == b.shape == "num" else "any"
    ka, kb = kind_of(a), kind_of(b)
    if op == "Div":
        return V(shape, "F" if "U" not in (ka, kb) else "U")
    if op in ("Add", "Sub", "Mult", "Pow", "MatMult", "FloorDiv", "Mod"):
        if "F" in (ka, kb):
            return V(shape, "F")
        if "U" in (ka, kb):
            return V(shape, "U")
        return V(shape, "Z" if ka == kb == "Z" else "N")
    return UNK


def typed(d):
    n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else d.value if isinstance(d, ast.Constant) else ""
    if n in ("float", "float64", "double", "float32", "f8", "d", "longdouble"):
        return "F"
    if n in ("int", "int64", "int32", "i8", "intp"):
        return "Z"
    return "U"


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def same_source(base, s):
    """The value stored comes from the array itself."""
    val = getattr(s, "value", None)
    names = {n.id for n in ast.walk(val) if isinstance(n, ast.Name)} if val is not None else set()
    mine = {n.id for n in ast.walk(base) if isinstance(n, ast.Name)}
    return bool(names) and names <= mine


PROPS = {"cla.py": "C18", "discrete_allocation.py": "C19", "hierarchical_portfolio.py": "C17", "base_optimizer.py": "C07",
         "black_litterman.py": "C15", "expected_returns.py": "C12", "risk_models.py": "C10", "objective_functions.py": "C09",
         "plotting.py": "C23"}


def check(repo):
    """(property, file, line, owner, why, text) for every lossy site, and the number of sites looked at per property."""
    p = Package(repo)
    p.analyse()
    hits = []
    for (rel, line), (owner, why, text) in sorted(p.hits.items()):
        hits.append((PROPS.get(os.path.basename(rel), "C07"), rel, line, owner, why, text))
    sites = {}
    for rel, line in p.sites:
        k = PROPS.get(os.path.basename(rel), "C07")
        sites[k] = sites.get(k, 0) + 1
    return hits, sites


if __name__ == "__main__":
    import sys
    h, n = check(sys.argv[1])
    for x in h:
        print(x)
    print(n)
