"""Running spec cases and turning them into obligations per property."""
import ast
import itertools
import os
import string
import traceback

from . import compare as cp, lib, terms as tm
from .case import World
from .engine import AnchorMissing, Cls, Func, Mod
from .terms import *  # noqa

PYPF = ["base_optimizer", "black_litterman", "cla", "discrete_allocation", "expected_returns", "hierarchical_portfolio",
        "objective_functions", "risk_models", "plotting", "efficient_frontier.efficient_frontier",
        "efficient_frontier.efficient_semivariance", "efficient_frontier.efficient_cvar", "efficient_frontier.efficient_cdar"]

DEFAULT_MAP = {
    "objective": "C02", "constraints": "C01", "solver": "C02", "problems": "C02", "problem_when": "C02",
    "raises:OptimizationError": "C03", "raises:InstantiationError": "C04",
    "mutate": "C06", "effects": "C21", "raises:ImportError": "C22",
    # compared only where a specification says what is reported
    "printed": "-",
}


PRESETS = {
    # what a repeated solve gets wrong is wrong for C05 and for the property of the single solve
    "again": {"objective": "C05+C02", "constraints": "C05+C01", "problem_when": "C05+C02", "problems": "C05+C02", "solver": "C05+C02",
              "second": "C05+C07", "first": "C07", "attr": "C05+C07", "raises:OptimizationError": "C03+C05",
              "raises:InstantiationError": "C04+C05", "raises:ValueError": "C20+C05"},
    # the integer programme is the allocation
    "shares": {"objective": "C19", "constraints": "C19", "problem_when": "C19", "problems": "C19", "solver": "C19",
               "shares": "C19", "left": "C19", "attr": "C19"},
    "report": {"objective": "C19", "constraints": "C19", "problem_when": "C19", "problems": "C19", "solver": "C19",
               "shares": "C19", "left": "C19", "attr": "C19", "printed": "C19"},
    "figure": {"drawing": "C23"},
}
RAISES_TOO = frozenset("C05 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C23 C25".split())


class Obligation:
    def __init__(self, prop, case, inst, obs, status, why="", want=None, found=None, loc=None, known=False):
        self.prop, self.case, self.inst, self.obs = prop, case, inst, obs
        self.status, self.why, self.want, self.found, self.loc, self.known = status, why, want, found, loc, known

    @property
    def key(self):
        return "%s/%s" % (self.case, self.obs)

    @property
    def name(self):
        return "%s%s/%s" % (self.case, self.inst, self.obs)


def load_world(repo, specdir):
    W = World(repo, specdir)
    W.load("pypfopt")
    for m in PYPF:
        W.load("pypfopt." + m)
    specs = sorted(f[:-3] for f in os.listdir(specdir) if f.endswith(".py") and f != "__init__.py")
    for s in specs:
        W.load("spec." + s)
    W.freeze()
    W.specs = specs
    return W


def class_consts(node):
    out = {}
    for s in node.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            try:
                out[s.targets[0].id] = ast.literal_eval(s.value)
            except ValueError:
                pass
    return out


class Case:
    pass


def cases(W, only=None):
    out = []
    for s in W.specs:
        path = os.path.join(W.I.roots["spec"], s + ".py")
        tree = ast.parse(open(path).read())
        fr = W.I.st.heap if False else W.base.heap
        modfr = fr[W.mods_frame(s)] if hasattr(W, "mods_frame") else fr[W.I.modules["spec." + s].frame.id]
        for n in tree.body:
            if not isinstance(n, ast.ClassDef):
                continue
            fns = {f.name for f in n.body if isinstance(f, ast.FunctionDef)}
            meta = class_consts(n)
            if "code" not in fns and "bases" not in meta and not n.bases:
                continue
            cls = modfr.vars.get(n.name)
            if not isinstance(cls, Cls):
                continue
            c = Case()
            c.cls, c.spec = cls, s
            c.name = n.name
            c.fns = {}
            c.meta = {}
            for k in reversed([x for x in cls.mro() if isinstance(x, Cls)]):
                f = fr[k.frame.id]
                for nm, v in f.vars.items():
                    if isinstance(v, Func):
                        c.fns[nm] = v
                    elif hasattr(v, "func") and isinstance(v.func, Func):
                        c.fns[nm] = v.func
                kn = W.class_nodes.get(k.name) if hasattr(W, "class_nodes") else None
                if kn is not None:
                    c.meta.update(class_consts(kn))
            c.meta.update(meta)
            if "code" not in c.fns or "want" not in c.fns or c.meta.get("abstract"):
                if not ("abstract" in meta):
                    c.meta["abstract"] = True
                continue
            if only and not any(o[1:] == c.name if o[0] == "=" else o in c.name for o in only):
                continue
            out.append(c)
    return out


def index_classes(W):
    W.class_nodes = {}
    for s in W.specs:
        tree = ast.parse(open(os.path.join(W.I.roots["spec"], s + ".py")).read())
        for n in tree.body:
            if isinstance(n, ast.ClassDef):
                W.class_nodes[n.name] = n


def params_of(c):
    """Expand the annotated parameters of code() into instances."""
    fn = c.fns["code"]
    dims = []
    for a in fn.node.args.args:
        ann = a.annotation
        kinds = c.meta.get("kinds", {})
        if a.arg in kinds:
            v = kinds[a.arg]
        elif ann is None:
            raise ValueError("%s: parameter %s has no kind" % (c.name, a.arg))
        else:
            v = ast.literal_eval(ann)
        if isinstance(v, (list, tuple)):
            dims.append([(a.arg, ("=" + x if isinstance(x, str) else x), True) for x in v])
        elif isinstance(v, str) and "|" in v:
            dims.append([(a.arg, x, True) for x in v.split("|")])
        else:
            dims.append([(a.arg, v, False)])
    for combo in itertools.product(*dims):
        ps = [(n, k) for n, k, lit in combo]
        inst = ",".join("%s=%s" % (n, k) for n, k, lit in combo if lit)
        yield ps, ("[%s]" % inst if inst else "")


# what a figure shows: calls that put data, labels or output into it, and their arguments that carry data
DRAWS = {"plot", "scatter", "barh", "imshow", "annotate", "savefig", "show", "dendrogram", "add_trace", "set_xticks", "set_yticks",
         "set_xticklabels", "set_yticklabels", "set_xlabel", "set_ylabel", "Scatter", "colorbar", "text", "bar", "fill_between", "hlines",
         "axhline", "axvline", "vlines", "invert_yaxis", "invert_xaxis", "set_xlim", "set_ylim", "errorbar", "clf", "cla", "clear", "close"}
DRAW_KW = {"x", "y", "customdata", "fname", "dpi", "labels", "no_labels", "ax", "width", "bottom", "left"}
OUT = {"savefig", "show"}


def draw_of(t):
    """The data a drawing call carries, None when it only styles the figure."""
    if t.op in ("each", "bind", "guarded"):
        args = [draw_of(a) if isinstance(a, T) and "gfx" in a.ops else a for a in t.args]
        if any(a is None for a in args):
            return None
        return tm._node(t.op, tuple(args), t.attr, t.ty)
    if t.op != "gfx":
        return t
    path, na, kws = t.attr
    name = path.split(".")[-1]
    if name not in DRAWS:
        return None
    nb = len(t.args) - na - len(kws)
    keep = [k in DRAW_KW for k in kws]
    args = [draw_arg(a) for a in t.args[: nb + na]] + [draw_arg(a) for a, k in zip(t.args[nb + na:], keep) if k]
    return tm._node("gfx", tuple(args), (name, na, tuple(k for k, y in zip(kws, keep) if y)), t.ty)


def draw_arg(a):
    if a.op == "gfx" and a.attr[0].split(".")[-1] == "Scatter":
        return draw_of(a)
    return a


def is_output(t):
    while t.op in ("each", "guarded", "bind"):
        t = t.args[0] if t.op == "bind" else t.args[1]
    return t.op == "gfx" and t.attr[0].split(".")[-1] in OUT


def numbers_printed(t):
    """The values a print statement formats, scaled as displayed; texts and precision do not count."""
    if t.op == "ite":
        # number by number across the branches
        a, b = numbers_printed(t.args[1]), numbers_printed(t.args[2])
        if len(a) == len(b):
            return [ite(batom(t.args[0]), x, y) for x, y in zip(a, b)]
        g = batom(t.args[0])
        return [tm._node("guarded", (g, x), None, x.ty) for x in a] + [tm._node("guarded", (b_not(g), x), None, x.ty) for x in b]
    if t.op in ("tuple", "list", "str") and len(t.args) == 1:
        return numbers_printed(t.args[0])
    out = []

    def number(x, spec):
        if x.op == "c" and isinstance(x.attr[1], str):
            return
        while x.op == "round":
            x = x.args[0]
        if isinstance(spec, str) and spec.endswith("%") and x.ty[0] in ("num", "?"):
            x = mul(x, num(100))
        out.append(x)

    def go(x):
        if x.op == "fmt":
            tpl = x.args[0]
            if tpl.op == "c" and isinstance(tpl.attr[1], str) and "{" in tpl.attr[1]:
                try:
                    specs = [p[2] for p in string.Formatter().parse(tpl.attr[1]) if p[1] is not None]
                except ValueError:
                    specs = []
                for k, a in enumerate(x.args[1:]):
                    if a.op in ("fmt", "fmtv"):
                        go(a)
                    else:
                        number(a, specs[k] if k < len(specs) else "")
            else:
                for a in x.args:
                    go(a)
        elif x.op == "fmtv":
            sp = x.args[1]
            number(x.args[0], sp.attr[1] if sp.op == "c" else "")
        elif x.op in ("tuple", "list"):
            for a in x.args:
                go(a)
        elif x.op == "str" and len(x.args) == 1:
            go(x.args[0])
        elif not (x.op == "c" and isinstance(x.attr[1], str)):
            number(x, "")

    if t.op in ("each", "bind", "guarded"):
        if t.op == "bind":
            return [bind(x, *bvars(t)) for x in numbers_printed(t.args[0])]
        return [tm._node(t.op, (t.args[0], x), t.attr, t.ty) for x in numbers_printed(t.args[1])]
    go(t)
    return out


def ev_canon(o, m):
    """Observable events by kind, with their conditions."""
    warns, prints, files, mut, other, gfx, said = {}, {}, [], {}, {}, {}, {}
    outs = []
    for e in o.events:
        t = subst(e.t, m) if m else e.t
        pc = subst(e.pc, m) if m else e.pc
        if e.kind == "solve":
            continue
        if e.kind == "warn":
            warns[t] = b_or(warns.get(t, FALSE), pc)
        elif e.kind == "print":
            prints["print"] = b_or(prints.get("print", FALSE), pc)
            for x in numbers_printed(t):
                said[x] = b_or(said.get(x, FALSE), pc)
        elif e.kind == "mutate":
            mut[t] = (b_or(mut.get(t, (FALSE,))[0], pc), e.loc)
        elif e.kind == "file":
            files.append((t, pc))
        elif e.kind == "eff":
            d = draw_of(t)
            if d is not None:
                # drawing after the figure was written out or shown is another figure
                late = [x for x in outs if not is_output(t)]
                d = tm._node("late", (d,) + tuple(late), None, ("obj", None)) if late else d
                if is_output(t):
                    outs.append(d)
                gfx[d] = b_or(gfx.get(d, FALSE), pc)
        else:
            k = tm._node("event", (t,), e.kind, ("obj", None))
            other[k] = (b_or(other.get(k, (FALSE,))[0], pc), e.loc)
    return warns, prints, files, mut, other, gfx, said


def cond_map_term(d):
    ks = [k for k in sorted(d, key=lambda t: t.dig) if d[k] is not FALSE]
    return tm._node("condset", tuple(tm._node("guarded", (d[k], k), None, ("?", None)) for k in ks), None, ("obj", None))


def seq_normal(xs):
    """Effects under exclusive conditions have no order; the same effect under each of them is one effect."""
    xs = [(t, c) for t, c in xs if c is not FALSE]
    apart = lambda a, b: b_and(a, b) is FALSE  # noqa
    k = 0
    while k < len(xs):
        t, c = xs[k]
        for j in range(k - 1, -1, -1):
            if xs[j][0] is t and apart(xs[j][1], c):
                xs[j] = (t, b_or(xs[j][1], c))
                del xs[k]
                k -= 1
                break
            if not apart(xs[j][1], c):
                break
        k += 1
    out = []
    while xs:
        free = [k for k in range(len(xs)) if all(apart(xs[j][1], xs[k][1]) for j in range(k))]
        out.append(xs.pop(min(free, key=lambda k: xs[k][0].dig)))
    return out


def seq_term(xs):
    xs = seq_normal(xs)
    return tm._node("seq", tuple(tm._node("guarded", (c, t), None, ("?", None)) if c is not TRUE else t for t, c in xs
                                 if c is not FALSE), None, ("obj", None))


def prob_list(o):
    out = []
    for pc, p in o.solves:
        if p.t not in out:
            out.append(p.t)
    return out


def prob_when(o, t):
    r = FALSE
    for pc, p in o.solves:
        if p.t is t:
            r = b_or(r, pc)
    return r


def find_loc(o, t, default):
    seen = set()
    st = [t]
    I = o.I
    while st:
        x = st.pop(0)
        if x in seen:
            continue
        seen.add(x)
        l = o.origin.get(x)
        if l is not None and "/pypfopt/" in str(l[0]):
            return l
        st.extend(children(x))
    return default


def run_case(W, c, props=None):
    """List of Obligations for all instances of a case."""
    out = []
    for ps, inst in params_of(c):
        try:
            out += run_inst(W, c, ps, inst)
        except (RecursionError, TooBig) as e:
            out.append(Obligation(c.meta.get("prop", "?"), c.name, inst, "analysis", "undecided", "resource: %r" % (e,)))
        except Exception as e:
            out.append(Obligation(c.meta.get("prop", "?"), c.name, inst, "analysis", "undecided",
                                  "analysis error: %s" % traceback.format_exc()[-600:]))
    return out


STATS = {"functions": set(), "instances": 0, "call_sites": 0, "problems": 0}


def strip_path(loc):
    if not loc:
        return ("?", 0, "?")
    f = str(loc[0])
    k = f.find("/pypfopt/")
    return (f[k + 1:] if k >= 0 else f, loc[1], loc[2])


def run_inst(W, c, ps, inst):
    main = c.meta.get("prop", "?")
    omap = dict(DEFAULT_MAP)
    mp = c.meta.get("map", {})
    omap.update(PRESETS[mp] if isinstance(mp, str) else mp)
    definite = set(c.meta.get("definite", ()))
    skip = set(c.meta.get("skip", ()))
    tm.new_case(".%s%s" % (c.name, inst or ""))
    W.given = c.fns.get("given")
    o = W.run(c.fns["code"], ps)
    origin = o.I.origin
    names = {a.arg for a in c.fns["want"].node.args.args}
    w = W.run(c.fns["want"], [p for p in ps if p[0] in names])
    kn = None
    if "known" in c.fns:
        names = {a.arg for a in c.fns["known"].node.args.args}
        kn = W.run(c.fns["known"], [p for p in ps if p[0] in names])
    STATS["instances"] += 1
    STATS["functions"] |= {f for f in o.calls if f[0].startswith("pypfopt")}
    STATS["call_sites"] += o.sites
    o.origin = origin
    if kn is not None:
        kobs = compare_outcomes(o, kn, definite, skip)
        kstat = {k: v[0] for k, v in kobs.items()}
    res = []
    cmpres = compare_outcomes(o, w, definite, skip)
    if w.unknowns:
        cmpres["spec"] = ("undecided", "spec outside the language: %s" % (w.unknowns[:3],), None, None, None)
    for obs, (st, why, cw, cf, loc) in cmpres.items():
        base = obs.split("#")[0]
        prop = omap.get(obs) or omap.get(base)
        if prop is None and base.startswith("raises:"):
            prop = c.meta.get("raises", "C20" if base in ("raises:ValueError", "raises:TypeError", "raises:AttributeError") else main)
        if prop is None:
            prop = main
        if prop in ("-", None):
            continue
        props = prop.split("+")
        if main in RAISES_TOO and base.startswith("raises:") and base != "raises:ImportError" and main not in props:
            # an answer that is refused, or a refusal that is answered, is also wrong for the computation itself
            props.append(main)
        known = bool(kn is not None and st != "ok" and kstat.get(obs) == "ok")
        for p in props:
            res.append(Obligation(p, c.name, inst, obs, st, why, cw, cf, strip_path(loc), known))
    return res


def compare_outcomes(o, w, definite, skip):
    r = {}
    pc_, pw_ = prob_list(o), prob_list(w)
    mc, mw, rows = cp.match_problems(pc_, pw_)

    def put(obs, a, b, loc=None):
        if obs.split("#")[0] in skip or obs in skip:
            return
        if obs in ("warnings", "files", "drawing") and not a.args and not b.args:
            return
        # whether an import is attempted is decided by the import's own atom: nothing else it mentions is a spelling
        st, why = cp.verdict(a, b, set(definite) | {"exc", "excv", "lib", "len"} if obs == "raises:ImportError" else definite,
                             obs != "raises:ImportError")
        d = cp.first_diff(a, b) if st != "ok" else None
        if st == "undecided" and o.unknowns:
            why += "; unsupported: %s" % (["%s at %s:%s" % (u[0], strip_path(u[1])[0], u[1][1]) for u in o.unknowns[:3]],)
        if d is not None:
            l = find_loc(o, d[1], loc)
            r[obs] = (st, why, show(d[2], 7)[:1500], show(d[1], 7)[:1500], l)
        else:
            r[obs] = (st, why, None, None, loc)

    STATS["problems"] += len(rows)
    none = tm._node("absent", (), None, ("obj", None))
    solveloc = {p.t: p.loc for pc, p in o.solves}
    if len(pc_) != len(pw_):
        put("problems", num(len(pc_)), num(len(pw_)), solveloc.get(pc_[-1]) if pc_ else None)
    for k, (a, b) in enumerate(rows):
        if a is None or b is None:
            continue
        sfx = "" if len(rows) == 1 else "#%d" % k
        loc = solveloc.get(pc_[k])
        for comp in ("objective", "constraints", "solver"):
            put(comp + sfx, a[comp], b[comp], loc)
        put("problem_when" + sfx, subst(prob_when(o, pc_[k]), mc), subst(prob_when(w, pw_[k]), mw), loc)

    def S(t, m):
        return subst(t, m) if m else t

    opc, wpc = S(o.pc, mc), S(w.pc, mw)
    both = b_and(opc, wpc)
    # raise conditions
    rc, rw = {}, {}
    locs = {}
    for pc, nm, loc in o.sinks:
        rc[nm] = b_or(rc.get(nm, FALSE), S(pc, mc))
        locs.setdefault(nm, loc)
    for pc, nm, loc in w.sinks:
        rw[nm] = b_or(rw.get(nm, FALSE), S(pc, mw))
    for nm in sorted(set(rc) | set(rw)):
        put("raises:" + nm, rc.get(nm, FALSE), rw.get(nm, FALSE), locs.get(nm))
    # values
    for k in w.obs:
        if k not in o.obs:
            if not o.dead:
                r[k] = ("undecided", "observable not produced", None, None, None)
            elif wpc is not FALSE and both is not FALSE:
                r[k] = ("violated", "never returns", None, None, None)
            continue
        put(k, cp.deep_constrain(S(o.obs[k], mc), both), cp.deep_constrain(S(w.obs[k], mw), both))
    if o.dead and not w.dead and not any(x.startswith("raises:") and v[0] != "ok" for x, v in r.items()):
        r["returns"] = ("violated", "the code never returns", None, None, o.sinks[0][2] if o.sinks else None)
    # events
    # warnings, prints and files count on the paths that return (an exception reports itself)
    ec, ew = ev_canon(o, mc), ev_canon(w, mw)
    for e in (ec, ew):
        for d in (e[0], e[1], e[5], e[6]):
            for k in d:
                d[k] = b_and(d[k], both)
        for l in (e[2],):
            l[:] = [(t, b_and(c, both)) for t, c in l]
        for k, v in e[4].items():
            e[4][k] = (b_and(v[0], both), v[1])
    put("warnings", cond_map_term(ec[0]), cond_map_term(ew[0]))
    a = {tm._node("mut", (k,), None, ("obj", None)): v[0] for k, v in ec[3].items()}
    b = {tm._node("mut", (k,), None, ("obj", None)): v[0] for k, v in ew[3].items()}
    put("mutate", cond_map_term(a), cond_map_term(b), next((v[1] for k, v in ec[3].items()), None))
    a = {k: v[0] for k, v in ec[4].items()}
    b = {k: v[0] for k, v in ew[4].items()}
    a[tm._node("print", (), None, ("obj", None))] = ec[1].get("print", FALSE)
    b[tm._node("print", (), None, ("obj", None))] = ew[1].get("print", FALSE)
    put("effects", cond_map_term(a), cond_map_term(b), next((v[1] for k, v in ec[4].items()), None))
    put("printed", cond_map_term(ec[6]), cond_map_term(ew[6]))
    put("files", seq_term(ec[2]), seq_term(ew[2]))
    put("drawing", cond_map_term(ec[5]), cond_map_term(ew[5]))
    return r
