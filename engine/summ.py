"""Function summaries: the paths of one function, each as (canonical branch conditions, returned term)."""
import itertools
import re
import absint as A
from ctx import *
import guards


class SummRule(InlineRule):
    """Records every branch decision as a mark; nothing outside `inline` prefixes is opaque unless listed."""
    pre = ("logs::",)

    def __init__(self, prog, opaque=(), inline_all=True):
        InlineRule.__init__(self, prog)
        self.opaque |= {p for p in prog.fns if p.split("::")[-1] in opaque or p in opaque}
        self.D = guards.Desc(self)
        self.entry = {}

    def on_branch(self, an, st, fr, t, val):
        return st.marks | {guards.atom(self.D, t, val)}

    def on_loop(self, an, st, fr, hdr, first):
        # every iteration starts from the conditions known before the loop
        e = self.entry.setdefault(hdr, set())
        if first:
            e |= st.marks
        keep = {x for x in st.marks if x in e}
        last = frozenset(x for x in st.marks if x not in e and isinstance(x, str))
        return frozenset(keep | {("last", last)}) if last else st.marks


def outcomes(c, path, opaque=(), args=None, rule=None, limit=200000):
    """-> (rule, [(frozenset of atoms, returned term, state)])"""
    f = c.fn(path)
    r = rule or SummRule(c.prog, opaque)
    an = A.Analyzer(c.prog, r, limit)
    if args is None:
        names = arg_names(f)
        args = [T("arg", n) for n in names]
    outs = an.run(path, args)
    return r, [(frozenset(x for x in s.marks if isinstance(x, str)), rv, s) for s, rv in outs]


def last(s):
    """Conditions decided in the last completed loop iteration."""
    return frozenset(a for x in s.marks if isinstance(x, tuple) and x[0] == "last" for a in x[1])


def arg_names(f):
    n = f["argc"]
    names = {}
    for d in f.get("dbg", []):
        if isinstance(d[1], list) and len(d[1]) == 2 and d[1][1] == [] and 1 <= d[1][0] <= n:
            names.setdefault(d[1][0], d[0])
    return [names.get(i, "a%d" % i) for i in range(1, n + 1)]


def neg(a):
    """Negation of a canonical atom."""
    for x, y in ((" == ", " != "), (" != ", " == ")):
        if x in a and depth0(a, x):
            return a.replace(x, y)
    for x, y in ((" < ", " <= "), (" <= ", " < ")):
        i = split0(a, x)
        if i is not None:
            return i[1] + y + i[0]
    return a[1:] if a.startswith("!") else "!" + a


def split0(a, sep):
    d = 0
    i = 0
    while i < len(a):
        ch = a[i]
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        elif d == 0 and a.startswith(sep, i):
            return a[:i], a[i + len(sep):]
        i += 1
    return None


def depth0(a, sep):
    return split0(a, sep) is not None


def base(a):
    """(base predicate, polarity)"""
    s = split0(a, " != ")
    if s:
        return s[0] + " == " + s[1], False
    s = split0(a, " <= ")
    if s:
        return s[1] + " < " + s[0], False
    if a.startswith("!"):
        return a[1:], False
    return a, True


def dnf(r, outs):
    """The condition under which a bool function returns true, as a set of conjunctions of canonical atoms."""
    res = set()
    for m, rv, s in outs:
        while rv.op in ("cast",):
            rv = rv.args[-1]
        if rv.op == "int":
            if rv.args[0]:
                res.add(frozenset(m))
        else:
            val = True
            while rv.op in ("un", "not") and (rv.op == "not" or rv.args[0] == "Not"):
                rv = rv.args[-1]
                val = not val
            res.add(frozenset(m | {guards.atom(r.D, rv, val)}))
    return res


def norm(conj):
    return {base(a) for a in conj}


def equivalent(a, b):
    """Two DNFs (sets of conjunctions of atoms) have the same truth table."""
    a = [norm(x) for x in a]
    b = [norm(x) for x in b]
    vs = sorted({v for x in a + b for v, _ in x})
    if len(vs) > 12:
        return False
    for bits in itertools.product((False, True), repeat=len(vs)):
        e = dict(zip(vs, bits))
        if any(all(e[v] == p for v, p in x) for x in a) != any(all(e[v] == p for v, p in x) for x in b):
            return False
    return True


def closures_of(c, path):
    return sorted(p for p in c.prog.fns if p.startswith(path + "::{closure") and "promoted" not in p)


CHAIN = ("iter", "iter_mut", "into_iter", "copied", "cloned", "rev", "by_ref")


def clo_path(t):
    cp = [x for x in subterms(t) if x.op == "agg" and str(x.args[0]).startswith("clo:")]
    return str(cp[0].args[0])[4:] if cp else None


class Undecided(Exception):
    pass


def run_pred(c, t, item):
    """Disjunction of conjunctions under which the predicate closure `t` holds of an item term."""
    p = clo_path(t)
    if p not in c.prog.fns:
        raise Undecided("closure of unknown body")
    r, o = outcomes(c, p, args=[T("arg", "clo"), item])
    return dnf(r, o)


def chain(c, r, t):
    """Iterator term -> (collection text, [(conjunction, item term)])."""
    while t.op == "ref" and t.args[0].op == "obj":
        t = t.args[0].args[0]
    if t.op == "iter":
        return r.D(t.args[0]), [(frozenset(), T("arg", "it"))]
    if t.op == "itad" and t.args[0] in ("copied", "cloned", "rev"):
        return chain(c, r, t.args[1][0])
    if t.op == "call":
        f = str(t.args[0]).split("::")[-1]
        a = t.args[1]
        if f in CHAIN:
            return chain(c, r, a[0]) if a[0].op in ("iter", "itad", "call") else (r.D(a[0]), [(frozenset(), T("arg", "it"))])
        if f == "filter":
            coll, its = chain(c, r, a[0])
            return coll, [(x | y, it) for x, it in its for y in run_pred(c, a[1], it)]
        if f == "map":
            coll, its = chain(c, r, a[0])
            p = clo_path(a[1])
            if p not in c.prog.fns:
                raise Undecided("map closure")
            res = []
            for x, it in its:
                rr, o = outcomes(c, p, args=[T("arg", "clo"), it])
                res += [(x | frozenset(m), rv) for m, rv, s in o]
            return coll, res
    raise Undecided("iterator %s" % t.op)


def negdnf(d):
    out = {frozenset()}
    for conj in d:
        out = {x | {neg(a)} for x in out for a in conj}
    return out


def quantified(c, r, t, val=True):
    """[(collection, dnf over `it`)] of a boolean term that quantifies over a collection; None if it does not."""
    while t.op in ("not", "un", "cast"):
        if t.op != "cast":
            val = not val
        t = t.args[-1]
    if t.op == "call":
        f = str(t.args[0]).split("::")[-1]
        a = t.args[1]
        if f in ("any", "all"):
            if (f == "any") != val:
                return None
            coll, its = chain(c, r, a[0])
            d = set()
            for x, it in its:
                for y in (run_pred(c, a[1], it) if f == "any" else negdnf(run_pred(c, a[1], it))):
                    d.add(x | y)
            return coll, d
        if f in ("is_some", "is_none") and (f == "is_some") == val:
            return quantified(c, r, a[0])
        if f in ("find", "position") and val:
            coll, its = chain(c, r, a[0])
            return coll, {x | y for x, it in its for y in run_pred(c, a[1], it)}
        if f == "count" and val:
            coll, its = chain(c, r, a[0])
            return coll, {x for x, it in its}
    if t.op == "eq" and t.args[0].op == "disc" and t.args[1].op == "int" and bool(t.args[1].args[0]) == val:
        return quantified(c, r, t.args[0].args[0])
    if t.op == "lt" and t.args[0].op == "int" and t.args[0].args[0] == 0 and val:
        return quantified(c, r, t.args[1])
    if t.op == "eq" and t.args[1].op == "int" and t.args[1].args[0] == 0 and not val:
        return quantified(c, r, t.args[0])
    return None


def exists_form(c, path):
    """[(collection, dnf over the item `it`)] for a function returning whether some item satisfies a predicate:
    through any/all/find/position/count over filters and maps, or a loop."""
    r, outs = outcomes(c, path)
    try:
        qs = [quantified(c, r, rv) for m, rv, s in outs]
        if any(q is not None for q in qs):
            out = []
            for q, (m, rv, s) in zip(qs, outs):
                if q is None and rv.op == "int" and not rv.args[0]:
                    continue
                if q is None:
                    return None
                if q not in out:
                    out.append(q)
            return out
    except Undecided:
        return None
    d = set()
    coll = None

    def bools(t, val, conj):
        """disjuncts of a returned boolean; a loop-carried value contributes what earlier items contributed"""
        if t.op == "int":
            return [conj] if bool(t.args[0]) == val else []
        if t.op in ("not", "un"):
            return bools(t.args[-1], not val, conj)
        if t.op == "cast":
            return bools(t.args[-1], val, conj)
        if t.op == "phi":
            return []
        if t.op == "alt":
            return [x for y in t.args for x in bools(y, val, conj)]
        if t.op == "bin" and t.args[0] == "BitOr" and val:
            return bools(t.args[1], val, conj) + bools(t.args[2], val, conj)
        return [conj | {guards.atom(r.D, t, val)}]
    for m, rv, s in outs:
        for conj in bools(rv, True, frozenset(m)):
            cc = set()
            conj |= last(s)
            for a in conj:
                g = re.match(r"^.*?(self\.\w+)\.", a)
                if g and not a.startswith("disc"):
                    coll = g.group(1)
                    cc.add(a.replace(coll, "it"))
            if cc:
                d.add(frozenset(cc))
            else:
                return None
    return [(coll, d)] if coll else None


def close(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == "(":
            d += 1
        elif s[j] == ")":
            d -= 1
            if d == 0:
                return j
    return len(s) - 1


class EffectRule(SummRule):
    """Path summaries that ignore the branches taken inside some functions (their effects are joined)."""

    def __init__(self, prog, opaque=(), quiet=()):
        SummRule.__init__(self, prog, opaque)
        self.quiet = set(quiet)
        self.calls = True

    def on_branch(self, an, st, fr, t, val):
        f = fr
        while f is not None:
            if f.prep.path.split("::")[-1] in self.quiet or f.prep.path.split("::{")[0].split("::")[-1] in self.quiet:
                return None
            f = f.parent
        return SummRule.on_branch(self, an, st, fr, t, val)


def effects(c, path, opaque=(), quiet=(), limit=200000, rule=None):
    """-> (rule, analyzer, [(atoms, returned term, state)], old(arg, field), new(state, arg, field))"""
    r = rule or EffectRule(c.prog, opaque, quiet)
    an = A.Analyzer(c.prog, r, limit)
    f = c.fn(path)
    outs = an.run(path, [T("arg", n) for n in arg_names(f)])
    empty = A.State()

    def old(arg, *field):
        return an.read(empty, (T("obj", T("arg", arg)), tuple(field)))

    def new(st, arg, *field):
        return an.read(st, (T("obj", T("arg", arg)), tuple(field)))
    return r, an, [(frozenset(x for x in s.marks if isinstance(x, str)), rv, s) for s, rv in outs], old, new
