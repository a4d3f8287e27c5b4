"""Loops over collections: what every iteration writes, and what accumulators hold."""
from ctx import *
import guards, alg
from terms import T, Term


def coll(t):
    """The collection an element term (or place root) was taken from: (collection place, index term)."""
    for x in subterms(t):
        if x.op in ("ref", "ld") and isinstance(x.args[1], tuple):
            for i, p in enumerate(x.args[1]):
                if isinstance(p, Term) and p.op == "idx":
                    return T("coll", x.args[0], x.args[1][:i]), p.args[0]
    return None, None


class Sums(object):
    """Resolves loop-carried values: invariants to their value, accumulators to sum(x)."""

    def __init__(self, an):
        self.an = an
        self.memo = {}

    def __call__(self, t):
        if not isinstance(t, Term):
            return tuple(self(x) for x in t) if isinstance(t, tuple) else t
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = t                     # recursion stops at the merge itself
        if t.op == "phi" and t in self.an.phis:
            r = self.merge(t)
        else:
            a = tuple(self(x) if isinstance(x, (Term, tuple)) else x for x in t.args)
            r = T(t.op, *a) if a != t.args else t
            if r.op == "alt":
                vs = {y for x in r.args for y in (x.args if x.op == "alt" else (x,))}
                s = [x for x in vs if x.op == "sum"]
                if len(s) == 1 and all(x is s[0] or zero(x) for x in vs):
                    r = s[0]
        self.memo[t] = r
        return r

    def merge(self, t):
        vs = self.an.phis[t]
        rec = [v for v in vs if v is not t and any(x is t for x in subterms(v))]
        ini = {self(v) for v in vs if v is not t and v not in rec}
        if not rec:
            ini = {y for x in ini for y in (x.args if x.op == "alt" else (x,))} - {t}
            if len(ini) == 1:
                return ini.pop()
            s = [x for x in ini if x.op == "sum"]
            if len(s) == 1 and all(x is s[0] or zero(x) or x is s[0].args[0] for x in ini):
                return s[0]
            return T("alt", *sorted(ini, key=repr)) if ini else t
        xs = set()
        for v in rec:
            if v.op == "bin" and v.args[0] == "Add" and t in v.args[1:]:
                o = v.args[2] if v.args[1] is t else v.args[1]
                if any(x is t for x in subterms(o)):
                    return t
                xs.add(self(o))
            else:
                return t
        if len(xs) == 1:
            x = xs.pop()
            if all(zero(i) or times(i, x) for i in ini):
                return T("sum", x)
        return t


def zero(t):
    return t.op == "int" and t.args[0] == 0 or t.op in ("num", "cast", "into") and zero(t.args[-1])


def times(t, x):
    return t is x or zero(t) or t.op == "bin" and t.args[0] == "Add" and times(t.args[1], x) and times(t.args[2], x)


def total(t, ok):
    """t is a sum of x over a loop (or over the elements seen so far), where ok(x)."""
    if t.op == "alt":
        return all(total(x, ok) for x in t.args)
    if t.op == "sum":
        return ok(t.args[0])
    if zero(t):
        return True
    if t.op == "bin" and t.args[0] == "Add":
        return total(t.args[1], ok) and total(t.args[2], ok)
    return ok(t)


PARTIAL = ("skip", "take", "zip")


class EachRule(InlineRule):
    """Marks: ("w", field, root, value) writes to watched fields; ("end", site) loop ran out of elements."""
    fields = ()

    def __init__(self, prog):
        InlineRule.__init__(self, prog)
        self.D = guards.Desc(self)
        self.iters = {}        # site -> set of frozensets of ("w", ..) of completed iterations
        self.all = set()       # every write seen

    def on_ret(self, an, st, fr, name, res, args, ret, site):
        if str(name).endswith("Iterator::next") and onaccounts(an.full_deref(st, args[0])):
            s = T("site", fr.fid, site[1] if isinstance(site, tuple) else site)
            m = {x for x in st.marks if x[0] != "end" or x[1] is not s}
            if A.variant_of(ret) == "None":
                if any(x.op == "itad" and x.args[0] in PARTIAL for x in subterms(an.full_deref(st, args[0]))):
                    return frozenset(m | {("in", s)})     # ran out before the end of the collection, perhaps
                m.add(("end", s))
            else:
                m = {x for x in m if not (x[0] == "w" and uses(x[2], s))} | {("in", s)}
            return frozenset(m)

    def on_write(self, an, st, fr, place, val):
        root, path = place
        f = path[0] if path and isinstance(path[0], str) else None
        if f in self.fields and root.op == "obj" and "try_accounts" not in fr.prep.path:
            self.all.add(("w", f, root, val if len(path) == 1 else T("part", path, val)) + tuple(self.context(an, st)))
            return st.marks | {("w", f, root)}

    def context(self, an, st):
        return ()

    def on_loop(self, an, st, fr, hdr, first):
        if first:
            return None
        for m in st.marks:
            if m[0] == "in" and m[1].args[0] == fr.fid:
                self.iters.setdefault(m[1], set()).add(frozenset(x for x in st.marks if x[0] == "w" and uses(x[2], m[1])))


def uses(t, site):
    return any(x.op == "each" and x.args[0] is site for x in subterms(t))


def onaccounts(t):
    return any(x.op == "arg" and x.args[0] == "accounts" for x in subterms(t))


def place(an, v):
    """The collection a slice reference designates."""
    r, p = an.deref_val(v)
    return T("coll", r, p)
