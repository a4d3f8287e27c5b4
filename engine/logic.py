"""Formulas: polynomial expressions and sign conditions, to compare what a function computes with what it should compute."""
import itertools
from fractions import Fraction
from terms import T, Term
import absint as A
import alg, guards, summ
from terms import show
from ctx import is_err


class V(object):
    """A polynomial over canonical names."""

    def __init__(self, p):
        self.p = p.p if isinstance(p, V) else alg.var(p) if isinstance(p, str) else alg.const(Fraction(p)) if isinstance(p, (int, Fraction)) else p

    def __add__(self, o):
        return V(alg.add(self.p, V(o).p))
    __radd__ = __add__

    def __sub__(self, o):
        return V(alg.add(self.p, alg.scale(V(o).p, -1)))

    def __rsub__(self, o):
        return V(o) - self

    def __neg__(self):
        return V(alg.scale(self.p, -1))

    def __mul__(self, o):
        return V(alg.mul(self.p, V(o).p))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return V(quot(self.p, V(o).p))

    def __rtruediv__(self, o):
        return V(o) / self

    # literals (base, polarity)
    def __gt__(self, o):
        return pos((self - o).p, True)

    def __lt__(self, o):
        return pos((V(o) - self).p, True)

    def __ge__(self, o):
        return pos((V(o) - self).p, False)

    def __le__(self, o):
        return pos((self - o).p, False)

    def eq(self, o):
        return zero((self - o).p, True)

    def ne(self, o):
        return zero((self - o).p, False)

    def same(self, p):
        return alg.key(self.p) == alg.key(p)


def quot(p, q):
    if len(q) == 1:
        (m, cf), = q.items()
        return alg.mul(p, {alg.inv(m): 1 / Fraction(cf)})
    return alg.mul(p, {(("(" + alg.text(q) + ")", -1),): Fraction(1)})


def vmin(*xs):
    return V(alg.Alg(None).minmax_p("min", [V(x).p for x in xs]))


def vmax(*xs):
    return V(alg.Alg(None).minmax_p("max", [V(x).p for x in xs]))


def fn(f, *xs):
    return V(alg.var((f, tuple(alg.key(V(x).p) for x in xs))))


def pos(p, pol):
    """Literal p > 0, scaled to a leading coefficient of 1."""
    p = unit(p)
    return (("gt", alg.key(p)), pol)


def unit(p):
    if not p:
        return p
    k = sorted(p.items(), key=alg.order)[0][1]
    return alg.scale(p, 1 / abs(Fraction(k)))


def zero(p, pol):
    p = unit(p)
    q = alg.scale(p, -1)
    return (("eq", min(alg.key(p), alg.key(q), key=alg.order)), pol)


NUMBERS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f64", "f32", "fixed::I80F48", "I80F48")


def intcall(x, t):
    """A call known to return a number (every function of that name does)."""
    prog = getattr(x, "prog", None)
    if prog is None or t.op != "call":
        return False
    n = str(t.args[0]).split("::")[-1]
    if not hasattr(prog, "numeric"):
        prog.numeric = {}
    if n not in prog.numeric:
        ts = [f["locals"][0] for p, f in prog.fns.items() if p.split("::")[-1] == n]
        prog.numeric[n] = bool(ts) and all(y in NUMBERS or y.startswith("fixed::FixedI128") for y in ts)
    return prog.numeric[n]


def lit(x, t, val):
    """The literal a branch on term t decides."""
    while t.op in ("not", "un", "cast") and (t.op != "un" or t.args[0] == "Not"):
        if t.op != "cast":
            val = not val
        t = t.args[-1]
    if t.op == "lt":
        return pos(alg.add(x.poly(t.args[1]), alg.scale(x.poly(t.args[0]), -1)), val)
    if t.op == "eq":
        a, b = t.args
        if b.op == "disc":
            a, b = b, a
        if a.op == "disc" and b.op == "int" and a.args[0].op == "call" and str(a.args[0].args[0]).split("::")[-1] == "cmp" and len(a.args[0].args[1]) == 2:
            l, g = (x.poly(y) for y in a.args[0].args[1])
            d = alg.add(l, alg.scale(g, -1))
            return zero(d, val) if b.args[0] == 0 else pos(d, val) if b.args[0] == 1 else pos(alg.scale(d, -1), val)
        if a.op == "disc" or b.op == "disc" or guards.boolish(a) and not intcall(x, a) or guards.boolish(b) and not intcall(x, b):
            s, p = summ.base(guards.atom(x.D, t, val))
            return (("txt", s), p)
        return zero(alg.add(x.poly(a), alg.scale(x.poly(b), -1)), val)
    s, p = summ.base(guards.atom(x.D, t, val))
    return (("txt", s), p)


def txt(s):
    b, p = summ.base(s)
    return (("txt", b), p)


class IDesc(guards.Desc):
    """Names that keep the index an element was taken with."""

    def path(self, path):
        out = ""
        for p in path:
            if isinstance(p, Term):
                out += "[%s]" % ("each" if p.args[0].op == "each" else self(p.args[0])) if p.op == "idx" else ""
            elif p not in ("Ok.0", "Some.0"):
                out += "." + (guards.KIND.get(p) or str(p).lstrip("@"))
        return out


    def go(self, t, d):
        if t.op in ("phi", "hv"):
            return "%s#%d" % (t.op, t.n)        # two merged or unknown values are never the same
        if t.op == "fld" and isinstance(t.args[1], Term) and t.args[1].op == "idx":
            return self(t.args[0], d + 1) + self.path((t.args[1],))
        if t.op == "call" and "new_health_cache" in str(t.args[0]):
            return "%s(%s)" % (str(t.args[0]).split("::")[-1], ", ".join(self(x, d + 1) for x in t.args[1]))
        return guards.Desc.go(self, t, d)


class FRule(summ.EffectRule):
    """Keeps the terms behind the recorded conditions; terms share one canonical (name-based) normal form."""

    def __init__(self, prog, opaque=(), quiet=(), indexed=False, desc=None, signs=False, framed=(), **kw):
        summ.EffectRule.__init__(self, prog, opaque, quiet)
        self.signs = signs          # split on what signum() returns
        self.framed = set(framed)
        if desc:
            self.D = desc(self)
        if indexed:
            self.D = IDesc(self)
        self.x = alg.Alg(self.D, **kw)
        self.x.prog = prog
        self.src = {}

    def frames(self, res):
        return str(res).split("::")[-1] in self.framed

    def on_branch(self, an, st, fr, t, val):
        m = summ.EffectRule.on_branch(self, an, st, fr, t, val)
        if m is not None:
            self.src.setdefault(guards.atom(self.D, t, val), lit(self.x, t, val))
        return m

    def lits(self, atoms, drop=None):
        return frozenset(self.src[a] for a in atoms if not (drop and drop(a)))


def formula(c, path, opaque=(), quiet=(), limit=200000, drop=None, **kw):
    """-> (rule, [(literals, returned term, state)], old, new)"""
    r = FRule(c.prog, opaque, quiet, **kw)
    r, an, outs, old, new = summ.effects(c, path, limit=limit, rule=r)
    return r, [(r.lits(a, drop), rv, st) for a, rv, st in outs], old, new


def consistent(conj):
    d = {}
    one = {}
    for b, p in conj:
        if d.setdefault(b, p) != p:
            return False
        if b[0] == "txt" and p and " == " in b[1] and b[1].startswith("disc "):
            k, v = b[1].rsplit(" == ", 1)
            if one.setdefault(k, v) != v:
                return False
    for (k, q), p in conj:
        if k == "gt" and p:
            # p > 0 excludes -p > 0 and p = 0
            n = alg.key(alg.scale(dict(q), -1))
            if d.get(("gt", n)):
                return False
        if k == "eq" and not p:
            n = alg.key(alg.scale(dict(q), -1))
            if d.get(("gt", n)) is False and d.get(("gt", q)) is False:
                return False
    return True


def equivalent(a, b):
    """Two DNFs over literals agree on every assignment that is possible for one polynomial at a time."""
    a = [x for x in a if consistent(x)]
    b = [x for x in b if consistent(x)]
    vs = sorted({v for x in a + b for v, _ in x}, key=alg.order)
    if len(vs) > 14:
        return False
    for bits in itertools.product((False, True), repeat=len(vs)):
        e = dict(zip(vs, bits))
        if not possible(e):
            continue
        if any(all(e[v] == p for v, p in x) for x in a) != any(all(e[v] == p for v, p in x) for x in b):
            return False
    return True


def possible(e):
    for (k, q), v in e.items():
        if k == "gt":
            n = alg.key(alg.scale(dict(q), -1))
            z = e.get(("eq", min(q, n, key=alg.order)))
            o = e.get(("gt", n))
            if v and (o or z):
                return False
            if not v and o is False and z is False:
                return False
    return True


def when(r, outs, pick=None):
    """The condition (DNF over literals) under which a function succeeds / returns true."""
    res = []
    for m, rv, s in outs:
        while rv.op == "cast":
            rv = rv.args[-1]
        if pick is not None:
            if pick(rv):
                res.append(m)
        elif rv.op == "int":
            if rv.args[0]:
                res.append(m)
        else:
            res.append(m | {lit(r.x, rv, True)})
    return res


def is_ok(rv):
    return not is_err(rv)


def show_dnf(r, d):
    def one(b, p):
        k, q = b
        if k == "txt":
            return q if p else "not " + q
        s = alg.text(dict(q))
        return {("gt", True): "%s > 0", ("gt", False): "%s <= 0", ("eq", True): "%s = 0", ("eq", False): "%s != 0"}[(k, p)] % s
    return " or ".join("(" + " and ".join(sorted(one(b, p) for b, p in x)) + ")" for x in d)[:900]


LITS = {}


def decided(lits, p):
    """Sign of a polynomial under the literals: '>', '<=', '=' , ... or None."""
    if not p:
        return "="
    if set(p) == {()}:
        return ">" if p[()] > 0 else "<"
    up, dn = pos(p, True)[0], pos(alg.scale(p, -1), True)[0]
    z = zero(p, True)[0]
    d = LITS.get(lits) if isinstance(lits, frozenset) else None
    if d is None:
        d = dict(lits)
        if isinstance(lits, frozenset):
            if len(LITS) > 2000:
                LITS.clear()
            LITS[lits] = d
    if d.get(z) is True or d.get(up) is False and d.get(dn) is False:
        return "="
    if d.get(up):
        return ">"
    if d.get(dn):
        return "<"
    if d.get(up) is False:
        return "<="
    if d.get(dn) is False:
        return ">="
    return None


RESOLVED = {}


def resolve(p, lits):
    """The polynomial where the literals hold: decided minima and maxima, and quantities known to be zero, are replaced."""
    if not isinstance(lits, frozenset):
        return resolve_(p, lits)
    if lits not in RESOLVED:
        if len(RESOLVED) > 500:
            RESOLVED.clear()
        RESOLVED[lits] = {}
    k, memo = alg.key(p), RESOLVED[lits]
    if k not in memo:
        memo[k] = resolve_(p, lits)
    return dict(memo[k])


def resolve_(p, lits):
    zs = set()
    for (k, q), v in lits:
        if k in ("gt", "eq") and len(q) == 1 and decided(lits, dict(q)) == "=":
            m, cf = q[0]
            if len(m) == 1 and m[0][1] == 1:
                zs.add(m[0][0])
    r = {}
    for m, cf in p.items():
        t = {(): Fraction(cf)}
        for a, e in m:
            if e > 0 and a in zs:
                t = {}
                break
            v = alg.var(a)
            if isinstance(a, tuple) and a[0] in ("min", "max"):
                xs = [resolve(dict(x), lits) for x in a[1]]
                out = []
                for i, x in enumerate(xs):
                    lose = False
                    for j, y in enumerate(xs):
                        s = decided(lits, alg.add(x, alg.scale(y, -1))) if i != j else None
                        lose = lose or i != j and (s == "=" and j < i or s in ((">", ">=") if a[0] == "min" else ("<", "<=")))
                    if not lose:
                        out.append(x)
                v = alg.Alg(None).minmax_p(a[0], out or xs)
            elif isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], tuple) and a[0] != "inv":
                xs = [resolve(dict(x), lits) for x in a[1]]
                d = decided(lits, xs[0]) if a[0] == "abs" else None
                v = {} if d == "=" else xs[0] if d in (">", ">=") else alg.scale(xs[0], -1) if d else alg.var((a[0], tuple(alg.key(x) for x in xs)))
            if e < 0 or e > 1:
                if v == alg.var(a):
                    v = {((a, e),): Fraction(1)}
                elif len(v) == 1:
                    (mm, cc), = v.items()
                    v = {tuple((b, f * e) for b, f in mm): Fraction(cc) ** e}
                else:
                    v = {((a, e),): Fraction(1)}
            t = alg.mul(t, v)
        r = alg.add(r, t)
    return r


def settle(lits):
    """The literals with decided minima and maxima replaced; None when they cannot hold together."""
    if not consistent(lits):
        return None
    for n in range(3):
        out = set()
        for b, v in lits:
            if b[0] in ("gt", "eq") and any(isinstance(a, tuple) and a[0] in ("min", "max", "abs") for m, _ in b[1] for a, e in m):
                q = resolve(dict(b[1]), lits)
                if set(q) <= {()}:
                    if ((q.get((), 0) > 0) if b[0] == "gt" else not q) != v:
                        return None
                    continue
                b, v = pos(q, v) if b[0] == "gt" else zero(q, v)
            out.add((b, v))
        if out == lits:
            break
        lits = frozenset(out)
        if not consistent(lits):
            return None
    return lits


def equalities(lits):
    """Atom -> polynomial, for quantities the literals force to be equal."""
    d = dict(lits)
    for (k, q), v in sorted(d.items(), key=alg.order):
        if k == "eq" and v or k == "gt" and not v and d.get(("gt", alg.key(alg.scale(dict(q), -1)))) is False:
            for m, cf in q:
                rest = {n: f for n, f in q if n != m}
                if len(m) == 1 and m[0][1] == 1 and not any(a == m[0][0] for n in rest for a, e in n):
                    yield m[0][0], alg.scale(rest, -1 / Fraction(cf))
                    break


def feasible(lits):
    """Not refuted by putting equal quantities for each other."""
    for a, q in equalities(lits):
        out = set()
        for b, v in lits:
            if b[0] in ("gt", "eq"):
                p = subst(dict(b[1]), a, q)
                if set(p) <= {()}:
                    if ((p.get((), 0) > 0) if b[0] == "gt" else not p) != v:
                        return False
                    continue
                b, v = pos(p, v) if b[0] == "gt" else zero(p, v)
            if (b, not v) in out:
                return False
            out.add((b, v))
        if settle(frozenset(out)) is None:
            return False
    return True


def tied(p, lits):
    """The polynomial with quantities replaced that the literals force to be equal."""
    p = resolve(p, lits)
    for a, q in equalities(lits):
        p = subst(p, a, q)
    return resolve(p, lits)


def subst(p, atom, q):
    r = {}
    for m, cf in p.items():
        t = {(): Fraction(cf)}
        for a, e in m:
            v = q if a == atom else {((a, 1),): Fraction(1)}
            if isinstance(a, tuple) and a[0] in ("min", "max"):
                v = alg.Alg(None).minmax_p(a[0], [subst(dict(x), atom, q) for x in a[1]])
            if e > 0 and e == int(e):
                for _ in range(int(e)):
                    t = alg.mul(t, v)
            else:
                t = alg.mul(t, {((a, e),): Fraction(1)})
        r = alg.add(r, t)
    return r


def inner(rv):
    while rv.op == "agg" and A.variant_of(rv) in ("Ok", "Some") and len(rv.args[2]) == 1:
        rv = rv.args[2][0]
    return rv


def cases(r, outs, want, value=None, ok=is_ok, given=()):
    """Every path's value is the wanted one under every wanted case its conditions allow; -> (number compared, first difference)."""
    n = 0
    seen = set()
    for lits, rv, st in outs:
        if not ok(rv):
            continue
        hit = False
        for i, (L, v) in enumerate(want):
            both = settle(frozenset(lits) | frozenset(L) | frozenset(given))
            if both is None:
                continue
            got = value(rv, st) if value else r.x.poly(inner(rv))
            if v is not None and alg.key(resolve(got, both)) != alg.key(resolve(V(v).p, both)) and alg.key(tied(got, both)) != alg.key(tied(V(v).p, both)) and feasible(both) and not linear_clash(both):
                return n, "gives %s instead of %s where %s" % (alg.text(resolve(got, both))[:300], alg.text(resolve(V(v).p, both))[:300], show_dnf(r, [both])[:400])
            hit = True
            seen.add(i)
            n += 1
        if not hit and settle(frozenset(lits) | frozenset(given)) is not None:
            return n, "succeeds where it should not: %s" % show_dnf(r, [lits])[:400]
    if len(seen) < len(want):
        i = min(set(range(len(want))) - seen)
        return n, "has no path where %s" % show_dnf(r, [frozenset(want[i][0])])[:400]
    return n, None


class IterRule(FRule):
    """What one iteration of every loop does: additions to places, stores and pushes, with the conditions they happen under.

    self.iters[loop] is a set of (conditions, effects) of completed iterations; an effect is (kind, root, path text, value text)
    with kind "add", "set" or "push". self.over[loop] holds the iterators the loop consumes."""
    lazy = True

    def __init__(self, prog, opaque=(), quiet=(), **kw):
        FRule.__init__(self, prog, opaque, quiet, indexed=True, **kw)
        self.iters = {}
        self.over = {}
        self.vals = {}          # text -> polynomial or term
        self.init = {}          # merged value at a loop -> the values it enters the loop with

    def change(self, an, st, place, val):
        root, path = place
        if root.op == "cell" and val.op in ("ref", "agg", "unit", "iter", "itad", "uninit", "acct", "str", "fn"):
            return None
        old = an.read(st, place)
        if old is val or old.op in ("uninit", "ref", "agg"):
            return None
        p, q = self.x.poly(val), self.x.poly(old)
        d = alg.add(p, alg.scale(q, -1))
        news = set(a for m in d for a, e in m)
        kept = [m for m, cf in q.items() if cf == 1 and len(m) == 1 and m[0][1] == 1 and p.get(m) == 1 and m[0][0] not in news]
        if d and kept:
            e = ("add", root, self.D.path(path), self.text(d))
        elif d and not q and old.op == "int" and root.op == "cell" and val.op == "bin" and old in val.args:
            e = ("add", root, self.D.path(path), self.text(d))
        elif root.op != "cell" or path:
            e = ("set", root, self.D.path(path), self.text(p))
        else:
            return None
        while ("ev",) + e in st.marks:
            e = e[:3] + (e[3] + " again",)
        return st.marks | {("ev",) + e}

    on_local = on_write = lambda self, an, st, fr, place, val: self.change(an, st, place, val)

    def text(self, p):
        t = alg.text(p)
        self.vals[t] = p
        return t

    def on_call(self, an, st, fr, name, res, args, site):
        if str(res or name).split("::")[-1] == "push" and len(args) == 2:
            v = an.full_deref(st, args[1])
            t = self.D(v)
            self.vals[t] = v
            e = ("ev", "push", an.deref_val(args[0])[0], "", t)
            while e in st.marks:
                e = e[:4] + (e[4] + " again",)
            return st.marks | {e}

    def on_ret(self, an, st, fr, name, res, args, ret, site):
        if str(name).endswith("Iterator::next"):
            s = (fr.fid, site[1])
            self.over.setdefault(s, set()).add(self.content(an, st, an.full_deref(st, args[0])))
            if A.variant_of(ret) == "None":
                return frozenset(x for x in st.marks if x != ("in",) + s) | {("end",) + s}
            return frozenset(x for x in st.marks if x != ("end",) + s) | {("in",) + s}

    def content(self, an, st, it):
        """An iterator term with local collections replaced by what they hold."""
        if it.op == "itad":
            return T("itad", it.args[0], tuple(self.content(an, st, x) for x in it.args[1]))
        if it.op == "iter":
            return T("iter", self.content(an, st, it.args[0]))
        if it.op == "ref" and it.args[0].op == "cell":
            v = an.read(st, (it.args[0], it.args[1]))
            while v.op == "upd":
                v = v.args[0]
            return v
        return it

    def split(self, st, e):
        new = {x for x in st.marks if x not in e}
        return (self.lits({x for x in st.marks if isinstance(x, str)}), frozenset(x[1:] for x in new if not isinstance(x, str) and x[0] == "ev"))

    def on_loop(self, an, st, fr, hdr, first):
        k = (fr.fid, hdr.args[1])
        if ("in",) + k not in st.marks:
            for root, path in an.pre.get(hdr, ()):
                self.init.setdefault(T("phi", hdr, root, path), set()).add(an.read(st, (root, path)))
        e = self.entry.setdefault(k, set())
        if first:
            e |= st.marks
            return None
        if an.pre is not None and ("in",) + k in st.marks:
            self.iters.setdefault(k, set()).add(self.split(st, e))
        keep = {x for x in st.marks if x in e}
        return frozenset(keep | {x for x in st.marks if not isinstance(x, str) and x[0] in ("in", "end")} | {("ran",)})

    def on_skip(self, an, st, fr, site):
        k = site.args
        self.iters.setdefault(k, set()).add(self.split(st, self.entry.get(k, set())))

    def on_sum(self, an, fr, st, it, b):
        site = T("site", fr.fid, b)
        k = (fr.fid, b)
        out = T("call", "sum", (T("over", it), site), None)
        self.over.setdefault(k, set()).add(self.content(an, st, it))
        for s, v in self.models().elements(an, fr, st.copy(), it, site):
            ev = set() if v is None else {("add", out, "", self.text(self.x.poly(an.full_deref(s, v))))}
            a, e = self.split(s, st.marks)
            self.iters.setdefault(k, set()).add((a, e | ev))
        st.marks = st.marks | {("end",) + k, ("ran",)}
        return [(st, out)]

    def on_foreach(self, an, fr, st, it, f, b):
        """A loop without a header: the closure runs on every element."""
        k = (fr.fid, b)
        hdr = T("loop", fr.fid, b)
        self.over.setdefault(k, set()).add(self.content(an, st, it))
        for r, p in an.pre.get(hdr, ()):
            v = T("phi", hdr, r, p)
            self.init.setdefault(v, set()).add(an.read(st, (r, p)))
            if st.mem.get(r) or r.op == "obj":
                an.write(st, (r, p), v)
        end = st.copy()
        for s, v in self.models().elements(an, fr, st.copy(), it, T("site", fr.fid, b)):
            for s2, _ in [(s, None)] if v is None else an.call_value(fr, s, f, [v], ("each", b)):
                self.iters.setdefault(k, set()).add(self.split(s2, st.marks))
                for r, m in list(s2.mem.items()):
                    if r not in st.mem and r.op != "obj":
                        continue
                    for p, x in m.items():
                        y = an.read(st, (r, p))
                        if x is not y:
                            an.write(end, (r, p), an.phi(hdr, r, p, y, x))
        end.marks = st.marks | {("end",) + k, ("ran",)}
        return [(end, T("unit"))]

    def models(self):
        import models
        return models


def iterations(c, path, opaque=(), quiet=(), limit=200000, **kw):
    """-> (rule, analyzer, [(literals, events outside loops, returned term, state)])

    A first run finds what the loops change; the second starts every loop from unknown values of those."""
    f = c.fn(path)
    pre = {}
    for n in range(3):
        r = IterRule(c.prog, opaque, quiet, **kw)
        an = A.Analyzer(c.prog, r, limit)
        an.pre = {k: list(v) for k, v in pre.items()}
        outs = an.run(path, [T("arg", n) for n in summ.arg_names(f)])
        new = {}
        for t in an.phis:
            if t.op == "phi" and t.args[0].op == "loop":
                new.setdefault(t.args[0], set()).add((t.args[1], t.args[2]))
        if n and all(v <= pre.get(k, set()) for k, v in new.items()):
            break
        for k, v in new.items():
            pre.setdefault(k, set()).update(v)
    else:
        raise ValueError("the loops of %s do not stabilise" % path)
    return r, an, [(r.lits({x for x in s.marks if isinstance(x, str)}), frozenset(x[1:] for x in s.marks if not isinstance(x, str) and x[0] == "ev"), rv, s) for s, rv in outs]


def left_open(st):
    """Loops of this exit that were left before their iterator ran out."""
    return {m[1:] for m in st.marks if not isinstance(m, str) and m[0] == "in"} - {m[1:] for m in st.marks if not isinstance(m, str) and m[0] == "end"}


def bounds_clash(lits):
    """Contradictory constant bounds on one linear form (p > a together with p <= b, b <= a)."""
    lo, hi = {}, {}
    for (k, q), v in lits:
        if k not in ("gt", "eq"):
            continue
        p = dict(q)
        cst = Fraction(p.pop((), 0))
        if not p:
            continue
        u = unit(p)
        s = sorted(p, key=alg.order)[0]
        f = Fraction(p[s]) / Fraction(u[s])      # p = f*u
        n = unit(alg.scale(p, -1))
        if sorted(map(str, u.items())) != sorted(map(str, n.items())) and str(alg.key(u)) > str(alg.key(n)):
            u, f = n, -f
        key, b = alg.key(u), -cst / f            # u compared with b
        if k == "eq":
            if v:
                lo.setdefault(key, []).append((b, False))
                hi.setdefault(key, []).append((b, False))
            continue
        up = (f > 0) == v                        # u > b / u >= b, else u < b / u <= b
        (lo if up else hi).setdefault(key, []).append((b, v))
    for key in lo:
        for b, s in lo[key]:
            for d, t in hi.get(key, ()):
                if b > d or b == d and (s or t):
                    return True
    return False


def linear_clash(lits, most=4000):
    """The literals, read as linear constraints over their monomials, exclude each other (Fourier-Motzkin)."""
    cs = []                                     # (polynomial, strict): p > 0 or p >= 0
    for (k, q), v in lits:
        if k == "gt":
            cs.append((dict(q), True) if v else (alg.scale(dict(q), -1), False))
        elif k == "eq" and v:
            cs += [(dict(q), False), (alg.scale(dict(q), -1), False)]
    while True:
        if any(set(p) <= {()} and not (p.get((), 0) > 0 or p.get((), 0) == 0 and not s) for p, s in cs):
            return True
        cs = [(p, s) for p, s in cs if not set(p) <= {()}]
        if not cs:
            return False
        ms = {m for p, s in cs for m in p if m != ()}
        m = min(ms, key=lambda x: (sum(p.get(x, 0) > 0 for p, s in cs) * sum(p.get(x, 0) < 0 for p, s in cs), str(x)))
        up, dn = [x for x in cs if x[0].get(m, 0) > 0], [x for x in cs if x[0].get(m, 0) < 0]
        new = {}
        for p, s in up:
            for q, t in dn:
                r = alg.add(alg.scale(p, -q[m]), alg.scale(q, p[m]))
                r.pop(m, None)
                new[(alg.key(unit(r)), s or t)] = (unit(r), s or t)
        cs = [x for x in cs if not x[0].get(m)] + list(new.values())
        if len(cs) > most:
            return False


def refuted(lits):
    x = settle(frozenset(lits))
    return x is None or not feasible(x) or bounds_clash(x)


def implied(lits, dnf):
    """Do the literals establish one of the wanted conjunctions?  (Every way of failing all of them contradicts the literals.)"""
    dnf = [tuple(d) for d in dnf]
    return all(refuted(frozenset(lits) | {(b, not v) for b, v in pick}) for pick in itertools.product(*dnf))
