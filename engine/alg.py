"""Exact (real-number) normal forms of arithmetic terms: sums of products over atoms."""
import hashlib
from fractions import Fraction
from terms import T, Term, subterms
import guards, models

ONE = 1 << 48
MINMAX = {"Max": "max", "Min": "min"}
ROUND = {"floor": "floor", "ceil": "ceil", "round_to_zero": "trunc", "abs": "abs", "round": "round"}
ADD = {"checked_add": "Add", "wrapping_add": "Add", "checked_sub": "Sub", "checked_mul": "Mul", "checked_div": "Div", "checked_mul_int": "Mul", "mul_int": "Mul", "mul": "Mul", "add": "Add", "sub": "Sub", "div": "Div",
       "safe_add": "Add", "safe_sub": "Sub", "safe_mul": "Mul", "safe_div": "Div", "saturating_div": "Div"}


class Alg(object):
    """exact=True: atoms are terms (two reads of a place that changed in between stay apart); otherwise their canonical text."""

    def __init__(self, D, exact=False, delta=False, nonneg=(), fns=()):
        self.fns = set(fns)         # opaque functions of numbers
        self.D = D
        self.nonneg = set(nonneg)   # fields and functions whose values are never negative
        self.nn = {}
        self.exact = exact
        self.delta = delta      # drop the smallest fixed-point unit that rounding up adds
        self.memo = {}

    def atom(self, t):
        return t if self.exact else self.D(t)

    def poly(self, t, d=0):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.go(t, d)
        return r

    def go(self, t, d):
        op, a = t.op, t.args
        if d > 60:
            return var(self.atom(t))
        if op == "int":
            v = a[0]
            if isinstance(v, bool):
                v = int(v)
            if not isinstance(v, int):
                return var(self.atom(t))
            if v % ONE == 0:
                return const(v // ONE)
            if abs(v) > 1 << 34:
                return const(Fraction(v, ONE))
            return const(v)
        if op == "fx":
            return {} if self.delta and a[0] == 1 else const(Fraction(a[0], ONE))
        if op in ("num", "cast", "into"):
            return self.poly(a[-1], d + 1)
        if op in ("un", "not"):
            return scale(self.poly(a[-1], d + 1), -1) if a[0] == "Neg" else var(self.atom(t))
        if op == "bin":
            k = a[0]
            if k in ("Add", "Sub", "Mul", "Div"):
                return self.arith(k, a[1], a[2], d, t)
            if k in MINMAX:
                return self.minmax(MINMAX[k], [a[1], a[2]], d)
            return self.fn(k, [a[1], a[2]], d, t)
        if op == "alt":
            ps = []
            for x in a:
                p = self.poly(x, d + 1)
                if p not in ps:
                    ps.append(p)
            if len(ps) == 1:
                return ps[0]
            return var(self.atom(t)) if self.exact else var("alt(%s)" % "|".join(sorted(text(p) for p in ps)))
        if op == "call":
            f = str(a[0]).split("::")[-1]
            if f in ("max", "min") and len(a[1]) == 2:
                return self.minmax(f, list(a[1]), d)
            if f == "clamp" and len(a[1]) == 3:
                return self.minmax_p("min", [self.minmax_p("max", [self.poly(a[1][0], d + 1), self.poly(a[1][1], d + 1)]), self.poly(a[1][2], d + 1)])
            if f in self.fns:
                return self.fn(f, a[1], d, t)
            if f in ROUND and len(a[1]) == 1:
                return self.fn(ROUND[f], a[1], d, t)
            if f in ("from", "into", "from_num", "to_num", "clone", "deref", "try_into", "try_from", "unwrap", "checked_to_num", "checked_from_num", "unsigned_abs") and len(a[1]) == 1 and f != "unsigned_abs":
                return self.poly(a[1][0], d + 1)
            if f in ADD and len(a[1]) == 2:
                return self.arith(ADD[f], a[1][0], a[1][1], d, t)
        if op == "fld" and str(a[1]) in ("Ok.0", "Some.0", "Ok", "Some", "0"):
            x = a[0]
            while x.op == "fld" and str(x.args[1]) in ("Ok", "Some"):
                x = x.args[0]
            if x.op == "call" and str(x.args[0]).split("::")[-1] in tuple(ADD) + ("try_from", "try_into", "checked_from_num") + tuple(self.fns):
                return self.poly(x, d + 1)
        if op == "to_num" and len(a) == 2:
            if a[0] in ("f32", "f64") or integral(a[1]):
                return self.poly(a[1], d + 1)
            return self.fn("floor", a[1:], d, t)
        if op in ("floor", "ceil", "abs", "trunc"):
            return self.fn(op, a, d, t)
        if op in ("min", "max"):
            return self.minmax(op, list(a), d)
        return var(self.atom(t))

    def arith(self, k, x, y, d, t):
        if k == "Mul" and not self.exact:
            n = guards.native(self.D(x), self.D(y)) or guards.native(self.D(y), self.D(x))
            if n:
                return var(n)
        p, q = self.poly(x, d + 1), self.poly(y, d + 1)
        if k == "Add":
            return add(p, q)
        if k == "Sub":
            return add(p, scale(q, -1))
        if k == "Mul":
            return mul(p, q) if len(p) * len(q) < 400 else var(self.atom(t))
        if len(q) == 1:
            (m, cf), = q.items()
            return mul(p, {inv(m): 1 / Fraction(cf)})
        if not q:
            return var(self.atom(t))
        return mul(p, {(("(" + text(q) + ")" if not self.exact else ("inv", key(q)), -1),): Fraction(1)})

    def minmax(self, f, xs, d):
        return self.minmax_p(f, [self.poly(x, d + 1) for x in xs])

    def minmax_p(self, f, xs):
        ps = []
        for p in xs:
            # flatten nested min(min(..)) / max(max(..))
            if len(p) == 1:
                (m, cf), = p.items()
                if cf == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == f:
                    ps.extend(m[0][0][1])
                    continue
            ps.append(key(p))
        ps = tuple(sorted(set(ps), key=order))
        if len(ps) > 1:
            # drop arguments that can never decide the result
            b = {p: self.bounds(dict(p)) for p in ps}
            out = list(ps)
            for p in ps:
                for q in out:
                    if p != q and p in out and b[p][0 if f == "min" else 1] is not None and b[q][1 if f == "min" else 0] is not None:
                        if (b[p][0] >= b[q][1]) if f == "min" else (b[p][1] <= b[q][0]):
                            out.remove(p)
                            break
            ps = tuple(out)
        if f == "max" and () in ps and len(ps) > 1 and self.nonneg and any(p and self.isnn(dict(p)) for p in ps):
            ps = tuple(p for p in ps if p)
        if len(ps) == 1:
            return dict(ps[0])
        return var((f, ps))

    def bounds(self, p):
        """Constant bounds of a polynomial, as far as known."""
        if not p:
            return 0, 0
        if len(p) == 1:
            (m, cf), = p.items()
            if m == ():
                return cf, cf
            if cf == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] in ("min", "max"):
                k = 1 if m[0][0][0] == "max" else -1
                bs = [self.bounds(dict(x)) for x in m[0][0][1]]
                lo = [x for x, y in bs if x is not None]
                hi = [y for x, y in bs if y is not None]
                alllo, allhi = len(lo) == len(bs), len(hi) == len(bs)
                if k == 1:
                    return (max(lo) if lo else None), (max(hi) if allhi else None)
                return (min(lo) if alllo else None), (min(hi) if hi else None)
        return None, None

    def isnn(self, p):
        """Every monomial is a product of quantities that are never negative."""
        return all(c >= 0 and all(e % 2 == 0 or self.atomnn(a) for a, e in m) for m, c in p.items())

    def atomnn(self, a):
        if isinstance(a, tuple):
            if a[0] == "max":
                return any(self.isnn(dict(x)) for x in a[1])
            if a[0] in ("min", "floor", "ceil", "trunc", "round"):
                return all(self.isnn(dict(x)) for x in a[1])
            return a[0] == "abs" or a[0] == "inv" and self.isnn(dict(a[1]))
        if not isinstance(a, Term):
            return False
        if a not in self.nn:
            self.nn[a] = False
            if a.op == "alt":
                self.nn[a] = all(self.isnn(self.poly(x)) for x in a.args)
            elif a.op == "aliased":
                self.nn[a] = self.isnn(self.poly(a.args[0]))
            elif a.op == "ld" and isinstance(a.args[1], tuple) and a.args[1]:
                self.nn[a] = a.args[1][-1] in self.nonneg
            elif a.op in ("call", "fld"):
                x = a
                while x.op == "fld":
                    if x.args[1] in self.nonneg:
                        self.nn[a] = True
                    x = x.args[0]
                if x.op == "call" and str(x.args[0]).split("::")[-1] in self.nonneg:
                    self.nn[a] = True
        return self.nn[a]

    def fn(self, f, xs, d, t):
        return var((f, tuple(key(self.poly(x, d + 1)) for x in xs)))

    def show(self, p):
        return text(p)


def integral(t, d=0):
    """The value is a whole number."""
    op, a = t.op, t.args
    if t in models.INTEGRAL:
        return True
    if op == "int":
        return a[0] % ONE == 0 or abs(a[0]) < 1 << 34
    if op in ("num", "into"):
        return integral(a[-1], d + 1)
    if op == "cast":
        return a[0] not in ("f32", "f64")
    if op in ("floor", "ceil", "trunc", "to_num", "len"):
        return True
    if op == "un":
        return integral(a[-1], d + 1)
    if op == "bin" and a[0] in ("Add", "Sub", "Mul", "Max", "Min"):
        return integral(a[1], d + 1) and integral(a[2], d + 1)
    if op in ("alt", "abs", "min", "max"):
        return all(integral(x, d + 1) for x in a)
    if op == "call":
        f = str(a[0]).split("::")[-1]
        if f in ("floor", "ceil", "round", "round_to_zero", "to_num", "checked_to_num", "ceil_to_num"):
            return True
        if f in ("max", "min", "abs") or f in ADD and ADD[f] != "Div":
            return all(integral(x, d + 1) for x in a[1])
    if op == "fld" and str(a[1]) in ("Ok.0", "Some.0", "Ok", "Some", "0"):
        return integral(a[0], d + 1)
    return False


class K(tuple):
    """A tuple that remembers its hash and text."""

    def __hash__(self):
        d = self.__dict__
        if "h" not in d:
            d["h"] = tuple.__hash__(self)
        return d["h"]

    def __repr__(self):
        d = self.__dict__
        if "s" not in d:
            d["s"] = tuple.__repr__(self)
        return d["s"]


def order(x):
    """A sort key that is the same in every process, and short for deep structures."""
    t = type(x)
    if t is str:
        return x
    if t is K:
        d = x.__dict__
        if "d" not in d:
            d["d"] = hashlib.md5("\0".join(map(order, x)).encode()).hexdigest()
        return d["d"]
    if isinstance(x, (tuple, list)):
        return "(" + "\1".join(map(order, x)) + ")"
    return str(x)


def first(i):
    return order(i[0])


def key(p):
    return K(sorted(p.items(), key=first))


def const(v):
    return {(): Fraction(v)} if v else {}


def var(a):
    if type(a) is tuple:
        a = K(a)
    return {((a, 1),): Fraction(1)}


def scale(p, k):
    return {m: c * k for m, c in p.items()}


def add(p, q):
    r = dict(p)
    for m, c in q.items():
        c2 = r.get(m, 0) + c
        if c2:
            r[m] = c2
        else:
            r.pop(m, None)
    return r


def inv(m):
    return tuple((a, -e) for a, e in m)


def mmul(m, n):
    r = dict(m)
    for a, e in n:
        r[a] = r.get(a, 0) + e
        if not r[a]:
            del r[a]
    return tuple(sorted(r.items(), key=first))


def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, e in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * e
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


TEXTS = {}


def atext(a):
    if isinstance(a, str):
        return a
    if a not in TEXTS:
        TEXTS[a] = atext_(a)
    return TEXTS[a]


def atext_(a):
    if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str):
        return "%s(%s)" % (a[0], ", ".join(sorted(text(dict(x)) for x in a[1])) if a[0] in ("min", "max") else ", ".join(text(dict(x)) for x in a[1]))
    return str(a)


def mtext(m, c):
    s = [atext(a) + ("" if e == 1 else "^%d" % e) for a, e in sorted(m, key=lambda x: (-x[1] if x[1] < 0 else 0, atext(x[0])))]
    if not s:
        return str(c)
    t = "*".join(s)
    return t if c == 1 else "-" + t if c == -1 else "%s*%s" % (c, t)


def text(p):
    if not p:
        return "0"
    return " + ".join(sorted(mtext(m, c) for m, c in p.items())).replace("+ -", "- ")
