"""Guard specifications: every successful exit of an instruction that has an effect must have passed given tests.

Branch conditions are rendered in a canonical text (`desc`) that does not depend on how the test is spelled, and a guard is
a conjunction of clauses, each a list of alternative regular expressions over that text."""
import re
import absint as A
from ctx import *
from props.common import *
from props import c01, c02

ONE = 1 << 48
FLIP = {"Add", "Mul", "BitAnd", "BitOr", "BitXor"}
KIND = {"@TokenPosition": "Token", "@PerpPosition": "Perp", "@Serum3Orders": "Serum3", "@PerpOpenOrder": "Order", "@TokenConditionalSwap": "Tcs", "@OpenbookV2Orders": "Ob2"}


class Desc(object):
    def __init__(self, rule=None):
        self.rule = rule
        self.memo = {}

    def __call__(self, t, d=0):
        if not isinstance(t, Term):
            return str(t)
        k = t
        if k in self.memo:
            return self.memo[k]
        if d > 12:
            return "…"
        r = self.memo[k] = self.go(t, d)
        return r

    def go(self, t, d):
        op, a = t.op, t.args
        n = d + 1
        if op in ("num", "cast", "into"):
            return self(a[-1], n)
        if op == "int":
            v = a[0]
            if v and v % ONE == 0:
                return "%d" % (v // ONE)
            return str(v)
        if op == "fx":
            return "%dulp" % a[0]
        if op == "const":
            return str(a[0]).split("::")[-1]
        if op == "acct":
            return a[0]
        if op == "key":
            return "key(%s)" % self(a[0], n)
        if op == "owner":
            return "owner(%s)" % self(a[0], n)
        if op == "alt":
            ds = sorted({self(x, n) for x in a} - {"0"})
            return ds[0] if len(ds) == 1 else "alt(%s)" % "|".join(ds)
        if op == "un" or op == "not":
            return "%s(%s)" % ("-" if a[0] == "Neg" else "!", self(a[-1], n))
        if op == "bin":
            x, y = self(a[1], n), self(a[2], n)
            if a[0] == "Mul":
                nat = native(x, y) or native(y, x)
                if nat:
                    return nat
            if a[0] in FLIP and y < x:
                x, y = y, x
            return "(%s %s %s)" % (x, {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/"}.get(a[0], a[0]), y)
        if op == "ld":
            return self.load(a[0], a[1], a[2], n)
        if op == "fld":
            b = bankref(self, t, n)
            if b:
                return b
            x = a[0]
            f = str(a[1])
            if f in ("Ok.0", "Some.0", "Ok", "Some"):
                return self(x, n)
            if x.op == "call":
                return "%s.%s" % (self(x, n), f) if f not in ("Ok", "Some") else self(x, n)
            if f == "0" and x.op == "fld" and str(x.args[1]) in ("Ok", "Some"):
                return self(x.args[0], n)
            s = "%s.%s" % (self(x, n), f)
            return "$" + s[2:] if s.startswith("$.") else s
        if op == "call":
            f = str(a[0]).split("::")[-1]
            if f.startswith("new_health_cache") or f == "compute_health" and False:
                return "cache(%s)" % ",".join(sorted(c02.hacct(t)))
            if ix_data(t) and "AnchorDeserialize" in str(a[0]):
                return "$"
            if f in ("find_map", "find", "position", "nth", "next", "last"):
                acc = sorted({x.args[0].args[0].args[0] for x in subterms(t) if x.op == "obj" and x.args[0].op in ("dyn", "data") and x.args[0].args[0].op == "acct"})
                for x in subterms(t):
                    if x.op == "hdr" and x.args[0].op == "acct" and x.args[0].args[0] not in acc:
                        acc.append(x.args[0].args[0])
                kinds = sorted({KIND[p] for x in subterms(t) for p in (x.args[1] if x.op in ("ld", "ref") and isinstance(x.args[1], tuple) else ()) if p in KIND})
                return "found(%s)" % ",".join(acc + kinds)
            if f in ("deref", "deref_mut", "borrow", "clone", "context", "unwrap", "load", "into", "from", "as_ref", "as_mut", "with_context"):
                return self(a[1][0], n) if a[1] else f
            return "%s(%s)" % (f, ", ".join(self.arg(x, n) for x in a[1]))
        if op == "agg":
            return "%s{%s}" % (str(a[0]).split("::")[-1], ", ".join(self(x, n) for x in a[2]))
        if op == "obj":
            return self.root(t, n)
        if op == "ref":
            return self.place(a[0], a[1], n)
        if op == "hv":
            o = self.rule.owner.get(t) if self.rule is not None and hasattr(self.rule, "owner") else None
            if o:
                return "cache(%s)'" % ",".join(sorted(o))
            return "hv"
        if op == "guard":
            return self(a[0], n)
        if op in ("lt", "eq"):
            return "(%s %s %s)" % (self(a[0], n), {"lt": "<", "eq": "=="}[op], self(a[1], n))
        if op == "discr":
            return "discr(%s)" % a[0].split("::")[-1]
        if op in ("arg", "str", "hdr", "dyn", "data"):
            return self(a[0], n)
        if op == "upd":
            return self(a[0], n) + "'"
        if op in ("floor", "ceil", "abs", "min", "max"):
            return "%s(%s)" % (op, ", ".join(self(x, n) for x in a))
        return "%s(%s)" % (op, ", ".join(self(x, n) for x in a if isinstance(x, Term)))

    def arg(self, x, n):
        return self(x, n)

    def root(self, o, n):
        x = o.args[0]
        if x.op == "data":
            return self(x.args[0], n)
        if x.op == "dyn":
            return self(x.args[0], n)
        return bankref(self, x, n) or self(x, n)

    def place(self, root, path, n):
        s = self.root(root, n) if root.op == "obj" else "local"
        return s + self.path(path)

    def path(self, path):
        out = ""
        for p in path:
            if isinstance(p, Term) or p in ("Ok.0", "Some.0"):
                continue
            if p in KIND:
                out += "." + KIND[p]
            else:
                out += "." + str(p).lstrip("@")
        return out

    def load(self, root, path, ver, n):
        if root.op != "obj":
            return self(root, n) + self.path(path)
        b = None
        if root.args[0].op not in ("data", "dyn", "acct"):
            b = bankref(self, T("ld", root, path, None), n) or bankref(self, root.args[0], n)
        s = (b if b else self.root(root, n)) + self.path(path)
        if s.startswith("$"):
            s = "$" + s[1:].lstrip(".")
        return s + ("" if ver is None else "'")


def native(x, y):
    if x.endswith((".deposit_index", ".borrow_index", ".deposit_index'", ".borrow_index'")) and y.rstrip("')").endswith(".indexed_position"):
        return "native(%s, %s)" % (y.replace(".Token.indexed_position", "").replace(".indexed_position", ""), x.rsplit(".", 1)[0] + ("'" if x.endswith("'") else ""))
    return None


def bankref(D, x, n):
    """The bank (and price) tuple banks_mut_and_oracles hands out."""
    fs = []
    y = x
    while True:
        if y.op == "fld":
            fs.append(str(y.args[1]))
            y = y.args[0]
        elif y.op == "ld" and y.args[0].op == "obj" and y.args[0].args[0].op in ("fld", "call"):
            fs.extend(str(p) for p in reversed(y.args[1]))
            y = y.args[0].args[0]
        else:
            break
    if y.op != "call":
        return None
    f = str(y.args[0]).split("::")[-1]
    fs = [q for z in reversed(fs) for q in z.split(".") if q not in ("Ok", "Some")]
    if f == "banks_mut_and_oracles" and fs and fs[0] == "0":
        sel = fs[1:]
        if sel[:1] == ["0"]:
            return "bank(%s)" % D(y.args[1][1], n)
        if sel[:1] == ["1"]:
            return "price(%s)" % D(y.args[1][1], n)
        if sel[:3] == ["2", "0", "0"] or sel[:2] == ["2", "0"] and len(sel) == 2:
            return "bank(%s)" % D(y.args[1][2], n)
        if sel[:3] == ["2", "0", "1"]:
            return "price(%s)" % D(y.args[1][2], n)
    if f in ("bank_and_oracle", "bank_mut_and_oracle", "scanned_bank_and_oracle") and fs[:1] == ["0"]:
        return ("bank(%s)" if fs[1:2] == ["0"] else "price(%s)") % D(y.args[1][-1], n)
    return None


def atom(D, t, val):
    """Canonical text of a decided branch condition."""
    if t.op == "lt":
        x, y = D(t.args[0]), D(t.args[1])
        return "%s < %s" % (x, y) if val else "%s <= %s" % (y, x)
    if t.op == "eq":
        a, b = t.args
        if a.op == "disc" or b.op == "disc":
            d, i = (a, b) if a.op == "disc" else (b, a)
            return "disc %s %s %s" % (D(d.args[0]), "==" if val else "!=", D(i))
        x, y = D(a), D(b)
        if x[:1].isdigit() or (y < x and not y[:1].isdigit()):
            x, y = y, x
        if boolish(a) or boolish(b):
            if y == "0" and not val or y == "1" and val:
                return x
            if y in ("0", "1"):
                return "!" + x
        return "%s %s %s" % (x, "==" if val else "!=", y)
    return ("" if val else "!") + D(t)


def boolish(t):
    return t.op == "call"


UNOPAQUE = ("require_after_phase1_liquidation", "require_after_phase2_liquidation", "has_phase1_liquidatable", "has_phase2_liquidatable")


class GuardRule(c02.R):
    """spec: list of (name, effect predicate over marks, clauses)."""

    def __init__(self, prog, ix, specs, trace=None):
        c02.R.__init__(self, prog, ix)
        self.specs = specs
        self.opaque -= {p for p in self.opaque if p.startswith("health::") and p.split("::")[-1] in UNOPAQUE}
        self.D = Desc(self)
        self.trace = trace
        self.res = []
        for si, (name, eff, clauses) in enumerate(specs):
            for ci, cl in enumerate(clauses):
                for rx in ([cl] if isinstance(cl, str) else cl):
                    self.res.append((("g", si, ci), re.compile(rx)))
        self.known = []

    def on_branch(self, an, st, fr, t, val):
        m = c02.R.on_branch(self, an, st, fr, t, val)
        m0 = m if m is not None else st.marks
        s = atom(self.D, t, val)
        if self.trace and self.trace in s:
            print("ATOM", s[:700])
        add = {k for k, rx in self.res if k not in m0 and rx.search(s)}
        if add:
            return m0 | add
        return m


def evaluate(rule, ix, oks):
    """-> list of ("bad", …)/("ok", …)"""
    out = []
    for si, (name, eff, clauses) in enumerate(rule.specs):
        hit = 0
        bad = None
        for s, _ in oks:
            if not eff(s.marks):
                continue
            hit += 1
            for ci, cl in enumerate(clauses):
                if ("g", si, ci) not in s.marks:
                    bad = cl
                    break
            if bad:
                break
        if not hit:
            out.append(("bad", "anchor:%s:%s" % (ix, name), "%s: no successful exit has the effect that `%s` guards (anchor lost)" % (ix, name), "instruction " + ix))
        elif bad:
            out.append(("bad", "%s:%s" % (name, ix), "%s can succeed without the test `%s` of guard `%s`" % (ix, bad if isinstance(bad, str) else " or ".join(bad), name), "instruction " + ix))
        else:
            out.append(("ok", "%s:%s" % (name, ix)))
    return out


def chg(a):
    return lambda m: ("chg", a) in m


def always(m):
    return True


def esc(s):
    return re.escape(s).replace("\\ ", " ")


def yes(f):
    return "^%s (== 1|!= 0)$" % esc(f)


def no(f):
    return "^%s (!= 1|== 0)$" % esc(f)


def pos(x):
    return "^0 < %s$" % x


def neg(x):
    return "^%s < 0$" % x


def ne(a, b):
    return "^(%s != %s|%s != %s)$" % (esc(a), esc(b), esc(b), esc(a))


def eq(a, b):
    return "^(%s == %s|%s == %s)$" % (esc(a), esc(b), esc(b), esc(a))


def run_guards(c, specs, cls=None, prep=None):
    """specs: {ix: [(name, effect, clauses)]}"""
    P = c.prog
    cls = cls or GuardRule

    def one(ix):
        r = cls(P, ix, specs[ix])
        if prep:
            prep(r, ix)
        an, oks = run_entry(P, ix, r)
        out = [("cov", "paths", an.steps), ("cov", "instructions", 1), ("cov", "clauses", sum(len(x[2]) for x in r.specs))]
        if not oks:
            return out + [("bad", "live:" + ix, "%s has no successful exit" % ix, "")]
        return out + evaluate(r, ix, oks) + (list(r.extra(ix, oks)) if hasattr(r, "extra") else [])
    c.pmap(one, sorted(specs))
    c.floor("instructions", c.cov.get("instructions", 0), len(specs))
