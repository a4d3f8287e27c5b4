"""Amounts handed to calls: argument polynomials of watched calls, with the comparisons known and the calls already made on every path to them."""
from fractions import Fraction
from ctx import *
from terms import T
import absint as A
import alg, guards


class AmountRule(InlineRule):
    """`opaque` functions are not entered; those in `framed` leave their arguments unchanged (their effect is what the rule specifies).
    calls[f] holds (argument texts, argument polynomials, marks) of every call of an opaque function, and of the outside functions `ext`.
    Marks: ("lit", literal) for branches that mention `keep`; ("did", f, first argument) for calls in `watch`."""
    keep = ()
    watch = ()

    def __init__(self, prog, opaque, framed=(), keep=None, watch=None, fns=(), desc=None, ext=(), **kw):
        self.ext = set(ext)

        import logic
        InlineRule.__init__(self, prog)
        self.D = (desc or guards.Desc)(self)
        self.x = alg.Alg(self.D, fns=fns, **kw)
        self.x.prog = prog
        self.lit = logic.lit
        self.names, self.fr = set(opaque), set(framed)
        self.opaque |= {p for p in prog.fns if p.split("::")[-1] in self.names}
        if keep is not None:
            self.keep = keep
        if watch is not None:
            self.watch = watch
        self.calls = {}

    def frames(self, res):
        return str(res).split("::")[-1] in self.fr

    def on_branch(self, an, st, fr, t, val):
        s = guards.atom(self.D, t, val)
        if any(k in s for k in self.keep):
            return st.marks | {("lit", self.lit(self.x, t, val))}

    def on_call(self, an, st, fr, name, res, args, site):
        f = str(res if res in an.prog.fns else name).split("::")[-1]
        if f in self.names and res in an.prog.fns or name in self.ext:
            vs = [an.full_deref(st, a) if a.op == "ref" and a.args[0].op == "cell" else a for a in args]
            self.calls.setdefault(f, set()).add((tuple(self.D(v) for v in vs), tuple(alg.key(self.x.poly(v)) for v in vs), frozenset(st.marks)))
            if f in self.watch:
                return st.marks | {("did", f, self.D(args[0]))}

    def run_fn(self, c, path, limit=400000):
        import summ
        an = A.Analyzer(c.prog, self, limit)
        return an, an.run(path, [T("arg", x) for x in summ.arg_names(c.fn(path))])


def lits(marks):
    return frozenset(x[1] for x in marks if not isinstance(x, str) and x[0] == "lit")


def canon(p):
    """min written as max, so that negated forms meet."""
    r = {}
    for m, cf in p.items():
        t = {(): Fraction(cf)}
        for a, e in m:
            v = {((a, e),): Fraction(1)}
            if e == 1 and isinstance(a, tuple) and a[0] in ("min", "max"):
                xs = [canon(dict(x)) for x in a[1]]
                v = alg.Alg(None).minmax_p("max", xs) if a[0] == "max" else alg.scale(alg.Alg(None).minmax_p("max", [alg.scale(x, -1) for x in xs]), -1)
            t = alg.mul(t, v)
        r = alg.add(r, t)
    return r


def eqv(k, v, known=None):
    """Equal, or equal where the literals in `known` hold."""
    p, q = dict(k), v.p
    if p == q:
        return True
    if alg.key(canon(p)) == alg.key(canon(q)):
        return True
    if known is None:
        return False
    import logic
    return alg.key(canon(logic.resolve(p, known))) == alg.key(canon(logic.resolve(q, known))) or alg.key(canon(logic.tied(p, known))) == alg.key(canon(logic.tied(q, known)))
