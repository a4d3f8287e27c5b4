"""Calls made inside and after loops, with loop-carried values named by what they start from."""
from ctx import *
from terms import T
import absint as A
import amounts, guards, summ


class PDesc(guards.Desc):
    def go(self, t, d):
        if t.op == "aliased":
            return self(t.args[0], d + 1)
        if t.op == "phi" and t.args[0].op == "loop":
            return self.rule.carried(t)
        if t.op == "item":
            return "item(%s)" % self(t.args[0], d + 1)
        return guards.Desc.go(self, t, d)


class LoopCalls(amounts.AmountRule):
    """As AmountRule; marks are dropped at the head of a loop, so they speak of the last iteration. carried values are phi#n;
    start: their values when a loop begins, turns: after one iteration (with the marks of it)."""

    fields = ()

    def __init__(self, prog, opaque, framed=(), keep=(), fns=(), ext=(), watch=(), before=None):
        amounts.AmountRule.__init__(self, prog, opaque, framed, keep=keep, fns=fns, desc=PDesc, ext=ext, watch=watch)
        self.start = {}
        self.turns = {}
        self.raw = {}
        self.writes = set()
        self.back = {}
        self.names_ = {}
        self.same = before.constant() if before else {}

    def constant(self):
        """Loop values that are what another loop value was when the loop began: {phi: that one}."""
        r = {}
        for p, vs in self.start.items():
            v = next(iter(vs))[0]
            if all(x[0] is v for x in vs) and v.op == "phi" and v.args[0].op == "loop" and self.back.get(p, set()) <= {v, p}:
                r[p] = v
        return r

    def carried(self, t):
        while t in self.same:
            t = self.same[t]
        return self.names_.setdefault(t, "phi#%d" % len(self.names_))

    def on_call(self, an, st, fr, name, res, args, site):
        m = amounts.AmountRule.on_call(self, an, st, fr, name, res, args, site)
        f = str(res if res in an.prog.fns else name).split("::")[-1]
        if f in self.watch and (f in self.names or name in self.ext):
            vs = [an.full_deref(st, a) if a.op == "ref" and a.args[0].op == "cell" else a for a in args]
            self.raw.setdefault(f, set()).add((tuple(vs), frozenset(st.marks)))
            return frozenset(m or st.marks) | {("did", f, tuple(self.D(v) for v in vs), site)}
        return m

    def on_loop(self, an, st, fr, hdr, first):
        now = []
        for root, path in (an.pre or {}).get(hdr, ()):
            p = T("phi", hdr, root, path)
            v = an.read(st, (root, path))
            if v is p:
                continue
            now.append((p, v))
            if first:
                self.start.setdefault(p, set()).add((v, frozenset(st.marks)))
            else:
                self.back.setdefault(p, set()).add(v)
        if first:
            return None
        self.turns.setdefault(hdr, set()).add((frozenset(now), frozenset(st.marks)))
        return frozenset()


    def on_write(self, an, st, fr, place, val):
        root, path = place
        if path and path[-1] in self.fields:
            self.writes.add((self.D(root), path[-1], val, frozenset(st.marks)))


def did(marks):
    return frozenset((x[1], x[2]) for x in marks if x[0] == "did")


def loop_calls(c, path, make, limit=400000):
    """-> (rule, analyzer, outs); later runs start every loop from unknown values of what it changes."""
    f = c.fn(path)
    pre, r = {}, None
    for n in range(5):
        r = make(r)
        an = A.Analyzer(c.prog, r, limit)
        an.pre = {k: list(v) for k, v in pre.items()}
        outs = an.run(path, [T("arg", n) for n in summ.arg_names(f)])
        new = {}
        for t in an.phis:
            if t.op == "phi" and t.args[0].op == "loop":
                new.setdefault(t.args[0], set()).add((t.args[1], t.args[2]))
        if n > 1 and all(v <= pre.get(k, set()) for k, v in new.items()):
            return r, an, outs
        for k, v in new.items():
            pre.setdefault(k, set()).update(v)
    raise ValueError("the loops of %s do not stabilise" % path)
