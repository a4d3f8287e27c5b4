"""What each round of a loop over accounts (or over values collected from them) establishes and does."""
import re
import absint as A
import alg, guards, iters, models, txscan
from ctx import *
from terms import T, Term


def uses(t, s):
    return any(x.op == "each" and x.args[0] is s or x.op == "item" and len(x.args) > 1 and x.args[1] is s for x in subterms(t))


class RoundRule(InlineRule):
    """Marks: ("r", site, what) for the loops that are running: `what` holds canonical branch facts that mention the current element and match `keep`,
    and the effects on it ("f := v" for watched fields, "f(..)" for watched calls); ("done", site) when a loop ran out of elements.
    rounds[site]: what each completed round held; over[site]: texts of the collections; partial: sites whose adapters leave elements out."""
    keep = ()
    fields = ()
    calls = ()
    hold = ()                   # facts to keep for the whole call
    also = ()                   # facts to add to the rounds running in the same function

    def __init__(self, prog, opaque=()):
        InlineRule.__init__(self, prog)
        self.D = Desc(self)
        self.rounds, self.over, self.partial = {}, {}, set()
        self.opaque |= {p for p in prog.fns if p.split("::")[-1] in opaque}
        self.vals = {}          # text -> value term

    content = txscan.TxRule.content

    def on_ret(self, an, st, fr, name, res, args, ret, site):
        self.an = an
        if str(name).endswith("Iterator::next"):
            s = T("site", fr.fid, site[1] if isinstance(site, tuple) else site)
            it = an.full_deref(st, args[0])
            m = frozenset(x for x in st.marks if not (x[0] in ("done", "r") and x[1] is s or x[0] == "r" and x[1].args[0] == fr.fid and not within(fr.prep, s.args[1], x[1].args[1])))
            if A.variant_of(ret) == "None":
                return m | {("done", s)}
            self.note(an, st, it, s)
            return m | {("r", s, frozenset())}

    def note(self, an, st, it, s):
        it = self.content(an, st, it)
        a, _ = iters.sources(it)
        b = {y.args[0] for y in subterms(it) if y.op == "itad"}
        self.over.setdefault(s, set()).update(re.sub(r"\.?(Ok|Some)\.0\b", "", self.D(x)) for x in a)
        if b & {"skip", "take", "filter", "filter_map", "step_by", "skip_while", "take_while"}:
            self.partial.add(s)

    def add(self, st, t, s):
        m = set(st.marks)
        for x in st.marks:
            if x[0] == "r" and any(uses(y, x[1]) for y in (t if isinstance(t, tuple) else (t,)) if isinstance(y, Term)):
                m.discard(x)
                m.add(("r", x[1], x[2] | {s}))
        return frozenset(m)

    def on_branch(self, an, st, fr, t, val):
        ss = None
        if self.hold:
            ss = guards.atom(self.D, t, val)
            if any(re.search(k, ss) for k in self.hold):
                return st.marks | {("h", ss)}
        if not any(x[0] == "r" for x in st.marks):
            return None
        ss = ss or guards.atom(self.D, t, val)
        if any(re.search(k, ss) for k in self.also):
            return frozenset(("r", x[1], x[2] | {ss}) if x[0] == "r" and x[1].args[0] == fr.fid else x for x in st.marks)
        if any(re.search(k, ss) for k in self.keep):
            m = self.add(st, t, ss)
            return m if m != st.marks else None

    def on_write(self, an, st, fr, place, val):
        root, path = place
        f = path[-1] if path else None
        if f in self.fields and root.op == "obj" and "try_accounts" not in fr.prep.path:
            return self.add(st, (root,) + tuple(p for p in path if isinstance(p, Term)), "%s%s := %s" % (self.D.root(root, 0), self.D.path(path), self.value(val)))

    def value(self, v):
        s = alg.text(alg.Alg(self.D).poly(v)) if hasattr(alg, "text") else self.D(v)
        self.vals[s] = v
        return s

    def on_call(self, an, st, fr, name, res, args, site):
        f = str(res if res in an.prog.fns else name).split("::")[-1]
        if f in self.calls:
            vs = tuple(an.full_deref(st, a) if a.op == "ref" and a.args[0].op == "cell" else a for a in args)
            return self.add(st, vs, "%s(%s)" % (f, ", ".join(self.value(v) for v in vs)))

    def on_loop(self, an, st, fr, hdr, first):
        if not first:
            body = A.loop_body(fr.prep, hdr.args[1])
            for x in st.marks:
                if x[0] == "r" and x[1].args[0] == fr.fid and x[1].args[1] in body:
                    self.rounds.setdefault(x[1], set()).add(x[2] | {y[1] for y in st.marks if y[0] == "h"})

    def on_find(self, an, fr, st, it, f, b):
        """find/position: the closure holds for the element found."""
        s = T("site", fr.fid, b)
        it = an.full_deref(st, it)
        self.note(an, st, it, s)
        out = []
        for s1, v in models.elements(an, fr, st.copy(), it, s):
            if v is None:
                continue
            cell = T("cell", "fnd%d" % fr.fid, s)
            s1.mem[cell] = {(): v}
            for s2, y in (an.call_value(fr, s1, f, [T("ref", cell, (), 0)], ("each", b)) or ()):
                out += [(s3, v) for s3 in ([s2] if y.op == "int" and y.args[0] else [] if y.op == "int" else an.branch_states(s2.copy(), fr, y, True))]
        return out

    def on_any(self, an, fr, st, it, f, b, every):
        """any/all: the closure runs on one element; passing over it is a completed round."""
        s = T("site", fr.fid, b)
        it = an.full_deref(st, it)
        self.note(an, st, it, s)
        found, rest = [], st.copy()
        s0 = st.copy()
        s0.marks = s0.marks | {("r", s, frozenset())}
        for s1, v in models.elements(an, fr, s0, it, s):
            if v is None:
                continue
            for s2, y in (an.call_value(fr, s1, f, [v], ("each", b)) or ()):
                vals = [(s2, bool(y.args[0]))] if y.op == "int" else [(s3, z) for z in (True, False) for s3 in an.branch_states(s2.copy(), fr, y, z)]
                for s3, z in vals:
                    if z == every:
                        self.rounds.setdefault(s, set()).update(x[2] for x in s3.marks if x[0] == "r" and x[1] is s)
                    else:
                        s3.marks = frozenset(x for x in s3.marks if not (x[0] == "r" and x[1] is s))
                        found.append((s3, T("int", 0 if every else 1)))
        rest.marks = rest.marks | {("done", s)}
        return [(rest, T("int", 1 if every else 0))] + found


def within(prep, b, a):
    """Is block b inside the innermost loop that contains block a?"""
    bs = [A.loop_body(prep, h) for h in prep.latches]
    bs = [x for x in bs if a in x]
    return not bs or b in min(bs, key=len)


class Desc(txscan.Desc):
    def go(self, t, d):
        if t.op == "item":
            return "item"
        if t.op == "idxof":
            o = self.rule.over.get(t.args[1], ()) if self.rule is not None else ()
            return "index in %s" % "|".join(sorted(o))
        if t.op in ("hv", "phi", "vec"):
            return t.op
        if t.op == "alt":
            ds = sorted({self(x, d + 1) for x in t.args} - {"0"})
            if all(re.match(r"^(hv|phi|vec)\b", x) for x in ds) and len({re.sub(r"^(hv|phi|vec)\b", "", x) for x in ds}) == 1:
                return ds[0]
        return txscan.Desc.go(self, t, d)
