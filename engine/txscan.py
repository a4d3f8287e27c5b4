"""What an instruction establishes about the other instructions of its transaction while scanning them."""
import re
import absint as A
import alg, guards, iters, models
from ctx import *
from terms import T, Term


class Desc(guards.Desc):
    def path(self, path):
        out = ""
        for p in path:
            if isinstance(p, Term):
                out += "[%s]" % ("each" if p.args[0].op == "each" else self(p.args[0])) if p.op == "idx" else ""
            elif p not in ("Ok.0", "Some.0"):
                out += "." + (guards.KIND.get(p) or str(p).lstrip("@"))
        return out

    def go(self, t, d):
        if t.op == "call" and str(t.args[0]).endswith("load_instruction_at_checked"):
            return "ix"
        if t.op == "call" and str(t.args[0]).endswith("load_current_index_checked"):
            return "cur"
        if t.op == "call" and str(t.args[0]).split("::")[-1] == "try_into" and str(t.args[1][0]).startswith("[u8"):
            return self(t.args[1][1], d + 1)
        if t.op == "each" and self.rule is not None:
            cs = self.rule.over.get(t.args[0], ()) or self.rule.over.get(t.args[-1], ())
            if len(cs) == 1:
                x = next(iter(cs))
                while x.op in ("iter", "ref") and isinstance(x.args[0], Term):
                    x = x.args[0]
                if x.op == "agg":
                    return "oneof(%s)" % self(x, d + 1)
        if t.op == "agg" and re.search(r"Range(From|To)?$", str(t.args[0])):
            x = alg.Alg(self)
            return "%s{%s}" % (str(t.args[0]).split("::")[-1], ", ".join(alg.text(x.poly(y)) for y in t.args[2]))
        if t.op == "static" or t.op in ("lit", "ld") and "static:ID" in show(t):
            return "self"
        if t.op == "const":
            return "::".join(str(t.args[0]).split("::")[-2:])
        if t.op == "call" and not t.args[1]:
            return str(t.args[0]).replace("anchor_spl::", "")
        if t.op == "fld" and isinstance(t.args[1], Term) and t.args[1].op == "idx":
            s = self(t.args[0], d + 1) + self.path((t.args[1],))
        else:
            s = guards.Desc.go(self, t, d)
        return "self" if s in ("$pid", "pid", "$program_id") else re.sub(r"ix\.data\[Range(?:\{0, 8\}|To\{8\})\]", "ix.data8", s)


class TxRule(InlineRule):
    """Marks ("tx", facts): canonical branch facts about the instruction loaded last; `rounds`: the facts of every scan round that was completed.
    ("all", site): a loop over a part of that instruction that began after it was loaded ran to its end; elts[site]: what each of its rounds established."""
    keep = ()                  # facts kept for the whole call: those that mention one of these

    def __init__(self, prog, opaque=()):
        InlineRule.__init__(self, prog)
        self.D = Desc(self)
        self.rounds = set()
        self.loads = set()
        self.elts = {}
        self.over = {}
        self.at = set()        # (frame, block) on the way to a load
        self.opaque |= {p for p in prog.fns if p.split("::")[-1] in opaque}

    def drop(self, marks, *kinds):
        return frozenset(x for x in marks if x[0] not in kinds)

    def split(self, marks):
        out = set()
        for x in marks:
            if x[0] == "tx":
                out |= x[1]
            elif x[0] in ("all", "keep"):
                out.add(x)
        return frozenset(out)

    def on_ret(self, an, st, fr, name, res, args, ret, site):
        f = str(res if res in an.prog.fns else name).split("::")[-1]
        if f == "load_instruction_at_checked":
            self.loads.add(an.argval(st, args[0]))
            self.an = an
            b, g = (site[1] if isinstance(site, tuple) else site), fr
            while g is not None:
                self.at.add((g.fid, b))
                b, g = g.bb, g.parent
            m = st.marks
            done = [x for x in m if x[0] == "tx"]
            if done and not any(x[0] == "first" for x in m):
                m = m | {("first", done[0][1])}
            return self.drop(m, "tx", "all", "in", "elt", "ld") | {("tx", frozenset()), ("ld", an.argval(st, args[0]).n)}     # loads stay apart
        if str(name).endswith("Iterator::next") and any(x[0] == "tx" for x in st.marks):
            s = T("site", fr.fid, site[1] if isinstance(site, tuple) else site)
            it = an.full_deref(st, args[0])
            m = frozenset(x for x in st.marks if not (x[0] in ("all", "elt", "in") and x[1] is s))
            if A.variant_of(ret) == "None":
                return m | {("all", s)}
            self.over.setdefault(s, set()).add(self.content(an, st, it))
            return m | {("in", s), ("elt", s, frozenset())}

    def on_any(self, an, fr, st, it, f, b, every):
        """any/all over a part of the instruction: the closure runs on one element."""
        if not any(x[0] == "tx" for x in st.marks):
            return None
        s = T("site", fr.fid, b)
        it = an.full_deref(st, it)
        self.over.setdefault(s, set()).add(self.content(an, st, it))
        found, rest = [], st.copy()
        s0 = st.copy()
        s0.marks = s0.marks | {("in", s), ("elt", s, frozenset())}
        for s1, v in models.elements(an, fr, s0, it, s):
            for s2, y in (an.call_value(fr, s1, f, [v], ("each", b)) or ()):
                if y.op == "int":
                    vals = [(s2, bool(y.args[0]))]
                else:
                    vals = [(s3, val) for val in (True, False) for s3 in an.branch_states(s2.copy(), fr, y, val)]
                for s3, val in vals:
                    if val == every:                     # goes on to the next element
                        self.elts.setdefault(s, set()).update(x[2] for x in s3.marks if x[0] == "elt" and x[1] is s)
                    else:
                        e = frozenset(f for x in s3.marks if x[0] == "elt" and x[1] is s for f in x[2])
                        s3.marks = frozenset(("tx", x[1] | e) if x[0] == "tx" else x for x in s3.marks if not (x[0] in ("elt", "in") and x[1] is s))
                        found.append((s3, T("int", 0 if every else 1)))
        rest.marks = rest.marks | {("all", s)}
        return [(rest, T("int", 1 if every else 0))] + found

    def on_branch(self, an, st, fr, t, val):
        if not any(x[0] == "tx" for x in st.marks) and not self.keep:
            return None
        s = None
        m = set(st.marks)
        for x in st.marks:
            if x[0] == "elt" and uses(t, x[1]):
                s = guards.atom(self.D, t, val)
                m = (m - {x}) | {("elt", x[1], x[2] | {s})}
        if s is None and any(y.op == "call" and "load_instruction_at_checked" in str(y.args[0]) for y in subterms(t)):
            s = guards.atom(self.D, t, val)
            for x in st.marks:
                if x[0] == "tx":
                    m = (m - {x}) | {("tx", x[1] | {s})}
        elif self.keep:
            s = guards.atom(self.D, t, val)
            if any(k in s for k in self.keep):
                m.add(("keep", s))
        m = frozenset(m)
        return m if m != st.marks else None

    def on_loop(self, an, st, fr, hdr, first):
        if not any(x[0] == "tx" for x in st.marks):
            return None
        if not any((fr.fid, b) in self.at for b in A.loop_body(fr.prep, hdr.args[1])):
            for x in st.marks:
                if x[0] == "elt" and x[1].args[0] == fr.fid:
                    self.elts.setdefault(x[1], set()).add(x[2])
            return None
        if not first:
            self.rounds.add(self.split(st.marks))
            return self.drop(st.marks, "tx", "all", "in", "elt", "ld")

    def exits(self, oks):
        return {(self.split(s.marks), next((x[1] for x in s.marks if x[0] == "first"), frozenset())) for s, rv in oks}

    def content(self, an, st, it):
        """An iterator term with local collections replaced by what they hold."""
        if it.op == "itad":
            return T("itad", it.args[0], tuple(self.content(an, st, x) for x in it.args[1]))
        if it.op == "iter":
            return T("iter", self.content(an, st, it.args[0]))
        if it.op == "ref" and it.args[0].op == "cell":
            return an.read(st, (it.args[0], it.args[1]))
        return it

    def source(self, s):
        """(texts of the collections the loop at s runs over, adapters that leave elements out)"""
        src, part = set(), set()
        for it in self.over.get(s, ()):
            a, b = iters.sources(it)
            src |= {re.sub(r"\.?(Ok|Some)\.0\b", "", self.D(x)) for x in a}
            part |= b | {y.args[0] for y in subterms(it) if y.op == "itad" and str(y.args[0]).startswith("filter")}
        return src, part

    def every(self, facts, srcs, want):
        """A completed loop over these collections (regexes) established `want` (regex) for each element."""
        for x in facts:
            if isinstance(x, tuple) and x[0] == "all":
                src, part = self.source(x[1])
                es = self.elts.get(x[1], set())
                if not part and src and all(any(re.search(r, y) for y in src) for r in srcs) and all(any(re.search(r, y) for r in srcs) for y in src) and es and all(any(re.search(want, f) for f in e) for e in es):
                    return True
        return False

    def contiguous(self):
        """The scan starts with the next instruction and takes every one after it."""
        x = alg.Alg(self.D)
        ps = {}
        for t in self.loads:
            while t.op in ("cast", "num", "into"):
                t = t.args[-1]
            ps[t] = x.poly(t)
        cur = alg.var("cur")
        ks = set()
        for t, p in ps.items():
            if t.op == "each" and len(t.args) > 1 and t.args[1].op == "agg" and re.search(r"Range(From)?$", str(t.args[1].args[0])):
                p = x.poly(t.args[1].args[2][0])            # each index from the start on
            d = alg.add(p, alg.scale(cur, -1))
            if set(d) <= {()}:
                ks.add(d.get((), 0))
        if 1 not in ks or ks - {0} != set(range(1, int(max(ks)) + 1)):
            return "starts at %s" % sorted(map(str, ks))
        for t, p in ps.items():
            d = alg.add(p, alg.scale(cur, -1))
            if set(d) <= {()}:
                continue
            if t.op == "each":
                continue
            if t.op != "phi":
                return "loads instruction %s" % self.D(t)
            for v in self.an.phis.get(t, ()):
                e = alg.add(x.poly(v), alg.scale(p, -1))
                i = alg.add(x.poly(v), alg.scale(cur, -1))
                if not (set(e) <= {()} and e.get((), 0) in (0, 1) or set(i) <= {()} and i.get((), 0) - 1 in ks):
                    return "steps to %s" % self.D(v)
        return None


def uses(t, s):
    return any(x.op == "each" and x.args[0] is s for x in subterms(t))
