"""Everything a function changes and calls, compared with a table."""
from ctx import *
from terms import T
import guards


class XDesc(guards.Desc):
    def path(self, path):
        import logic
        return logic.IDesc.path(self, path)

    def go(self, t, d):
        import logic
        if t.op == "aliased":
            return self(t.args[0], d + 1)
        return logic.IDesc.go(self, t, d)


def rule(c, opaque, framed, keep=("",), watch=(), ext=(), fns=(), drop=("disc checked_",), desc=None):
    import amounts, alg

    class X(amounts.AmountRule):
        pre = ()

        def on_branch(self, an, st, fr, t, val):
            s = guards.atom(self.D, t, val)
            if any(k in s for k in drop):
                return None
            return amounts.AmountRule.on_branch(self, an, st, fr, t, val)

        def on_call(self, an, st, fr, name, res, args, site):
            m = amounts.AmountRule.on_call(self, an, st, fr, name, res, args, site)
            f = str(res if res in an.prog.fns else name).split("::")[-1]
            if f in self.watch and (f in self.names or name in self.ext):
                vs = [an.full_deref(st, a) if a.op == "ref" and a.args[0].op == "cell" else a for a in args]
                return frozenset(x for x in (m or st.marks) if x[0] != "did" or len(x) > 3) | {("did", f, tuple(self.D(v) for v in vs), site, tuple(alg.key(self.x.poly(v)) for v in vs))}
            return m
    return X(c.prog, set(opaque) | set(framed), framed, keep=keep, fns=fns, watch=watch, desc=desc or XDesc, ext=ext)


def changes(an, r, st):
    """{place: its new polynomial} for everything outside the function's own variables that it gives another value."""
    out = {}
    for root, m in st.mem.items():
        if root.op == "cell":
            continue
        for p, v in m.items():
            v = an.read(st, (root, p))
            place = r.D(root.args[0] if root.op == "obj" else root) + r.D.path(p)
            x = r.x.poly(v)
            import alg
            if alg.text(x) != place:
                out[place] = x
    return out


def did(marks):
    return sorted({(x[1], x[2], x[4]) for x in marks if x[0] == "did"}, key=str)


def called(calls, want, l):
    """The calls are the wanted ones, each once: (name, arguments as texts, polynomials or None for any)."""
    import amounts
    rest = list(calls)
    for f, args in want:
        for x in rest:
            if x[0] == f and len(x[1]) == len(args) and all(a is None or (a == t if isinstance(a, str) else amounts.eqv(k, a) or amounts.eqv(k, a, l)) for a, t, k in zip(args, x[1], x[2])):
                rest.remove(x)
                break
        else:
            return False
    return not rest


def covered(l, dnf):
    """Whatever the remaining conditions are, one of the cases applies (each condition taken as a boolean)."""
    import itertools, logic
    rest = sorted({a for d in dnf for a, p in d} - {a for a, p in l}, key=str)
    if len(rest) > 6:
        return False
    for vs in itertools.product((True, False), repeat=len(rest)):
        m = l | frozenset(zip(rest, vs))
        if not any(d <= m for d in dnf) and logic.consistent(m):
            return False
    return True


def check(c, path, want, opaque=(), framed=(), watch=(), given=(), result=None, tag=None, ok=None, quiet=(), ext=(), fns=(), cover=True):
    """want: [(literals, {place: value}, calls or None, result or None)], the values polynomials or texts. Every successful exit must, under
    each case its conditions allow, change exactly these places to these values and have made exactly the watched calls {(name, argument texts)}."""
    import logic, amounts, alg
    tag = tag or "::".join(path.split("::")[-2:]).replace("<impl state::dynamic_account::DynamicAccount<Header, Fixed, Dynamic>>::", "")
    w = c.where(path)
    r = rule(c, opaque, framed, watch=watch, ext=ext, fns=fns)
    an, outs = r.run_fn(c, path)
    seen, n = set(), 0
    for s, rv in outs:
        if is_err(rv) if ok is None else not ok(rv):
            continue
        l = amounts.lits(s.marks)
        if logic.refuted(l):
            continue
        got = changes(an, r, s)
        calls = did(s.marks)
        hit = False
        for i, case in enumerate(want):
            L, eff = case[0], case[1]
            both = logic.settle(frozenset(l) | frozenset(L) | frozenset(given))
            if both is None or logic.refuted(both):
                continue
            hit = True
            seen.add(i)
            n += 1
            for pl in sorted(set(got) | set(eff)):
                if any(pl.startswith(q) for q in quiet):
                    continue
                g, e = got.get(pl, None), eff.get(pl, None)
                if isinstance(e, str):
                    okv = g is not None and alg.text(g) == e
                else:
                    g_, e_ = g if g is not None else logic.V(pl).p, logic.V(e) if e is not None else logic.V(pl)
                    okv = amounts.eqv(alg.key(g_), e_) or amounts.eqv(alg.key(g_), e_, both)
                short = pl.split(".")[-1]
                c.need(okv, "effect:%s:%s" % (tag, short), lambda: "%s makes %s %s, expected %s, where %s" % (tag, pl[-160:], alg.text(g)[:300] if g is not None else "keep its value", e if isinstance(e, str) else alg.text((logic.V(e) if e is not None else logic.V(pl)).p)[:300], logic.show_dnf(r, [l])[:300]), w)
            if len(case) > 2 and case[2] is not None:
                c.need(called(calls, case[2], both), "calls:" + tag, lambda: "%s calls %s, expected %s" % (tag, "; ".join("%s(%s)" % (f, ", ".join(a)) for f, a, k in calls)[:500], "; ".join("%s(%s)" % (f, ", ".join("_" if x is None else x if isinstance(x, str) else alg.text(x.p) for x in a)) for f, a in case[2])[:400]), w)
            if len(case) > 3 and case[3] is not None:
                t = r.D(rv)
                e = case[3]
                c.need(t == e or not isinstance(e, str) and amounts.eqv(alg.key(r.x.poly(logic.inner(rv))), logic.V(e), both), "result:" + tag, lambda: "%s gives %s, expected %s" % (tag, t[:300], e if isinstance(e, str) else alg.text(logic.V(e).p)[:300]), w)
        if cover and hit:
            dnf = [frozenset(case[0]) for case in want]
            hit = covered(l | frozenset(given), dnf) or logic.implied(l | frozenset(given), dnf)
        c.need(hit, "case:" + tag, lambda: "%s succeeds where it should not: %s" % (tag, logic.show_dnf(r, [l])[:500]), w)
    for i in set(range(len(want))) - seen:
        c.bad("case:%s:%d" % (tag, i), "%s has no successful path where %s" % (tag, logic.show_dnf(r, [frozenset(want[i][0])])[:400]), w)
    c.cov["functions compared in full"] = c.cov.get("functions compared in full", 0) + 1
    c.cov["exits compared"] = c.cov.get("exits compared", 0) + n
    return r, an, outs


def holds(c, path, want, tag=None):
    """A boolean function is true exactly under the wanted condition (a list of conjunctions)."""
    import logic
    tag = tag or "::".join(path.split("::")[-2:])
    r, outs, old, new = logic.formula(c, path, indexed=True)
    got = logic.when(r, outs)
    c.cov["conditions compared"] = c.cov.get("conditions compared", 0) + 1
    c.need(outs and logic.equivalent(got, [frozenset(x) for x in want]), "holds:" + tag, "%s is true where %s" % (tag, logic.show_dnf(r, got)[:600]), c.where(path))
