"""Comparing what loops do in each iteration with what they should do."""
import re
import absint as A
import alg, guards, logic, summ
from logic import V
from terms import T, Term, subterms, show


def canon(s):
    """Names without the identities of merged values and loop sites."""
    s = re.sub(r"\.?(each|idx\(each\(site\([^()]*\)\)\)|\[each\])", lambda m: "[each]" if m.group(1) != "each" else m.group(0), s)
    return re.sub(r"(phi|hv)#\d+'?", "it", s)


def name(a):
    if isinstance(a, str):
        return canon(a)
    return (a[0], tuple(alg.key(poly(dict(x))) if isinstance(x, tuple) else canon(str(x)) for x in a[1])) if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple) else a


def poly(p, ren=None):
    out = {}
    for m, cf in p.items():
        t = {(): cf}
        for a, e in m:
            n = (ren or {}).get(a) or name(a)
            t = alg.mul(t, {((n, e),): 1})
        out = alg.add(out, t)
    return out


def lits(ls, ren=None):
    out = set()
    for b, v in ls:
        if b[0] == "txt":
            out.add((("txt", canon(b[1])), v))
        else:
            q = poly(dict(b[1]), ren)
            if not q and b[0] == "eq" or not q:
                continue
            out.add(logic.pos(q, v) if b[0] == "gt" else logic.zero(q, v))
    return frozenset(out)


def sources(it):
    """(collections an iterator runs over, adapters that leave elements out)"""
    if it.op == "itad":
        k, a = it.args
        src, part = set(), set()
        for x in (a if k in ("zip", "chain") else a[:1]):
            s, p = sources(x)
            src |= s
            part |= p
        if k not in ("zip", "chain", "enumerate", "rev", "copied", "cloned", "map", "filter", "filter_map"):
            part.add(k)
        return src, part
    if it.op == "agg" and str(it.args[0]).split("::")[-1] == "Range" and len(it.args[2]) == 2 and it.args[2][0].op == "int" and it.args[2][0].args[0] == 0 and it.args[2][1].op == "len":
        return sources(it.args[2][1].args[0])
    if it.op == "iter":
        return sources(it.args[0]) if it.args[0].op in ("iter", "itad") else ({it.args[0]}, set())
    return {it}, set()


class Loops(object):
    """The loops of a function; roles name the places that matter."""

    def __init__(self, c, path, opaque=(), quiet=(), **kw):
        self.c = c
        self.path = path
        self.r, self.an, self.outs = logic.iterations(c, path, opaque, quiet, **kw)
        self.roles = {}
        self.ren = {}
        self.short = path.split("::")[-1]
        self.done = set()

    def over(self, k):
        """Canonical names of what loop k runs over."""
        src, part = set(), set()
        for it in self.r.over.get(k, ()):
            s, p = sources(it)
            src |= {canon(self.r.D(self.strip(x))) for x in s}
            part |= p
        return src, part

    def strip(self, t):
        return t

    def find(self, text):
        """The loops that run over the collection `text` (first component of a zip)."""
        return [k for k in self.r.over if text in self.over(k)[0]]

    def role(self, root, nm):
        self.roles[root] = nm

    def value(self, t):
        v = self.r.vals[t.replace(" again", "")]
        return v

    def totals(self, evs):
        out = {}
        for kind, root, path, t in evs:
            w = self.roles.get(root) or ("other:" + show(root, 3))
            if kind == "push":
                out.setdefault(("push", w, ""), []).append(canon(t))
                continue
            k = (kind, w, canon(path))
            p = poly(self.r.vals[t.split(" again")[0]], self.ren)
            out[k] = alg.add(out.get(k, {}), p)
        return out

    def check(self, key, k, want, src=None, ignore=(), given=()):
        """Loop k does in every iteration what the case its conditions select wants: want = [(literals, {place: value})]."""
        c = self.c
        bad = None
        n = 0
        s, part = self.over(k)
        if part:
            bad = "leaves elements out (%s)" % ", ".join(sorted(part))
        if src is not None and not s <= set(src):
            bad = "runs over %s" % sorted(s - set(src))
        hit = set()
        for ls, evs in self.r.iters.get(k, ()):
            if bad:
                break
            ls = lits(ls, self.ren)
            got = {q: v for q, v in self.totals(evs).items() if not (q[1] in ignore or q[1].startswith("other:") and self.temp(q, evs))}
            one = False
            for i, (L, w) in enumerate(want):
                both = logic.settle(ls | frozenset(L) | frozenset(given))
                if both is None:
                    continue
                one = True
                for q in sorted(set(got) | set(w), key=str):
                    x, y = got.get(q), w.get(q)
                    if q[0] == "push":
                        if x != (None if y is None else list(y)):
                            bad = "pushes %s instead of %s" % (x, y)
                        continue
                    x, y = x or {}, V(y or 0).p
                    if alg.key(logic.resolve(x, both)) != alg.key(logic.resolve(y, both)) and alg.key(logic.tied(x, both)) != alg.key(logic.tied(y, both)):
                        if not logic.feasible(both):
                            continue
                        bad = "%s %s of %s is %s instead of %s" % (q[1], q[2], q[0], alg.text(x)[:300], alg.text(y)[:300])
                    else:
                        hit.add(i)
                    if bad:
                        bad += " where " + logic.show_dnf(self.r, [both])[:400]
                        break
                if not (set(got) | set(w)) or all(q[0] == "push" for q in set(got) | set(w)):
                    hit.add(i)
                n += 1
            if not one and not bad:
                bad = "has an iteration outside every case: " + logic.show_dnf(self.r, [ls])[:300]
        if not bad and len(hit) < len(want):
            bad = "has no iteration for case %s" % logic.show_dnf(self.r, [want[min(set(range(len(want))) - hit)][0]])[:300]
        self.done.add(k)
        c.cov["loop cases compared"] = c.cov.get("loop cases compared", 0) + n
        c.cov["loops"] = c.cov.get("loops", 0) + 1
        c.need(bad is None and n, "loop:%s.%s" % (self.short, key), "the loop over %s in %s %s" % (", ".join(sorted(s))[:200], self.short, bad or "never runs"), c.where(self.path))

    def temp(self, q, evs):
        """Writes to locals that play no role."""
        return all(root.op == "cell" for kind, root, path, t in evs if ("other:" + show(root, 3)) == q[1])

    def starts_zero(self, key, t, seen=None):
        """The merged value t began as zero before the first loop."""
        seen = seen if seen is not None else set()
        bad = self.nonzero(t, seen)
        self.c.need(bad is None, "start:%s.%s" % (self.short, key), "%s in %s starts from %s" % (key, self.short, bad), self.c.where(self.path))

    def nonzero(self, t, seen):
        if t in seen:
            return None
        seen.add(t)
        if t.op == "phi" and t.args[0].op == "loop":
            vs = self.r.init.get(t)
            if vs is None:
                return "an unknown value"
            for v in vs:
                b = self.nonzero(v, seen)
                if b:
                    return b
            return None
        if t.op == "phi" or t.op == "alt":
            vs = self.an.phis.get(t) if t.op == "phi" else t.args
            for v in vs or ():
                b = self.nonzero(v, seen)
                if b:
                    return b
            return None if vs else "an unknown value"
        return None if not self.r.x.poly(t) else self.r.D(t)[:100]

    def exits(self, key):
        """Successful exits leave every loop only when it ran out of elements."""
        n = 0
        for ls, evs, rv, st in self.outs:
            if not logic.is_ok(rv):
                continue
            n += 1
            o = logic.left_open(st)
            if not self.c.need(not o, "loop:%s.%s-complete" % (self.short, key), "%s can leave a loop over %s before its end" % (self.short, [sorted(self.over(k)[0]) for k in o]), self.c.where(self.path)):
                return
        self.c.need(n, "loop:%s.%s-exit" % (self.short, key), "%s never succeeds" % self.short, self.c.where(self.path))

    def all_done(self, key):
        rest = [k for k in self.r.over if k not in self.done]
        self.c.need(not rest, "loop:%s.%s-known" % (self.short, key), "%s has an unexpected loop over %s" % (self.short, [sorted(self.over(k)[0]) for k in rest]), self.c.where(self.path))


def root(t):
    """The place whose merged value t is."""
    while t.op in ("cast", "num"):
        t = t.args[-1]
    if t.op == "phi":
        return t.args[1]
    return None
