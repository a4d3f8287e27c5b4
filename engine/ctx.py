"""Runner support: loads the program, runs analyses (in parallel), collects obligations, violations, evidence."""
import os, sys, json, time, traceback, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import load, absint as A
from terms import T, I, Term, show, subterms

VERIF = load.VERIF
REPO = load.REPO


class Fail(Exception):
    """The analysis cannot be carried out on this tree (missing anchor): fail closed."""


class Ctx(object):
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viol = []          # (key, message, where)
        self.obl = []           # (key, ok?)
        self.cov = {}
        self.notes = []
        self._prog = None
        self._opq = None

    # ---- program
    @property
    def prog(self):
        if self._prog is None:
            d = load.load()
            self._prog = A.Program(d)
        return self._prog

    def fn(self, path):
        f = self.prog.fns.get(path)
        if f is None:
            raise Fail("anchor function `%s` not found" % path)
        return f

    def find_fn(self, *suffixes):
        """The unique function whose path ends with one of the suffixes."""
        for s in suffixes:
            c = [p for p in self.prog.fns if p == s or p.endswith("::" + s)]
            if len(c) == 1:
                return c[0]
        raise Fail("anchor function `%s` not found" % suffixes[0])

    def entries(self):
        pre = "__private::__global::"
        return sorted(p[len(pre):] for p in self.prog.fns
                      if p.startswith(pre) and "{" not in p[len(pre):] and "::" not in p[len(pre):])

    def where(self, path, line=None):
        f = self.prog.fns.get(path)
        if not f:
            return path
        return "%s:%s" % (f.get("file", "?"), line if line is not None else f.get("line", "?"))

    # ---- reporting
    def ok(self, key):
        self.obl.append((key, True))

    def bad(self, key, msg, where=""):
        self.obl.append((key, False))
        self.viol.append((key, msg, where))

    def need(self, cond, key, msg, where=""):
        if cond:
            self.ok(key)
        else:
            self.bad(key, msg() if callable(msg) else msg, where)
        return cond

    def floor(self, what, n, least):
        """Vacuity floor: what was analysed must not silently shrink."""
        self.cov[what] = n
        if n < least:
            self.bad("floor:" + what, "only %d %s found, at least %d expected (anchor lost)" % (n, what, least))

    # ---- parallel map; worker returns a list of ("ok", key) / ("bad", key, msg, where) / ("cov", name, n)
    def pmap(self, f, items):
        self.prog
        global _F
        _F = f
        items = list(items)
        if len(items) <= 1 or os.environ.get("MV_SERIAL"):
            res = [_call(i) for i in items]
        else:
            with mp.get_context("fork").Pool(min(8, len(items))) as p:
                res = p.map(_call, items, 1)
        for r in res:
            for e in r:
                if e[0] == "ok":
                    self.ok(e[1])
                elif e[0] == "bad":
                    self.bad(*e[1:])
                elif e[0] == "cov":
                    self.cov[e[1]] = self.cov.get(e[1], 0) + e[2]
                elif e[0] == "set":
                    self.cov.setdefault(e[1], set()).update(e[2])
        return res


_F = None


def _call(i):
    try:
        return list(_F(i))
    except A.Budget as e:
        return [("bad", "budget:%s" % (i,), "analysis of %s did not finish: %s" % (i, e), "")]
    except Fail as e:
        return [("bad", "anchor:%s" % (i,), str(e), "")]
    except Exception as e:
        return [("bad", "internal:%s" % (i,), "analysis of %s failed: %s" % (i, traceback.format_exc()[-1500:]), "")]


OPAQUE_PRE = ("state::oracle::", "health::", "state::bank::Bank::", "state::orderbook", "<state::orderbook", "logs::")


def entry_args():
    return [T("arg", "pid"), T("arg", "accounts"), T("arg", "data")]


class InlineRule(A.Rule):
    """Everything inlined except a vocabulary of opaque functions."""
    max_depth = 20
    pre = OPAQUE_PRE
    never = ()
    but = ()

    def __init__(self, prog):
        self.opaque = {p for p in prog.fns if (p.startswith(self.pre) or p in self.never) and not p.startswith(tuple(self.but) or ("\0",)) }

    def wants(self, prog):
        return lambda k, n: True


def run_entry(prog, ix, rule=None, limit=400000):
    rule = rule or InlineRule(prog)
    an = A.Analyzer(prog, rule, limit)
    path = "__private::__global::" + ix
    if path not in prog.fns:
        raise Fail("instruction `%s` not found in the program's entry points" % ix)
    outs = an.run(path, entry_args())
    return an, [(s, r) for s, r in outs if not is_err(r)]


def is_err(r):
    return A.variant_of(r) == "Err" or r.op == "alt" and all(is_err(x) for x in r.args)


# ---------- normal forms of the terms rules talk about
def nf(t):
    """('key', acct) | ('data', acct, path...) | ('int', n) | None"""
    if not isinstance(t, Term):
        return None
    if t.op == "int":
        return ("int", t.args[0])
    if t.op == "key" and t.args[0].op == "acct":
        return ("key", t.args[0].args[0])
    if t.op == "key":
        return ("key", t.args[0])
    if t.op == "owner" and t.args[0].op == "acct":
        return ("owner", t.args[0].args[0])
    if t.op == "ld":
        o = t.args[0]
        if o.op == "obj" and o.args[0].op == "data" and t.args[1]:
            a = o.args[0].args[0]
            return ("data", a.args[0] if a.op == "acct" else a) + t.args[1]
    if t.op == "const":
        return ("const", t.args[0])
    if t.op == "cast":
        return nf(t.args[1])
    return None


class Facts(object):
    """Queryable view of a state's must-facts."""

    def __init__(self, st):
        self.st = st
        self.par = {}
        self.neq = []
        self.lts = []       # (a, b) : a < b
        self.ges = []       # (a, b) : a >= b
        for k, v in st.facts.items():
            if v[0] != "is":
                continue
            if k.op == "eq":
                if v[1]:
                    self.union(self.n(k.args[0]), self.n(k.args[1]))
                else:
                    self.neq.append((self.n(k.args[0]), self.n(k.args[1])))
            elif k.op == "lt":
                (self.lts if v[1] else self.ges).append((k.args[0], k.args[1]))

    def n(self, t):
        return nf(t) or t

    def find(self, x):
        while self.par.get(x, x) != x:
            x = self.par[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.par[a] = b

    def same(self, a, b):
        return self.find(a) == self.find(b)

    def differ(self, a, b):
        a, b = self.find(a), self.find(b)
        return any((self.find(x), self.find(y)) in ((a, b), (b, a)) for x, y in self.neq)


def is_now(t):
    return "unix_timestamp" in show(t) and any(x.op == "call" and str(x.args[0]).endswith("SolanaSysvar::get") for x in subterms(t))


def key(n):
    return ("key", n)


def data(n, *p):
    return ("data", n) + p


def writers(prog, fields, mod="programs/mango-v4"):
    """{field: {(function, line)}}: assignments to, and mutable borrows of, places that end in one of the named fields."""
    out = {f: set() for f in fields}

    def hit(pl, p, line):
        if pl[1] and isinstance(pl[1][-1], list) and pl[1][-1][0] == "f" and pl[1][-1][2] in out:
            out[pl[1][-1][2]].add((p, line))
    for p, f in prog.fns.items():
        if "promoted" in p or "#[test]" in p:
            continue
        for stmts, term, line in ((b[0], b[1], b[2]) for b in f["bbs"]):
            for s in stmts:
                if isinstance(s[0], list):
                    hit(s[0], p, s[-1])
                    rv = s[1]
                    if rv[0] in ("ref", "addr", "rawptr") and len(rv) > 2 and rv[2]:
                        hit(rv[1], p, s[-1])
            if term and term[0] == "call":
                hit(term[3], p, line)
    return out


def changers(prog, fields):
    """{field: {instruction}}: the instructions from which a write of the field can be reached."""
    pre = "__private::__global::"
    out = {}
    for f, ws in writers(prog, fields).items():
        fs = {p for p, _ in ws}
        r = prog.reaching(lambda k, n: k == "fn" and n in fs) | fs
        out[f] = {p[len(pre):] for p in r if p.startswith(pre) and "{" not in p and "::" not in p[len(pre):]}
    return out
