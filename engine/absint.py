"""Property-directed abstract interpreter over the MIR dump.

Domain: hash-consed terms (value numbering) for values, must-facts for branch conditions, and a set of
rule-defined marks (typestate).  States are partitioned by (marks, shapes of the locals still to be
switched on) and joined otherwise; loops are iterated to a fixpoint with values that change widened to
phi terms.  Local functions that matter to the rule are analysed in the caller's context, the others are
opaque calls whose mutable arguments are havocked.  Nothing is executed and no path condition is solved.
"""
import sys
from terms import T, I, Term, TRUE, FALSE, UNIT, subterms, show

sys.setrecursionlimit(20000)

MAXSTATES = 48
INT_TYS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char"}


class Program(object):
    def __init__(self, d):
        self.d = d
        self.fns = {}
        for f in d["fns"]:
            self.fns.setdefault(f["path"], f)
        self.adts = {a["path"]: a for a in d["adts"]}
        self._prep = {}
        self._names = None
        self._reach = {}

    # ---- static facts about functions
    def names(self):
        """fn path -> (set of callee names, set of field names, set of enum variants built)."""
        if self._names is None:
            r = {}
            for p, f in self.fns.items():
                cal, fld, agg = set(), set(), set()

                def pl(x):
                    for e in x[1]:
                        if e != "*" and e[0] == "f":
                            fld.add(e[2])

                def op(o):
                    if o[0] in ("p", "m"):
                        pl(o[1])
                    elif o[0] == "k":
                        k = o[1]
                        if "fn" in k:
                            cal.add(k["fn"])
                            if k.get("res"):
                                cal.add(k["res"])
                        if "promoted" in k and "def" in k:
                            cal.add("%s::{promoted#%d}" % (k["def"], k["promoted"]))

                def rv(v):
                    if v[0] == "use" or v[0] == "rep":
                        op(v[1])
                    elif v[0] in ("ref", "disc"):
                        pl(v[1])
                    elif v[0] == "cast":
                        op(v[2])
                    elif v[0] == "bin":
                        op(v[2]), op(v[3])
                    elif v[0] == "un":
                        op(v[2])
                    elif v[0] == "agg":
                        agg.add(v[2])
                        if v[1] == "clo":
                            cal.add(v[2])
                        for o in v[4]:
                            op(o)

                for st, t, _ in f["bbs"]:
                    for s in st:
                        pl(s[0])
                        rv(s[1])
                    if t[0] == "call":
                        op(t[1])
                        for a in t[2]:
                            op(a)
                        pl(t[3])
                r[p] = (cal, fld, agg)
            self._names = r
        return self._names

    def reaching(self, pred):
        """Local functions that transitively reference a callee/field/variant name satisfying pred(kind, name)."""
        nm = self.names()
        hit = set()
        rev = {}
        for p, (cal, fld, agg) in nm.items():
            if any(pred("fn", c) for c in cal) or any(pred("field", c) for c in fld) or any(pred("agg", c) for c in agg):
                hit.add(p)
            for c in cal:
                if c in self.fns:
                    rev.setdefault(c, []).append(p)
        work = list(hit)
        while work:
            p = work.pop()
            for q in rev.get(p, ()):
                if q not in hit:
                    hit.add(q)
                    work.append(q)
        return hit

    def prep(self, path):
        r = self._prep.get(path)
        if r is None:
            r = self._prep[path] = Prep(self, self.fns[path])
        return r


class Prep(object):
    """Per function: reverse post-order, join points, loop headers, liveness, switched locals."""

    def __init__(self, prog, f):
        self.f = f
        self.path = f["path"]
        bbs = f["bbs"]
        n = len(bbs)
        succ = []
        for st, t, _ in bbs:
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "sw":
                s = [b for _, b in t[2]] + [t[3]]
            elif k == "call":
                s = [t[4]] if t[4] >= 0 else []
            elif k == "drop":
                s = [t[2]]
            elif k == "assert":
                s = [t[4]]
            else:
                s = []
            succ.append(s)
        self.succ = succ
        # dfs
        order, state, self.headers = [], [0] * n, set()
        self.latches = {}
        stack = [(0, iter(succ[0]))] if n else []
        if n:
            state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state[s] == 0:
                    state[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
                elif state[s] == 1:
                    self.headers.add(s)
                    self.latches.setdefault(s, set()).add(b)
            else:
                state[b] = 2
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        npred = [0] * n
        for b in order:
            for s in set(succ[b]):
                npred[s] += 1
        self.npred = npred
        self.loopy = bool(self.headers)
        self.bodies = {}
        # borrowed + switched locals
        borrowed, sw = set(), set()
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        alias = {}

        def u(b, l):
            if l not in deff[b]:
                use[b].add(l)

        def op(b, o):
            if o[0] in ("p", "m"):
                pl(b, o[1])

        def pl(b, p):
            u(b, p[0])
            for e in p[1]:
                if e != "*" and e[0] == "i":
                    u(b, e[1])

        for b, (st, t, _) in enumerate(bbs):
            for s in st:
                v = s[1]
                if v[0] in ("use", "rep"):
                    op(b, v[1])
                    if v[1][0] in ("p", "m") and not s[0][1]:
                        alias.setdefault(s[0][0], set()).add(v[1][1][0])
                elif v[0] == "ref":
                    pl(b, v[1])
                    if "*" not in v[1][1]:
                        borrowed.add(v[1][0])
                elif v[0] == "disc":
                    pl(b, v[1])
                    sw.add(v[1][0])
                elif v[0] == "cast":
                    op(b, v[2])
                elif v[0] == "bin":
                    op(b, v[2]), op(b, v[3])
                elif v[0] == "un":
                    op(b, v[2])
                elif v[0] == "agg":
                    for o in v[4]:
                        op(b, o)
                if s[0][1]:
                    pl(b, s[0])
                else:
                    deff[b].add(s[0][0])
            if t[0] == "sw":
                op(b, t[1])
                if t[1][0] in ("p", "m"):
                    sw.add(t[1][1][0])
            elif t[0] == "call":
                op(b, t[1])
                for a in t[2]:
                    op(b, a)
                    if a[0] in ("p", "m") and t[1][0] == "k" and t[1][1].get("fn") == "std::ops::Try::branch":
                        sw.add(a[1][0])
                if t[3][1]:
                    pl(b, t[3])
                else:
                    deff[b].add(t[3][0])
            elif t[0] == "assert":
                op(b, t[1])
            elif t[0] == "ret":
                u(b, 0)
        ch = True
        while ch:
            ch = False
            for l in list(sw):
                for m in alias.get(l, ()):
                    if m not in sw:
                        sw.add(m)
                        ch = True
        self.sw = sw
        self.borrowed = borrowed
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set()
                for s in succ[b]:
                    o |= live[s]
                i = use[b] | (o - deff[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self.live = live
        # Accounts structs: locals named like the struct's fields
        self.acct_names = {}
        if f.get("trait_item") == "anchor_lang::Accounts::try_accounts":
            st = (f.get("self_ty") or "").split("<")[0]
            a = prog.adts.get(st)
            names = set(x[0] for x in a["variants"][0][2]) if a else set()
            for nme, p in f["dbg"]:
                if isinstance(p, str):
                    l = int(p[1:]) if p[1:].isdigit() else None
                else:
                    l = p[0] if not p[1] else None
                if l is not None and nme in names:
                    self.acct_names[l] = nme


def loop_body(prep, h):
    """The blocks of the natural loop with header h."""
    if h not in prep.bodies:
        pred = {}
        for b, ss in enumerate(prep.succ):
            for x in ss:
                pred.setdefault(x, set()).add(b)
        out, todo = {h}, list(prep.latches.get(h, ()))
        while todo:
            b = todo.pop()
            if b not in out:
                out.add(b)
                todo.extend(pred.get(b, ()))
        prep.bodies[h] = out
    return prep.bodies[h]


class Frame(object):
    __slots__ = ("fid", "prep", "parent", "bb", "depth", "top")
    ids = {}

    def __init__(self, prep, parent, bb):
        k = (parent.fid if parent else 0, bb, prep.path)
        i = Frame.ids.get(k)
        if i is None:
            i = Frame.ids[k] = len(Frame.ids) + 1
        self.fid = i
        self.prep = prep
        self.parent = parent
        self.bb = bb
        self.depth = parent.depth + 1 if parent else 0

    def chain(self):
        r, f = [], self
        while f:
            r.append(f.prep.path)
            f = f.parent
        return r[::-1]

    def on_stack(self, path):
        f = self
        while f:
            if f.prep.path == path:
                return True
            f = f.parent
        return False


class State(object):
    __slots__ = ("mem", "ver", "facts", "marks", "trace")

    def __init__(self):
        self.mem = {}
        self.ver = {}
        self.facts = {}
        self.marks = frozenset()
        self.trace = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.ver = dict(self.ver)
        s.facts = dict(self.facts)
        s.marks = self.marks
        s.trace = self.trace
        return s


def is_prefix(a, b):
    return len(a) <= len(b) and b[: len(a)] == a


def has_idx(path):
    return any(isinstance(x, Term) for x in path)


def self_indexed(r, path):
    return any(isinstance(e, Term) and e.op == "idx" and any(x.op == "phi" and x.args[1] is r for x in subterms(e)) for e in path)


def may_alias(p, q):
    """Paths that differ only in index terms that could be equal."""
    d = False
    for x, y in zip(p, q):
        if x is y or x == y:
            continue
        if not (isinstance(x, Term) and isinstance(y, Term)):
            return False
        if x.op == "idx" and y.op == "idx" and x.args[0].op == "int" and y.args[0].op == "int":
            return False
        d = True
    return d


def mk_alt(vals):
    out = []
    for v in vals:
        for x in (v.args if v.op == "alt" else (v,)):
            if x not in out:
                out.append(x)
    if len(out) == 1:
        return out[0]
    if len(out) > 6:
        return None
    return T("alt", *sorted(out, key=lambda t: t.n))


def variant_of(v):
    """Variant name of a known aggregate, else None."""
    if v.op == "agg" and v.args[1] is not None:
        return v.args[0].split("::")[-1]
    return None


def agg(kind, names, ops):
    return T("agg", kind, tuple(names), tuple(ops))


def mk_ok(x):
    return agg("std::result::Result::Ok", ("0",), (x,))


ERR = agg("std::result::Result::Err", ("0",), (T("error"),))


def mk_err(e=None):
    return ERR if e is None else agg("std::result::Result::Err", ("0",), (e,))


def mk_some(x):
    return agg("std::option::Option::Some", ("0",), (x,))


NONE = agg("std::option::Option::None", (), ())
DISC = {"Ok": 0, "Err": 1, "None": 0, "Some": 1, "Continue": 0, "Break": 1}


def mk_eq(a, b):
    if a is b:
        return TRUE
    if a.op == "int" and b.op == "int":
        return FALSE if a.args[0] != b.args[0] else TRUE
    if a.op == "agg" and b.op == "agg" and a.args[0] != b.args[0]:
        return FALSE
    if a.op == "int" or (b.op != "int" and a.n > b.n):
        a, b = b, a
    # x == false / x == true on boolean terms
    if b.op == "int" and a.op in ("eq", "lt", "not"):
        return a if b.args[0] == 1 else mk_not(a)
    return T("eq", a, b)


def mk_lt(a, b):
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return TRUE if a.args[0] < b.args[0] else FALSE
    return T("lt", a, b)


def mk_not(a):
    if a.op == "int":
        return I(1 - a.args[0])
    if a.op == "not":
        return a.args[0]
    return T("not", a)


COMM = {"Add", "Mul", "BitAnd", "BitOr", "BitXor", "Min", "Max"}


def mk_bin(op, a, b):
    if op == "Eq":
        return mk_eq(a, b)
    if op == "Ne":
        return mk_not(mk_eq(a, b))
    if op == "Lt":
        return mk_lt(a, b)
    if op == "Gt":
        return mk_lt(b, a)
    if op == "Ge":
        return mk_not(mk_lt(a, b))
    if op == "Le":
        return mk_not(mk_lt(b, a))
    if a.op == "int" and b.op == "int":
        x, y = a.args[0], b.args[0]
        try:
            if op == "Add":
                return I(x + y)
            if op == "Sub":
                return I(x - y)
            if op == "Mul":
                return I(x * y)
            if op == "Shl":
                return I(x << y)
            if op == "Shr":
                return I(x >> y)
            if op == "BitAnd":
                return I(x & y)
            if op == "BitOr":
                return I(x | y)
            if op == "BitXor":
                return I(x ^ y)
        except Exception:
            pass
    if op in COMM and a.n > b.n:
        a, b = b, a
    return T("bin", op, a, b)


CPI = ("invoke", "invoke_signed", "invoke_unchecked", "invoke_signed_unchecked")
RAWREAD = ("try_borrow_data", "try_borrow_mut_data", "data", "borrow")
CPIVER = T("cpi")


class Rule(object):
    """Base class of rules; the hooks return a new frozenset of marks or None for no change."""

    opaque = frozenset()      # local functions never analysed in context
    max_depth = 14
    lazy = False              # follow map/filter/filter_map chains element by element
    small = 14                # functions of at most this many blocks (and no loop) are always inlined

    def frames(self, res):    # opaque functions known not to change what their arguments reach (besides flags the rule ignores)
        return False

    def wants(self, prog):    # predicate for Program.reaching: what makes a helper worth inlining
        return lambda kind, name: False

    def on_call(self, an, st, fr, name, res, args, site):
        return None

    def on_ret(self, an, st, fr, name, res, args, ret, site):
        return None

    def on_loop(self, an, st, fr, hdr, first):
        """At every arrival at a loop header; returns new marks or None."""
        return None

    def on_branch(self, an, st, fr, atom, val):
        return None

    def on_local(self, an, st, fr, place, val):     # a store to a local of some frame
        return None

    def on_write(self, an, st, fr, place, val):
        return None

    def on_return(self, an, st, fr, ret):
        return None


class Budget(Exception):
    pass


class Analyzer(object):
    def __init__(self, prog, rule, limit=400000):
        self.prog = prog
        self.rule = rule
        self.reach = prog.reaching(rule.wants(prog))
        self.steps = 0
        self.limit = limit
        self.phis = {}          # values merged at loop heads and joins, by the term that stands for the merge
        self.inlined = set()
        self.opaqued = set()
        self.pre = {}           # loop header -> places known to change in the loop
        self.acct_origin = {}
        self.acct_ty = {}
        self.keep_err = False
        import models
        self.models = models.MODELS
        self.models_mod = models

    # ---------- memory
    def default_load(self, st, root, path):
        p = root.args[0] if root.op == "obj" else None
        if p is not None:
            if p.op == "keyp" and not path:
                return T("key", p.args[0])
            if p.op == "ownerp" and not path:
                return T("owner", p.args[0])
            if p.op == "val":
                return self.project(p.args[0], path)
            if p.op == "acct":
                return self.project(p, path)
        elif root.op == "cell":
            return self.project(T("uninit", root), path) if path else T("uninit", root)
        return T("ld", root, path, st.ver.get(root))

    def project(self, v, path):
        i = 0
        while i < len(path):
            e = path[i]
            v = self.proj1(v, e)
            i += 1
        return v

    def proj1(self, v, e):
        op = v.op
        if op == "agg":
            names = v.args[1]
            key = e
            if isinstance(e, str):
                if "." in e and e.split(".", 1)[0][:1].isupper():
                    key = e.split(".", 1)[1]
                    if variant_of(v) != e.split(".", 1)[0]:
                        return T("uninit", v)
                if key in names:
                    return v.args[2][names.index(key)]
                if key.isdigit() and int(key) < len(v.args[2]):
                    return v.args[2][int(key)]
            elif isinstance(e, Term) and e.op == "idx" and e.args[0].op == "int" and v.args[0] == "arr":
                k = e.args[0].args[0]
                if 0 <= k < len(v.args[2]):
                    return v.args[2][k]
            return T("fld", v, e)
        if op == "upd":
            base, subs = v.args[0], v.args[1]
            exact = None
            rest = []
            for sp, sv in subs:
                if sp[0] == e:
                    if len(sp) == 1:
                        exact = sv
                    else:
                        rest.append((sp[1:], sv))
            r = exact if exact is not None else self.proj1(base, e)
            if rest:
                r = T("upd", r, tuple(rest))
            return r
        if op == "alt":
            xs = [self.proj1(x, e) for x in v.args if x.op != "uninit"]
            xs = [x for x in xs if x.op != "uninit"]
            if xs:
                r = mk_alt(xs)
                if r is not None:
                    return r
            return T("fld", v, e)
        if op in ("acct", "newacct") and e == "0":
            return T("ref", T("obj", v), (), 1)
        if op == "ref" and e in ("0", "pointer"):
            return v
        if op == "ai" and e == "key":
            return T("ref", T("obj", T("keyp", v.args[0])), (), 0)
        if op == "ai" and e == "owner":
            return T("ref", T("obj", T("ownerp", v.args[0])), (), 0)
        if op == "ld":
            return T("ld", v.args[0], v.args[1] + (e,), v.args[2])
        return T("fld", v, e)

    def read(self, st, place):
        root, path = place
        m = st.mem.get(root)
        if not m:
            return self.default_load(st, root, path)
        v = m.get(path)
        if v is None:
            best = None
            for p in m:
                if len(p) < len(path) and path[: len(p)] == p and (best is None or len(p) > len(best)):
                    best = p
            if best is not None:
                v = self.project(m[best], path[len(best):])
            else:
                v = self.default_load(st, root, path)
            if has_idx(path):
                al = [m[p] for p in m if may_alias(p, path)]
                if al:
                    v = T("aliased", v, tuple(sorted(set(al), key=lambda t: t.n)))
        subs = [(p[len(path):], x) for p, x in m.items() if len(p) > len(path) and p[: len(path)] == path]
        if subs:
            if v.op == "uninit" and v.args[0] is root:
                v = T("uninit", root)
            v = T("upd", v, tuple(sorted(subs, key=lambda s: show(s[0]))))
        return v

    def write(self, st, place, v):
        root, path = place
        m = dict(st.mem.get(root) or {})
        idx = has_idx(path)
        for p in list(m):
            if len(p) >= len(path) and p[: len(path)] == path:
                del m[p]
            elif idx and may_alias(p, path):
                # indexed write: an entry at a possibly equal index may have changed
                m[p] = T("aliased", m[p], (v,))
        m[path] = v
        st.mem[root] = m

    def place(self, st, fr, pl):
        l, proj = pl
        root, path = T("cell", fr.fid, l), ()
        pend = None
        for e in proj:
            if e == "*":
                v = self.read(st, (root, path))
                root, path = self.deref_val(v)
            elif e == "?":
                path += ("?",)
            else:
                k = e[0]
                if k == "f":
                    nm = e[2] if e[2] else str(e[1])
                    if pend is not None:
                        nm = pend + "." + nm
                        pend = None
                    path += (nm,)
                elif k == "v":
                    pend = e[2]
                elif k == "i":
                    iv = self.read(st, (T("cell", fr.fid, e[1]), ()))
                    path += (T("idx", iv),)
                elif k == "c":
                    path += (T("idx", I(e[1])) if not e[2] else T("idxend", I(e[1])),)
                else:
                    path += (T("slice", *[str(x) for x in e[1:]]),)
        return (root, path)

    def deref_val(self, v):
        if v.op == "ref":
            return v.args[0], v.args[1]
        if v.op == "ld" and v.args[1] and v.args[1][-1] in ("key", "owner"):
            base = T("ld", v.args[0], v.args[1][:-1], v.args[2]) if len(v.args[1]) > 1 else T("ld", v.args[0], (), v.args[2])
            return T("obj", T("keyp" if v.args[1][-1] == "key" else "ownerp", base)), ()
        if v.op == "fld" and v.args[1] in ("key", "owner"):
            return T("obj", T("keyp" if v.args[1] == "key" else "ownerp", v.args[0])), ()
        return T("obj", v), ()

    def deref(self, st, v):
        """Value behind a reference value."""
        return self.read(st, self.deref_val(v))

    def full_deref(self, st, v):
        n = 0
        while v.op == "ref" and n < 6:
            v = self.deref(st, v)
            n += 1
        return v

    def reach_roots(self, st, v, out, mut=False, seen=None):
        """Memory roots reachable through v; with mut only those reachable mutably."""
        if seen is None:
            seen = set()
        if not isinstance(v, Term):
            if isinstance(v, tuple):
                for x in v:
                    self.reach_roots(st, x, out, mut, seen)
            return
        if v in seen:
            return
        seen.add(v)
        if v.op == "ref":
            if mut and not v.args[2]:
                return
            out.append((v.args[0], v.args[1]))
            m = st.mem.get(v.args[0])
            if m:
                for p, x in list(m.items()):
                    if is_prefix(p, v.args[1]) or is_prefix(v.args[1], p):
                        self.reach_roots(st, x, out, mut, seen)
        elif v.op == "guard":
            if mut and not v.args[1]:
                return
            out.append((T("obj", T("data", v.args[0])), ()))
            if v.args[2] == "full":
                out.append((T("obj", T("dyn", v.args[0])), ()))
        elif v.op in ("agg", "upd", "alt"):
            for x in v.args[1:] if v.op != "alt" else v.args:
                self.reach_roots(st, x, out, mut, seen)

    def havoc(self, st, place, site):
        root, path = place
        if root.op == "obj" and not path:
            st.mem.pop(root, None)
            st.ver[root] = site
            return
        v = self.read(st, place)
        self.write(st, place, self.havoc_val(v, site, path))

    def havoc_val(self, v, site, path):
        if v.op in ("ref", "guard", "acct"):
            return v
        if v.op == "agg" and v.args[0] not in ("arr",) and any(x.op in ("ref", "guard", "acct", "agg") for x in v.args[2]) and variant_of(v) not in ("Some", "None", "Ok", "Err"):
            return agg(v.args[0], v.args[1], [self.havoc_val(x, site, path + (i,)) for i, x in enumerate(v.args[2])])
        return T("hv", site, path)

    # ---------- constants / operands
    def const(self, st, fr, k):
        if "fn" in k:
            return T("fn", k.get("res") or k["fn"], k["fn"])
        if "clo" in k and k["clo"]:
            return agg("clo:" + str(k["clo"]), (), ())
        if "int" in k:
            v = int(k["int"])
            if v and abs(v) < 1 << 34 and k.get("ty") == "fixed::I80F48":
                return T("fx", v)      # a tiny fixed-point value, not the integer with the same bits
            return I(v)
        if "str" in k:
            return T("str", k["str"])
        if k.get("promoted") is not None and k.get("def"):
            p = "%s::{promoted#%d}" % (k["def"], k["promoted"])
            if p in self.prog.fns:
                v = self.promoted(p)
                if v is not None:
                    return v
        if "zst" in k and k.get("ty") == "()":
            return UNIT
        if "def" in k:
            return T("const", k["def"], self.kval(k))
        if "param" in k:
            return T("const", k["param"], None)
        return T("lit", k.get("ty", ""), self.kval(k))

    def kval(self, k):
        for n in ("int", "str", "bytes", "refbytes", "static", "zst"):
            if n in k:
                return "%s:%s" % (n, k[n])
        return None

    _prom = {}

    def promoted(self, p):
        """Promoted constants are tiny straight-line bodies: fold them to a value."""
        if p in self._prom:
            return self._prom[p]
        self._prom[p] = None
        f = self.prog.fns[p]
        if len(f["bbs"]) > 6:
            return None
        st = State()
        fr = Frame(self.prog.prep(p), None, "prom")
        st.mem = {}
        r = None
        b = 0
        try:
            while True:
                sts, t, _ = f["bbs"][b]
                for s in sts:
                    self.stmt(st, fr, s, quiet=True)
                if t[0] == "ret":
                    v = self.read(st, (T("cell", fr.fid, 0), ()))
                    # a promoted returns a reference to its own local: give it by value
                    r = self.bake(st, v)
                    break
                if t[0] == "goto":
                    b = t[1]
                elif t[0] == "assert":
                    b = t[4]
                elif t[0] == "call" and t[4] >= 0:
                    self.write(st, self.place(st, fr, t[3]), T("call", t[1][1].get("fn", "?"), tuple(self.bake(st, self.operand(st, fr, a)) for a in t[2]), None))
                    b = t[4]
                else:
                    break
        except Exception:
            r = None
        self._prom[p] = r
        return r

    def bake(self, st, v):
        if v.op == "ref" and v.args[0].op == "cell":
            return T("ref", T("obj", T("val", self.bake(st, self.read(st, (v.args[0], v.args[1]))))), (), 0)
        if v.op == "agg":
            return agg(v.args[0], v.args[1], [self.bake(st, x) for x in v.args[2]])
        return v

    def operand(self, st, fr, o):
        if o[0] in ("p", "m"):
            return self.read(st, self.place(st, fr, o[1]))
        if o[0] == "k":
            return self.const(st, fr, o[1])
        return T("rc")

    def disc(self, v, variants):
        vn = variant_of(v)
        if vn is not None:
            for d, n in variants:
                if n == vn:
                    return I(int(d))
            if vn in DISC:
                return I(DISC[vn])
        if v.op == "int":
            return v
        if v.op == "const" and "::" in str(v.args[0]):
            vn = v.args[0].split("::")[-1]
            for d, n in variants:
                if n == vn:
                    return I(int(d))
        return T("disc", v)

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            root, path = self.place(st, fr, r[1])
            return T("ref", root, path, 1 if r[2] else 0)
        if k == "disc":
            v = self.read(st, self.place(st, fr, r[1]))
            if v.op == "alt":
                ds = [self.disc(x, r[2]) for x in v.args]
                return T("disc", v, tuple(ds))
            return self.disc(v, r[2])
        if k == "bin":
            op = r[1]
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            if op.endswith("WithOverflow"):
                return agg("tup", (), (mk_bin(op[:-12], a, b), FALSE))
            if op.endswith("Unchecked"):
                op = op[:-9]
            return mk_bin(op, a, b)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if a.op == "int" and a.args[0] not in (0, 1):
                    return T("un", "Not", a)
                return mk_not(a)
            if r[1] == "Neg" and a.op == "int":
                return I(-a.args[0])
            return T("un", r[1], a)
        if k == "cast":
            a = self.operand(st, fr, r[2])
            if r[1].startswith("PointerCoercion") or r[1] in ("PtrToPtr", "Transmute", "Subtype"):
                return a
            if a.op == "ref":
                return a
            if a.op == "int" and r[1] == "IntToInt" and r[3] in INT_TYS:
                return a if a.args[0] >= 0 else T("cast", r[3], a)
            if r[4] == r[3]:
                return a
            if a.op == "disc":
                return a
            return T("cast", r[3], a)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[4]]
            if r[1] == "adt":
                return agg(r[2], r[3], ops)
            if r[1] == "clo":
                return agg("clo:" + r[2], r[3] if len(r[3]) == len(ops) else (), ops)
            if r[1] == "arr":
                return agg("arr", (), ops)
            if not ops:
                return UNIT
            return agg(r[1], (), ops)
        if k == "rep":
            return T("rep", self.operand(st, fr, r[1]), r[2])
        return T("opaque", fr.fid, str(r)[:60])

    def stmt(self, st, fr, s, quiet=False):
        if s[1][0] == "setdisc":
            return
        v = self.rvalue(st, fr, s[1])
        self.assign(st, fr, s[0], v, quiet)

    def assign(self, st, fr, pl, v, quiet=False):
        if not pl[1]:
            nm = fr.prep.acct_names.get(pl[0])
            if nm is not None and v.op != "uninit" and not (v.op == "agg" and self.is_accounts_struct(v)):
                if v.op != "acct":
                    self.acct_origin.setdefault(nm, v)
                    self.acct_ty[nm] = fr.prep.f["locals"][pl[0]]
                v = T("acct", nm)
            place = (T("cell", fr.fid, pl[0]), ())
            if not quiet:
                nm = self.rule.on_local(self, st, fr, place, v)
                if nm is not None:
                    st.marks = nm
            self.write(st, place, v)
            return
        place = self.place(st, fr, pl)
        if not quiet:
            nm = (self.rule.on_write if place[0].op == "obj" else self.rule.on_local)(self, st, fr, place, v)
            if nm is not None:
                st.marks = nm
        self.write(st, place, v)

    def is_accounts_struct(self, v):
        n = str(v.args[0]).split("<")[0]
        s = self.acct_structs
        if s is None:
            s = self.acct_structs = set((f.get("self_ty") or "").split("<")[0] for f in self.prog.fns.values()
                                        if f.get("trait_item") == "anchor_lang::Accounts::try_accounts")
        return n in s or n.rsplit("::", 1)[0] in s

    acct_structs = None

    # ---------- facts
    def eval_bool(self, st, t):
        if t.op == "int":
            return bool(t.args[0])
        if t.op == "not":
            r = self.eval_bool(st, t.args[0])
            return None if r is None else not r
        f = st.facts.get(t)
        if f is not None and f[0] == "is":
            return bool(f[1])
        if t.op == "eq" and t.args[1].op == "int":
            g = st.facts.get(t.args[0])
            if g is not None:
                if g[0] == "is":
                    return g[1] == t.args[1].args[0]
                if t.args[1].args[0] in g[1]:
                    return False
        if t.op == "bin" and t.args[0] in ("BitAnd", "BitOr"):
            a, b = self.eval_bool(st, t.args[1]), self.eval_bool(st, t.args[2])
            if t.args[0] == "BitAnd":
                if a is False or b is False:
                    return False
                if a and b:
                    return True
            else:
                if a or b:
                    return True
                if a is False and b is False:
                    return False
        return None

    def assume(self, st, fr, t, val):
        """Assume boolean term t == val. Returns False when contradictory."""
        while t.op == "not":
            t, val = t.args[0], not val
        if t.op == "int":
            return bool(t.args[0]) == val
        r = self.eval_bool(st, t)
        if r is not None and r != val:
            return False
        if t.op == "bin" and t.args[0] == "BitAnd" and val:
            return self.assume(st, fr, t.args[1], True) and self.assume(st, fr, t.args[2], True)
        if t.op == "bin" and t.args[0] == "BitOr" and not val:
            return self.assume(st, fr, t.args[1], False) and self.assume(st, fr, t.args[2], False)
        if t.op == "eq" and t.args[1].op == "int":
            self.set_int(st, t.args[0], t.args[1].args[0], val)
        st.facts[t] = ("is", 1 if val else 0)
        m = self.rule.on_branch(self, st, fr, t, val)
        if m is not None:
            st.marks = m
        return True

    def set_int(self, st, t, c, val):
        if val:
            st.facts[t] = ("is", c)
        else:
            g = st.facts.get(t)
            if g is None:
                st.facts[t] = ("not", frozenset([c]))
            elif g[0] == "not":
                st.facts[t] = ("not", g[1] | {c})

    def subst(self, st, old, new):
        """Replace value old by new wherever it is stored as a whole."""
        for root, m in list(st.mem.items()):
            ch = None
            for p, v in m.items():
                if v is old:
                    ch = ch or dict(m)
                    ch[p] = new
            if ch is not None:
                st.mem[root] = ch

    # ---------- execution
    def run(self, path, args, st=None, parent=None, bb="root"):
        """Analyse function path on argument values; returns [(state, return value)]."""
        st = st or State()
        prep = self.prog.prep(path)
        fr = Frame(prep, parent, bb)
        for i, a in enumerate(args):
            st.mem[T("cell", fr.fid, i + 1)] = {(): a}
        return self.exec_fn(fr, st)

    def shape_key(self, fr, st, b, coarse=False, late=False):
        if coarse:
            m = st.mem.get(T("cell", fr.fid, 0))
            v = m.get(()) if m else None
            return (st.marks, variant_of(v) if v is not None else None)
        prep = fr.prep
        k = []
        for l in prep.sw | {0}:
            if l not in prep.live[b] and l not in prep.borrowed and l != 0:
                continue
            m = st.mem.get(T("cell", fr.fid, l))
            if not m:
                continue
            v = m.get(())
            if v is None:
                continue
            if v.op == "int":
                if v.args[0] in (0, 1) or not late:
                    k.append((l, v.args[0]))
            elif v.op == "agg":
                vn = variant_of(v)
                if vn:
                    sub = None
                    if vn in ("Ok", "Some", "Continue") and v.args[2] and v.args[2][0].op in ("int", "agg"):
                        x = v.args[2][0]
                        sub = x.args[0] if x.op == "int" else variant_of(x)
                    k.append((l, vn, sub))
        k.sort(key=str)
        return (st.marks, tuple(k))

    def gc(self, fr, st, b):
        live, borrowed = fr.prep.live[b], fr.prep.borrowed
        fid = fr.fid
        dead = [r for r in st.mem if r.op == "cell" and r.args[0] == fid and r.args[1] not in live and r.args[1] not in borrowed and r.args[1] != 0]
        for r in dead:
            del st.mem[r]

    def join(self, a, b, hdr):
        """Join state b into a; returns (state, changed?). hdr: term identifying a loop header or join."""
        changed = False
        if a.facts != b.facts:
            f = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
            if len(f) != len(a.facts):
                changed = True
            a.facts = f
        for r in set(a.ver) | set(b.ver):
            va, vb = a.ver.get(r), b.ver.get(r)
            if va is not vb:
                n = T("vphi", hdr, r)
                if va is not n:
                    a.ver[r] = n
                    changed = True
                    # every known content at that root predates the unknown version
        for r in list(a.mem):
            ma, mb = a.mem[r], b.mem.get(r)
            if ma is mb:
                continue
            if mb is None:
                if r.op == "cell":
                    del a.mem[r]
                    changed = True
                    continue
                mb = {}
            if ma == mb:
                continue
            nm = {}
            keys = set(ma) | set(mb)
            if hdr.op == "loop" and r.op == "cell" and any(has_idx(p) and self_indexed(r, p) for p in keys):
                # an element chosen by the collection's own contents: forget the contents
                nm = {(): self.phi(hdr, r, (), self.read(a, (r, ())), self.read(b, (r, ())))}
                if nm != ma:
                    changed = True
                a.mem[r] = nm
                continue
            for p in keys:
                va = ma.get(p)
                if va is None:
                    va = self.read(a, (r, p))
                vb = mb.get(p)
                if vb is None:
                    vb = self.read(b, (r, p))
                if va is vb:
                    nm[p] = va
                    continue
                if va.op == "uninit" or vb.op == "uninit":
                    nm[p] = vb if va.op == "uninit" else va
                    if r.op == "cell" and p == ():
                        nm.pop(p)
                        continue
                v = None
                if hdr.op == "join":
                    v = mk_alt((va, vb))
                if v is None:
                    v = self.phi(hdr, r, p, va, vb)
                nm[p] = v
            if nm != ma:
                changed = True
            a.mem[r] = nm
        for r, mb in b.mem.items():
            if r not in a.mem and r.op == "obj":
                nm = {}
                for p, vb in mb.items():
                    va = self.read(a, (r, p))
                    if va is vb:
                        continue
                    v = mk_alt((va, vb)) if hdr.op == "join" else None
                    nm[p] = v if v is not None else self.phi(hdr, r, p, va, vb)
                if nm:
                    a.mem[r] = nm
                    changed = True
        if len(b.trace) > len(a.trace):
            pass
        return changed

    def phi(self, hdr, r, p, va, vb):
        v = T("phi", hdr, r, p)
        self.phis.setdefault(v, set()).update((va, vb))
        return v

    def widen_counters(self, fr, s, dn, hdr):
        """Counting variables: an integer that differs from the one seen at an earlier arrival becomes unknown."""
        for r, m in list(s.mem.items()):
            if r.op == "cell" and r.args[0] == fr.fid:
                v = m.get(())
                ph = T("phi", hdr, r, ())
                if v is not None and v is not ph and (v.op == "int" and v.args[0] not in (0, 1) or v.op == "bin" and any(x is ph for x in subterms(v))):
                    for o in dn.values():
                        ov = o.mem.get(r, {}).get(())
                        if ov is not None and ov is not v:
                            s.mem[r] = dict(m)
                            s.mem[r][()] = self.phi(hdr, r, (), v, ov)
                            break

    def exec_fn(self, fr, st):
        prep = fr.prep
        bbs = prep.f["bbs"]
        rpo = prep.rpo
        pend = {0: {self.shape_key(fr, st, 0): st}}
        done = {}      # loop header -> key -> state last processed
        visits = {}
        exits = {}
        import heapq
        heap = [(0, 0)]
        inheap = {0}
        while heap:
            _, b = heapq.heappop(heap)
            inheap.discard(b)
            states = pend.pop(b, None)
            if not states:
                continue
            if b in prep.headers:
                hdr = T("loop", fr.fid, b)
                first = b not in done
                dn = done.setdefault(b, {})
                todo = []
                nst = {}
                for k, s in states.items():
                    m = self.rule.on_loop(self, s, fr, hdr, first)
                    if m is not None:
                        s.marks = m
                    for r, p in self.pre.get(hdr, ()):
                        if s.mem.get(r) or r.op == "obj":
                            s.mem[r] = dict(s.mem.get(r) or {})
                            s.mem[r][p] = T("phi", hdr, r, p)
                    if visits.get(b, 0) > 4:
                        self.widen_counters(fr, s, dn, hdr)
                    k = self.shape_key(fr, s, b, late=not first)
                    if k in nst:
                        self.join(nst[k], s, hdr)
                    else:
                        nst[k] = s
                for k, s in nst.items():
                    old = dn.get(k)
                    if old is None:
                        dn[k] = s.copy()
                        todo.append(s)
                    else:
                        n = old.copy()
                        if self.join(n, s, hdr):
                            dn[k] = n
                            todo.append(n.copy())
                visits[b] = visits.get(b, 0) + 1
                if visits[b] > 40:
                    raise Budget("loop in %s does not stabilise" % prep.path)
            else:
                todo = list(states.values())
            for s in todo:
                self.steps += 1
                if self.steps > self.limit:
                    raise Budget("step limit in %s" % prep.path)
                for (nb, ns) in self.exec_block(fr, s, b):
                    if nb == "ret":
                        rv = self.read(ns, (T("cell", fr.fid, 0), ()))
                        m = self.rule.on_return(self, ns, fr, rv)
                        if m is not None:
                            ns.marks = m
                        key = (ns.marks, self.ret_shape(rv))
                        o = exits.get(key)
                        if o is None:
                            exits[key] = ns
                        else:
                            self.join(o, ns, T("join", fr.fid, "ret"))
                        continue
                    if prep.npred[nb] > 1:
                        self.gc(fr, ns, nb)
                        pn = pend.setdefault(nb, {})
                        key = self.shape_key(fr, ns, nb, late=visits.get(nb, 0) > 3)
                        if key not in pn and len(pn) >= MAXSTATES:
                            key = self.shape_key(fr, ns, nb, coarse=True)
                        o = pn.get(key)
                        if o is None:
                            pn[key] = ns
                        else:
                            self.join(o, ns, T("loop", fr.fid, nb) if nb in prep.headers else T("join", fr.fid, nb))
                    else:
                        pn = pend.setdefault(nb, {})
                        pn[(id(ns), len(pn))] = ns
                        if len(pn) > MAXSTATES:
                            # too many partitions: join those that agree on the marks
                            q = {}
                            for x in pn.values():
                                kk = self.shape_key(fr, x, nb, coarse=True)
                                if kk in q:
                                    self.join(q[kk], x, T("join", fr.fid, nb))
                                else:
                                    q[kk] = x
                            pend[nb] = q
                    if nb not in inheap:
                        inheap.add(nb)
                        heapq.heappush(heap, (rpo[nb], nb))
        out = []
        fid = fr.fid
        for key, s in exits.items():
            rv = self.read(s, (T("cell", fid, 0), ()))
            for r in [r for r in s.mem if r.op == "cell" and r.args[0] == fid]:
                del s.mem[r]
            out.append((s, rv))
        return out

    def ret_shape(self, v):
        if v.op == "int":
            return v.args[0]
        if v.op == "agg":
            vn = variant_of(v)
            if vn in ("Ok", "Some") and v.args[2]:
                x = v.args[2][0]
                if x.op == "int":
                    return (vn, x.args[0])
                if x.op == "agg":
                    return (vn, variant_of(x))
            return vn
        return None

    def exec_block(self, fr, st, b):
        stmts, t, line = fr.prep.f["bbs"][b]
        for s in stmts:
            self.stmt(st, fr, s)
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "assert":
            c = self.operand(st, fr, t[1])
            want = bool(t[2]) if not isinstance(t[2], list) else True
            if c.op == "int" and bool(c.args[0]) != want:
                return []
            return [(t[4], st)]
        if k == "sw":
            return self.switch(fr, st, t)
        if k == "call":
            outs = self.call(fr, st, t, b)
            res = []
            for s, rv in outs:
                if t[4] < 0:
                    continue
                self.assign(s, fr, t[3], rv)
                res.append((t[4], s))
            return res
        return []

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t[1])
        isbool = t[4] == "bool"
        targets, other = t[2], t[3]
        if v.op == "int":
            for c, b in targets:
                if int(c) == v.args[0]:
                    return [(b, st)]
            return [(other, st)]
        outs = []
        if isbool:
            fb = None
            for c, b in targets:
                if int(c) == 0:
                    fb = b
            if fb is None:
                fb, tb = other, targets[0][1]
            else:
                tb = other
            if v.op == "alt":
                for x in v.args:
                    s = st.copy()
                    self.subst(s, v, x)
                    r = self.eval_bool(s, x)
                    for val, bb in ((True, tb), (False, fb)):
                        if r is None or r == val:
                            s2 = s.copy()
                            if self.assume(s2, fr, x, val):
                                outs.append((bb, s2))
                return outs
            r = self.eval_bool(st, v)
            for val, bb in ((True, tb), (False, fb)):
                if r is not None and r != val:
                    continue
                for s in self.branch_states(st.copy(), fr, v, val):
                    outs.append((bb, s))
            return outs
        # discriminant / integer switch
        if v.op == "disc" and len(v.args) == 2:
            alt, ds = v.args
            for x, d in zip(alt.args, ds):
                s = st.copy()
                self.subst(s, alt, x)
                outs += self.sw_int(fr, s, d, targets, other)
            return outs
        if v.op == "alt":
            for x in v.args:
                s = st.copy()
                self.subst(s, v, x)
                outs += self.sw_int(fr, s, x, targets, other)
            return outs
        return self.sw_int(fr, st, v, targets, other)

    def branch_states(self, st, fr, v, val):
        """States with boolean v == val; disjunctions are split so that marks see each disjunct."""
        while v.op == "not":
            v, val = v.args[0], not val
        if v.op == "bin" and ((v.args[0] == "BitOr" and val) or (v.args[0] == "BitAnd" and not val)):
            a, b = v.args[1], v.args[2]
            if a.op in ("eq", "lt", "not", "bin", "alt", "call") and b.op in ("eq", "lt", "not", "bin", "alt", "call") and self.is_bool(a) and self.is_bool(b):
                out = self.branch_states(st.copy(), fr, a, val)
                s2 = st.copy()
                for s in self.branch_states(s2, fr, a, not val):
                    out += self.branch_states(s, fr, b, val)
                return out
        return [st] if self.assume(st, fr, v, val) else []

    def is_bool(self, t):
        if t.op in ("eq", "lt", "not"):
            return True
        if t.op == "bin" and t.args[0] in ("BitOr", "BitAnd"):
            return self.is_bool(t.args[1]) and self.is_bool(t.args[2])
        return False

    def sw_int(self, fr, st, v, targets, other):
        if v.op == "int":
            for c, b in targets:
                if int(c) == v.args[0]:
                    return [(b, st)]
            return [(other, st)]
        g = st.facts.get(v)
        if g is not None and g[0] == "is":
            for c, b in targets:
                if int(c) == g[1]:
                    return [(b, st)]
            return [(other, st)]
        outs = []
        no = g[1] if g is not None else frozenset()
        for c, b in targets:
            if int(c) in no:
                continue
            s = st.copy()
            e = T("eq", v, I(int(c)))
            if self.assume(s, fr, e, True):
                outs.append((b, s))
        ob = fr.prep.f["bbs"][other]
        if not (ob[1][0] == "unr" and not ob[0]):
            s = st.copy()
            ok = True
            for c, b in targets:
                if int(c) in no:
                    continue
                if not self.assume(s, fr, T("eq", v, I(int(c))), False):
                    ok = False
                    break
            if ok:
                outs.append((other, s))
        return outs

    # ---------- calls
    def call(self, fr, st, t, b):
        fop, argops = t[1], t[2]
        args = [self.operand(st, fr, a) for a in argops]
        if fop[0] != "k" or "fn" not in fop[1]:
            f = self.operand(st, fr, fop)
            return self.call_value(fr, st, f, args, b)
        K = fop[1]
        name, res = K["fn"], K.get("res") or K["fn"]
        return self.call_named(fr, st, K, name, res, args, b)

    def call_named(self, fr, st, K, name, res, args, b):
        if name.startswith(("std::ops::Fn::", "std::ops::FnMut::", "std::ops::FnOnce::")) and len(args) == 2 and args[1].op == "agg" and args[1].args[0] == "tup":
            # the rust-call ABI passes the arguments as one tuple, the closure body takes them one by one
            args = [args[0]] + list(args[1].args[2])
            if res in self.prog.fns and args[0].op == "agg" and self.prog.fns[res]["locals"][1].startswith("&"):
                cell = T("cell", "clo%d" % fr.fid, b)
                st.mem[cell] = {(): args[0]}
                args[0] = T("ref", cell, (), 1)
            if res not in self.prog.fns:
                # a generic callee handed a closure: call that closure where it lives
                f, at, n = args[0], None, 0
                while f.op == "ref" and n < 4:
                    at, f, n = f, self.deref(st, f), n + 1
                if f.op == "agg" and str(f.args[0]).startswith("clo:") and f.args[0][4:] in self.prog.fns and not fr.on_stack(f.args[0][4:]) and fr.depth < self.rule.max_depth + 4:
                    p = f.args[0][4:]
                    env = f
                    if self.prog.fns[p]["locals"][1].startswith("&"):
                        env = at
                        if env is None:
                            cell = T("cell", "clo%d" % fr.fid, b)
                            st.mem[cell] = {(): f}
                            env = T("ref", cell, (), 1)
                    return self.run(p, [env] + args[1:], st, fr, ("clo", b))
        site = (fr, b)
        rule = self.rule
        m = rule.on_call(self, st, fr, name, res, args, site)
        if m is not None:
            st.marks = m
        outs = None
        loc = res in self.prog.fns
        mod = self.models.get(name) or self.models.get(res)
        if mod is not None and not (loc and res in self.reach and not getattr(mod, "force", False)):
            outs = mod(self, fr, st, K, args, b)
        if outs is None and loc and self.should_inline(fr, res):
            self.inlined.add(res)
            outs = self.run(res, args, st, fr, b)
        if outs is None:
            outs = self.opaque_call(fr, st, K, name, res, args, b)
        r = []
        for s, rv in outs:
            m = rule.on_ret(self, s, fr, name, res, args, rv, site)
            if m is not None:
                s.marks = m
            r.append((s, rv))
        return r

    def should_inline(self, fr, res):
        rule = self.rule
        if res in rule.opaque:
            return False
        if fr.depth >= rule.max_depth or fr.on_stack(res):
            return False
        if res in self.reach:
            return True
        p = self.prog.prep(res)
        if not p.loopy and len(p.f["bbs"]) <= rule.small:
            return True
        return False

    def call_value(self, fr, st, f, args, b):
        """Call of a closure / function value with args as a list."""
        n = 0
        while f.op == "ref" and n < 4:
            f = self.deref(st, f)
            n += 1
        if f.op == "agg" and str(f.args[0]).startswith("clo:"):
            p = f.args[0][4:]
            if p in self.prog.fns and not fr.on_stack(p) and fr.depth < self.rule.max_depth + 4:
                fn = self.prog.fns[p]
                ty = fn["locals"][1]
                if ty.startswith("&"):
                    cell = T("cell", "clo%d" % fr.fid, b)
                    st.mem[cell] = {(): f}
                    env = T("ref", cell, (), 1)
                else:
                    env = f
                return self.run(p, [env] + args, st, fr, ("clo", b))
        if f.op == "fn":
            res, name = f.args[0], f.args[1]
            return self.call_named(fr, st, {"fn": name, "res": res, "args": []}, name, res, args, b)
        self.havoc_args(fr, st, args, T("site", fr.fid, str(b)))
        return [(st, T("call", "?", tuple(self.argval(st, a) for a in args), T("site", fr.fid, str(b))))]

    def argval(self, st, a):
        n = 0
        while a.op == "ref" and n < 4:
            a = self.deref(st, a)
            n += 1
        return a

    def havoc_args(self, fr, st, args, site):
        out = []
        for a in args:
            self.reach_roots(st, a, out, mut=True)
        for p in out:
            self.havoc(st, p, site)
        return bool(out)

    def opaque_call(self, fr, st, K, name, res, args, b):
        loc = res in self.prog.fns
        if loc:
            self.opaqued.add(res)
        site = T("site", fr.fid, b if isinstance(b, int) else str(b))
        vals = tuple(self.argval(st, a) for a in args)
        vers = []
        for a in args:
            o = []
            self.reach_roots(st, a, o)
            for r, p in o:
                v = st.ver.get(r)
                if v is not None:
                    vers.append(T("v", r, v))
        last = name.split("::")[-1]
        if last == "reload" and args and args[0].op == "ref":
            # the deserialized copy of the account is read again
            v = self.argval(st, args[0])
            if v.op == "acct":
                self.havoc(st, (T("obj", T("data", v)), ()), site)
        if last in CPI:
            # other programs may change the accounts they are given
            st.ver[CPIVER] = site
        mut = True if self.rule.frames(res) else self.havoc_args(fr, st, args, site)
        tag = None
        if last in RAWREAD and CPIVER in st.ver:
            vers.append(T("v", CPIVER, st.ver[CPIVER]))
        if mut:
            tag = site
        elif vers:
            tag = T("vers", *sorted(set(vers), key=lambda t: t.n))
        rv = T("call", res if loc else name, vals, tag)
        # closures handed to code we do not see may run zero or more times
        clos = [a for a in vals if a.op == "agg" and str(a.args[0]).startswith("clo:")]
        outs = [st]
        for c in clos:
            if c.args[0][4:] in self.prog.fns and c.args[0][4:] in self.reach:
                more = []
                for s in outs:
                    s2 = s.copy()
                    fn = self.prog.fns[c.args[0][4:]]
                    ca = [T("cloarg", site, i) for i in range(fn["argc"] - 1)]
                    for s3, _ in self.call_value(fr, s2, c, ca, ("cl", b)):
                        more.append(s3)
                outs += more
        return [(s, rv) for s in outs]
