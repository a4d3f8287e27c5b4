"""Interest accrual and socialized loss."""
from ctx import *
import alg, logic, loops, guards, summ
from logic import V, vmin, vmax
from terms import T, Term

META = dict(
    title="Interest and socialized losses balance out and reach every bank of a token",
    statement="For every utilization, rate setting and elapsed time an index update lets deposits earn exactly the borrow rate times utilization (borrows over deposits, clamped to 0..1), lets borrows owe the borrow rate plus the loan fee rate, and collects exactly the loan fee part as fees, so depositors and fees never get more than borrowers owe. At most one hour counts per update; totals are summed over, and the new indexes, average utilization, stable price and update time (and the hourly curve parameters and finished maintenance weight shifts) are written to, every bank of the token. Nothing changes when the oracle is invalid, and the transaction may contain only index updates and compute budget instructions. Deposit indexes fall only in token bankruptcy: by the uncovered loss divided by the total indexed deposits of all banks, on every bank of the token, and only once the insurance fund is used up and a loss remains; the bankrupt position is then zero. Borrow indexes change only in index updates.",
    q=(["inputs", "histories"], "Every bank state, rate parameter, number of banks, elapsed time, oracle state, transaction content and loss size."),
    files=["programs/mango-v4/src/instructions/token_update_index_and_rate.rs", "programs/mango-v4/src/instructions/token_liq_bankruptcy.rs", "programs/mango-v4/src/state/bank.rs", "programs/mango-v4/src/state/mint_info.rs"],
    mechanism=[("Bank::compute_index, compute_interest_rate, compute_new_avg_utilization", "state/bank.rs"), ("loops over all banks", "instructions/token_update_index_and_rate.rs"), ("socialized loss", "instructions/token_liq_bankruptcy.rs")],
    technique="path summaries over MIR compared as polynomial identities; loop dataflow over the bank collection")
LEVEL = "proof"
RULE = ("Every path of compute_index equals the curve segment its conditions select, as polynomials; in the two instructions every loop that writes an index runs over the verified bank list to its end and writes all index fields with the computed values; "
        "the transaction scan covers every instruction of the transaction; index fields are written nowhere else.")

B = "state::bank::Bank::"
S = lambda f: V("self." + f)
YEAR = 31536000


def curve(c):
    """compute_index and the average utilization; returns the position of each result in the returned tuple."""
    f = B + "compute_index"
    r, outs, old, new = logic.formula(c, f)
    di, bi, D, Bo, dt, fee = S("deposit_index"), S("borrow_index"), V("indexed_total_deposits"), V("indexed_total_borrows"), V("diff_ts"), S("loan_fee_rate")
    z, r0, r1, rm, u0, u1, sc = (S(x) for x in ("zero_util_rate", "rate0", "rate1", "max_rate", "util0", "util1", "interest_curve_scaling"))
    want = []
    for u, cu in ((V(0), (di * D).eq(0)), (vmin(vmax(bi * Bo / (di * D), 0), 1), (di * D).ne(0))):
        for v, cv in ((z + (r0 - z) / u0 * u, [u <= u0]), (r0 + (r1 - r0) / (u1 - u0) * (u - u0), [u > u0, u <= u1]), (r1 + (rm - r1) / (1 - u1) * (u - u1), [u > u0, u > u1])):
            for k, cs in ((V(1), sc.eq(0)), (sc, sc.ne(0))):
                R = v * k
                want.append((frozenset([cu, cs] + cv), {"deposit": di + di * R * u * dt / YEAR, "borrow": bi + bi * (R + fee) * dt / YEAR, "fees": bi * Bo * fee * dt / YEAR}))
    role = {}
    bad = None
    for lits, rv, st in outs:
        if not logic.is_ok(rv):
            continue
        w = [x for l, x in want if l <= lits]
        if len(w) != 1:
            bad = "decides its rates by %s" % logic.show_dnf(r, [lits])
            break
        parts = fields(rv)
        for name, v in w[0].items():
            at = {i for i, p in parts.items() if alg.key(r.x.poly(p)) == alg.key(v.p)}
            role[name] = role.get(name, at) & at
            if not role[name]:
                bad = "does not return the expected %s where %s: %s instead of %s" % (
                    {"deposit": "deposit index", "borrow": "borrow index", "fees": "fees"}[name], logic.show_dnf(r, [lits]), " / ".join(alg.text(r.x.poly(p))[:160] for p in parts.values())[:400], alg.text(v.p)[:160])
                break
        if bad:
            break
    if not bad and (len(outs) < 12 or any(len(x) != 1 for x in role.values())):
        bad = "has %d paths, results at %s" % (len(outs), role)
    c.cov["rate paths"] = len(outs)
    c.need(not bad, "compute_index", "Bank::compute_index " + str(bad), c.where(f))
    # average utilization: a time-weighted mean of utilizations
    f = B + "compute_new_avg_utilization"
    r, outs, old, new = logic.formula(c, f)
    now, li, lb, av = V("now_ts"), S("index_last_updated"), S("bank_rate_last_updated"), S("avg_utilization")
    bad = None
    for lits, rv, st in outs:
        u = V(0) if (di * D).eq(0) in lits else vmin(vmax(bi * Bo / (di * D), 0), 1)
        if now.eq(0) in lits:
            w = V(0)
        elif (now - lb <= 0) in lits:
            w = u
        elif (now - lb > 0) in lits and now.ne(0) in lits:
            w = (av * (li - lb) + u * (now - li)) / (now - lb)
        else:
            bad = "decides by %s" % logic.show_dnf(r, [lits])
            break
        if not w.same(r.x.poly(rv)):
            bad = "returns %s where %s" % (alg.text(r.x.poly(rv))[:300], logic.show_dnf(r, [lits]))
            break
    c.need(not bad, "avg_utilization", "Bank::compute_new_avg_utilization " + str(bad), c.where(f))
    return {k: next(iter(v)) for k, v in role.items() if len(v) == 1}


def fields(rv):
    """Components of a returned (wrapped) tuple or struct."""
    while rv.op == "agg" and len(rv.args[2]) == 1:
        rv = rv.args[2][0]
    return dict(enumerate(rv.args[2])) if rv.op == "agg" else {0: rv}


PERBANK = {"deposit_index", "borrow_index", "avg_utilization", "stable_price_model", "index_last_updated"}
HOURLY = {"bank_rate_last_updated", "interest_curve_scaling", "interest_target_utilization", "rate0", "rate1", "max_rate"}
SHIFT = {"maint_asset_weight": "maint_weight_shift_asset_target", "maint_liab_weight": "maint_weight_shift_liab_target"}


class URule(loops.EachRule):
    fields = PERBANK | HOURLY | set(SHIFT) | {"collected_fees_native", "maint_weight_shift_duration_inv"}

    def __init__(self, prog):
        loops.EachRule.__init__(self, prog)
        self.opaque |= {p for p in prog.fns if p.split("::")[-1] == "verify_banks_ais" or p.startswith("state::stable_price")}
        self.bankcoll = set()
        self.scans = {}        # instruction index terms
        self.scanbad = []
        self.prices = 0

    def on_call(self, an, st, fr, name, res, args, site):
        f = str(res).split("::")[-1]
        if f == "verify_banks_ais":
            self.bankcoll.add(loops.place(an, args[1]))
        if f == "load_instruction_at_checked" or str(name).endswith("load_instruction_at_checked"):
            self.scans.setdefault(loops_strip(args[0]), set()).add(args[1])

    def on_ret(self, an, st, fr, name, res, args, ret, site):
        m = loops.EachRule.on_ret(self, an, st, fr, name, res, args, ret, site)
        f = str(res if res in an.prog.fns else name).split("::")[-1]
        base = m if m is not None else st.marks
        if f == "verify_banks_ais" and ret.op != "never":
            return base | {("verified",)}
        if f == "load_instruction_at_checked":
            return frozenset(x for x in base if x[0] not in ("tx", "txend")) | {("tx", frozenset())}
        return m

    def on_branch(self, an, st, fr, t, val):
        for x in st.marks:
            if x[0] == "tx" and any(y.op == "call" and "load_instruction_at_checked" in str(y.args[0]) for y in subterms(t)):
                a = txfact(t, val)
                if a == "end":
                    return (st.marks - {x}) | {("txend",)}
                if a:
                    return (st.marks - {x}) | {("tx", x[1] | {a})}
        z = t
        while z.op == "not":
            z, val = z.args[0], not val
        if z.op == "eq" and z.args[0].op == "disc" and z.args[1].op == "int":
            y = z.args[0].args[0]
            if y.op == "call" and "oracle_price" in str(y.args[0]):
                good = (z.args[1].args[0] == 0) == val
                return frozenset(x for x in st.marks if x[0] != "price") | {("price", good)}

    def on_loop(self, an, st, fr, hdr, first):
        loops.EachRule.on_loop(self, an, st, fr, hdr, first)
        tx = [x for x in st.marks if x[0] == "tx"]
        if tx and not first:
            if not allowed(tx[0][1]):
                self.scanbad.append(tx[0][1])
            return frozenset(x for x in st.marks if x[0] != "tx")


def loops_strip(t):
    while t.op in ("cast", "num", "into"):
        t = t.args[-1]
    return t


def txfact(t, val):
    """What a branch says about the instruction just loaded."""
    while t.op == "not":
        t, val = t.args[0], not val
    if t.op == "eq":
        a, b = t.args
        if a.op == "disc":
            if b.op == "int" and a.args[0].op == "call" and (b.args[0] == 1) == val:
                return "end"                   # loading failed: no further instruction
            return None
        if not val:
            return None
        s = {x for y in (a, b) for x in subterms(y)}
        o = b if any(y.op == "call" and "load_instruction" in str(y.args[0]) for y in subterms(a)) else a
        for x in subterms(o):
            if x.op == "discr":
                return ("data", x.args[0].split("::")[-1])
            if x.op == "static" or x.op == "lit" and "static:ID" in show(x):
                return ("program", "self")
            if x.op == "const" and "compute_budget::ID" in str(x.args[0]):
                return ("program", "budget")
    return None


def allowed(s):
    return ("program", "budget") in s or ("program", "self") in s and (("data", "TokenUpdateIndexAndRate") in s or ("data", "TokenUpdateIndexAndRateResilient") in s)


def update(c, ix, role):
    r = URule(c.prog)
    an, oks = run_entry(c.prog, ix, r)
    S_ = loops.Sums(an)
    w = c.where("instructions::token_update_index_and_rate::token_update_index_and_rate")
    k = ix + ":"
    out = []

    def need(ok, key_, msg):
        out.append(("ok", k + key_) if ok else ("bad", k + key_, ix + ": " + msg, w))
    live = [s for s, rv in oks if any(m[0] == "w" for m in s.marks)]
    early = [s for s, rv in oks if not any(m[0] == "w" for m in s.marks)]
    need(bool(live), "runs", "no path updates the banks")
    need(all(("price", True) in s.marks for s in live), "oracle", "banks are updated on a path without a valid oracle price")
    need(all(("price", False) in s.marks or any(m[0] == "end" for m in s.marks) for s in early), "early", "a path with a valid oracle leaves the banks unchanged")
    bare = [s for s, rv in oks if ("price", False) in s.marks and any(m[0] == "w" for m in s.marks)]
    need(not bare, "invalid", "state changes although the oracle is invalid")
    need(all(("verified",) in s.marks for s in live), "verified", "banks are updated without checking that they are the token's banks")
    need(len(r.bankcoll) == 1, "banks", "the list of banks is not checked (%d lists)" % len(r.bankcoll))
    coll = next(iter(r.bankcoll)) if r.bankcoll else None

    def member(root):
        """element index term if root is data of an element of the bank list"""
        cl, ixt = loops.coll(root)
        return ixt if cl is coll else None
    # transaction scan
    need(all(("txend",) in s.marks for s in live), "txend", "banks are updated before the whole transaction was looked at")
    need(not r.scanbad, "whitelist", "an instruction is accepted in the transaction knowing only %s" % (sorted(map(str, r.scanbad[0])) if r.scanbad else ""))
    ts = set(r.scans)
    need(any(t.op == "int" and t.args[0] == 0 for t in ts) and all(counting(an, t) for t in ts), "txall", "the scan of the transaction does not visit every instruction from the first on")
    def one(f, root, i, v):
        if i is None:
            need(False, "elsewhere:" + f, "%s of an account outside the token's bank list is written" % f)
            return
        each = i.op == "each"
        if f in ("deposit_index", "borrow_index"):
            cl, pos_ = component(v)
            ok = cl is not None and pos_ == role.get(f.split("_")[0]) and each
            need(ok, "value:" + f, "%s is set to %s" % (f, r.D(v)[:160]))
            if ok:
                a = cl.args[1]
                d = loops.total(a[1], lambda y: iselem(y, coll, "indexed_deposits"))
                b = loops.total(a[2], lambda y: iselem(y, coll, "indexed_borrows"))
                sums[0] |= any(y.op == "sum" for y in subterms(a[1]))
                sums[1] |= any(y.op == "sum" for y in subterms(a[2]))
                need(d, "total:deposits", "the total deposits are %s" % r.D(a[1])[:160])
                need(b, "total:borrows", "the total borrows are %s" % r.D(a[2])[:160])
                xx = alg.Alg(r.D)
                dt = r.D(a[3])
                need(timestep(r, a[3]), "timestep", "interest accrues over %s" % dt[:200])
        elif f == "collected_fees_native":
            p = alg.Alg(r.D)
            cur = T("ld", root, (f,), None)
            cls = [y for y in subterms(v) if component(y)[0] is not None and component(y)[1] == role.get("fees")]
            ok = v.op == "bin" and v.args[0] == "Add" and any(component(y)[0] is not None and component(y)[1] == role.get("fees") for y in v.args[1:]) and any(y.op == "ld" and y.args[1] == (f,) and y.args[0] is root for y in v.args[1:])
            need(ok and not each, "fees", "the collected fees become %s%s" % (r.D(v)[:200], " on every bank" if each else ""))
        elif f == "index_last_updated" or f == "bank_rate_last_updated":
            need(each and is_now(v), "value:" + f, "%s is set to %s" % (f, r.D(v)[:100]))
        elif f == "avg_utilization":
            cs = [y for y in subterms(v) if y.op == "call" and str(y.args[0]).endswith("compute_new_avg_utilization")]
            ok = each and len(cs) == 1 and (v is cs[0] or component(v)[0] is cs[0])
            if ok:
                a = cs[0].args[1]
                ok = loops.total(a[1], lambda y: iselem(y, coll, "indexed_deposits")) and loops.total(a[2], lambda y: iselem(y, coll, "indexed_borrows")) and is_now(a[3])
            need(ok, "value:" + f, "avg_utilization is set to %s" % r.D(v)[:160])
        elif each and f in SHIFT:
            need(loaded(v, root, SHIFT[f]) and i.op == "each", "shift:" + f, "a finished weight shift sets %s to %s" % (f, r.D(v)[:100]))
        elif each and f in HOURLY | {"stable_price_model"}:
            need(onebank(v, coll, f), "value:" + f, "%s is set to %s, not to the value computed once for all banks" % (f, r.D(v)[:120]))
    # what each write stores
    n = 0
    sums = [False, False]
    for x in sorted(r.all, key=lambda x: (x[1], repr(x[2]))):
        _, f, root, v = x
        i = member(root)
        n += 1
        for y in alts(S_(v)):
            one(f, root, i, y)
    need(all(sums), "sum", "the totals are not accumulated over the banks")
    # every bank gets all of it
    for s, its in r.iters.items():
        for ws in its:
            fs = {x[1] for x in ws}
            if fs & PERBANK:
                need(PERBANK <= fs, "all:index", "one bank is left without its new %s" % ", ".join(sorted(PERBANK - fs)))
            if fs & HOURLY:
                need(HOURLY <= fs, "all:rates", "one bank is left without its new %s" % ", ".join(sorted(HOURLY - fs)))
    for st in live:
        open_ = {m[1] for m in st.marks if m[0] == "in"} - {m[1] for m in st.marks if m[0] == "end"}
        need(not open_, "all:end", "a loop over the banks can stop before the last bank")
    wr = {s for s, its in r.iters.items() for ws in its if {x[1] for x in ws} & PERBANK}
    need(len(wr) >= 1, "all:loop", "no loop over the banks writes the indexes")
    for st in live:
        need(any(("end", s) in st.marks for s in wr), "all:reached", "a path skips the loop that updates the banks")
    out.append(("cov", "index writes", n))
    out.append(("cov", "update paths", len(oks)))
    return out


def component(v):
    """(call, index) when v is a component of a function's tuple result"""
    fs = []
    while v.op == "fld":
        fs.append(str(v.args[1]))
        v = v.args[0]
    if v.op != "call":
        return None, None
    ds = [p for q in fs[::-1] for p in q.split(".") if p.isdigit()]
    if str(v.args[0]).endswith("compute_index"):
        if fs and fs[-1].startswith("Ok"):
            ds = ds[1:] if "." in fs[-1] or len(ds) > 1 else ds
        return v, int(ds[-1]) if ds else None
    return v, 0


def iselem(t, coll, field):
    if t.op != "ld" or t.args[1] != (field,) or t.args[2] is not None:
        return False
    cl, i = loops.coll(t.args[0])
    return cl is coll and i.op == "each"


def loaded(t, root, field):
    while t.op in ("num", "cast", "into"):
        t = t.args[-1]
    return t.op == "ld" and t.args[0] is root and t.args[1] == (field,)


def onebank(t, coll, f):
    """The field as it is on one fixed bank of the list, or a value not read from the bank being written."""
    t0 = t
    while t.op in ("upd", "alt", "aliased"):
        t = t.args[0]
    xs = [t] if t.op == "ld" else []
    if t0.op == "alt":
        return all(onebank(x, coll, f) for x in t0.args)
    if not xs:
        return not any(x.op == "each" for x in subterms(t0))
    cl, i = loops.coll(t.args[0])
    return t.args[1] == (f,) and cl is coll and i.op != "each"


def counting(an, t):
    """0, 1, .. : a counter that starts at 0 and goes up by one."""
    if t.op == "int":
        return t.args[0] in (0, 1, 2)
    if t.op == "bin" and t.args[0] == "Add":
        o = [x for x in t.args[1:] if x.op != "int"]
        k = [x for x in t.args[1:] if x.op == "int"]
        return len(o) == 1 and k[0].args[0] == 1 and counting(an, o[0]) or len(k) == 2
    if t.op == "phi":
        for v in an.phis.get(t, ()):
            if v is t or v.op == "int" and v.args[0] in (0, 1, 2):
                continue
            if v.op == "bin" and v.args[0] == "Add" and t in v.args[1:] and any(x.op == "int" and x.args[0] == 1 for x in v.args[1:]):
                continue
            if v.op == "bin" and v.args[0] == "Add" and all(x.op == "int" for x in v.args[1:]):
                continue
            return False
        return bool(an.phis.get(t))
    if t.op == "each":
        return True
    return False


def timestep(r, t):
    """min(now - index_last_updated, at most 3600)"""
    x = alg.Alg(r.D)
    p = x.poly(t)
    if len(p) != 1:
        return False
    (m, cf), = p.items()
    if cf != 1 or len(m) != 1 or m[0][1] != 1 or not isinstance(m[0][0], tuple) or m[0][0][0] != "min":
        return False
    cs = [dict(y) for y in m[0][0][1]]
    cap = [y[()] for y in cs if set(y) == {()}]
    rest = [y for y in cs if set(y) != {()}]
    if len(cap) != 1 or not 0 < cap[0] <= 3600 or len(rest) != 1:
        return False
    s = alg.text(rest[0])
    now = [y for y in subterms(t) if is_now(y) and y.op in ("fld", "call", "ld")]
    return s.count("index_last_updated") == 1 and "unix_timestamp" in s and len(rest[0]) == 2 and sorted(rest[0].values()) == [-1, 1] and any(v == -1 and "index_last_updated" in alg.text({mm: 1}) for mm, v in rest[0].items())


# ---------------------------------------------------------------- socialized loss

class LRule(loops.EachRule):
    fields = {"deposit_index"}

    def __init__(self, prog):
        loops.EachRule.__init__(self, prog)
        self.opaque |= {p for p in prog.fns if p.split("::")[-1] in ("verify_banks_ais", "num_banks")}
        self.bankcoll = set()

    def on_call(self, an, st, fr, name, res, args, site):
        if str(res).endswith("verify_banks_ais"):
            self.bankcoll.add(loops.place(an, args[1]))

    def context(self, an, st):
        ex = any(k.op == "eq" and v == ("is", True) and self.vault(k) for k, v in st.facts.items())
        return ex or ("exhausted",) in st.marks, frozenset(m[1] for m in st.marks if m[0] == "pos")

    def on_write(self, an, st, fr, place, val):
        m = loops.EachRule.on_write(self, an, st, fr, place, val)
        return m - {("zero",)} if m is not None else m

    def vault(self, k):
        return k.args[0].op != "disc" and any(self.D(x).endswith("insurance_vault.amount") for y in k.args for x in alts(y))

    def on_branch(self, an, st, fr, t, val):
        while t.op == "not":
            t, val = t.args[0], not val
        inside = {m[1] for m in st.marks if m[0] == "in"} - {m[1] for m in st.marks if m[0] == "end"}
        if not inside and t.op == "lt" and loops.zero(t.args[0]) and "spot_and_perp" in self.D(t.args[1]):
            m = {x for x in st.marks if x != ("pos", t.args[1])}
            return frozenset(m | {("pos", t.args[1])} if val else m)
        if t.op == "eq" and val:
            if any(loops.zero(y) for y in t.args) and any("indexed_position" in self.D(y) and "liqor" not in self.D(y) for y in t.args):
                return st.marks | {("zero",)}
            if self.vault(t):
                return st.marks | {("exhausted",)}


def alts(t):
    return t.args if t.op == "alt" else (t,)


def bankrupt(c, ix):
    r = LRule(c.prog)
    an, oks = run_entry(c.prog, ix, r)
    S_ = loops.Sums(an)
    w = c.where("instructions::token_liq_bankruptcy::token_liq_bankruptcy")
    out = []

    def need(ok, key_, msg):
        out.append(("ok", ix + ":" + key_) if ok else ("bad", ix + ":" + key_, ix + ": " + msg, w))
    live = [s for s, rv in oks if any(m[0] == "w" for m in s.marks)]
    need(len(live) > 0, "runs", "no path socializes a loss")
    need(len(r.bankcoll) == 1, "banks", "the list of banks is not checked (%d lists)" % len(r.bankcoll))
    coll = next(iter(r.bankcoll)) if r.bankcoll else None
    losses, tested = set(), set()
    for x in r.all:
        losses |= {z for y in alts(S_(x[3])) if y.op == "bin" and y.args[2].op == "bin" for z in alts(y.args[2].args[1])}
        tested |= {z for g in x[5] for z in alts(S_(g))}
    for x in sorted(r.all, key=repr):
        _, f, root, v, exhausted, gts = x
        cl, i = loops.coll(root)
        need(cl is coll and i.op == "each", "elsewhere", "the deposit index of an account outside the token's bank list is written")
        v = S_(v)
        for y in v.args if v.op == "alt" else (v,):
            ok = y.op == "bin" and y.args[0] == "Sub" and y.args[2].op == "bin" and y.args[2].args[0] == "Div" and r.D(y.args[1]).endswith(".deposit_index")
            need(ok, "index", "the deposit index becomes %s" % r.D(y)[:300])
            if ok:
                tot = y.args[2].args[2]
                need(loops.total(tot, lambda z: iselem(z, coll, "indexed_deposits")), "total", "the loss is spread over %s" % r.D(tot)[:200])
                q = y.args[2].args[1]
                need(all(outstanding(r, z) for z in alts(q)), "amount", "the socialized loss is %s" % r.D(q)[:400])
                need(set(alts(q)) <= tested and any(set(alts(S_(g))) & losses for g in gts), "loss", "a loss is socialized that is not known to be positive")
        need(exhausted, "insurance", "a loss is socialized although the insurance fund is not used up")
    for s, its in r.iters.items():
        if any(ws for ws in its):
            need(all(ws for ws in its), "all:index", "a bank can be left with its old deposit index")
    for st in live:
        open_ = {m[1] for m in st.marks if m[0] == "in"} - {m[1] for m in st.marks if m[0] == "end"}
        need(not open_, "all:end", "the loop over the banks can stop before the last bank, leaving it with the old deposit index")
        need(("zero",) in st.marks or any(k.op == "eq" and v == ("is", True) and any("indexed_position" in r.D(y) for y in k.args) and any(loops.zero(y) for y in k.args) for k, v in st.facts.items()), "zero", "a loss is socialized while the position keeps a balance")
    out.append(("cov", "bankruptcy paths", len(oks)))
    return out


def verify_banks(c):
    """The passed accounts are exactly the token's banks: every key, in order, none missing."""
    f = "state::mint_info::MintInfo::verify_banks_ais"
    c.fn(f)
    r, outs = summ.outcomes(c, f)
    p = summ.arg_names(c.prog.fns[f])[1]

    def full(a):
        return not a.startswith("!") and p in a and "self.banks" in a and not any(x in a for x in ("skip(", "take(", "starts_with"))
    for m, rv, st in outs:
        if not logic.is_ok(rv):
            continue
        eqs = [a for a in m if full(a)]
        whole = any(a.startswith("eq(") for a in eqs) or any("len" in a and "==" in a for a in eqs) or any("len" in a and "==" in a and p in a for a in m) and eqs
        c.need(whole, "verify_banks_ais", "MintInfo::verify_banks_ais accepts accounts without comparing all of them with the token's banks: %s" % sorted(m)[:3], c.where(f))
    c.cov["bank list checks"] = len(outs)


def outstanding(r, t):
    """What the position owes, at most what the token's health balance is short of, less what the insurance fund already repaid."""
    p = dict(alg.Alg(r.D).poly(t))
    mn = [m for m in p if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "min"]
    if len(mn) != 1 or p.pop(mn[0]) != 1:
        return False
    args = [dict(x) for x in mn[0][0][0][1]]
    if len(args) != 2 or any(len(x) != 1 or set(x.values()) != {-1} for x in args):
        return False
    tx = sorted(alg.text({m: 1}) for x in args for m in x)
    own = [x for x in args if alg.text({next(iter(x)): 1}).startswith("native(liqee, ")]
    if len(own) != 1 or not any("effective_token_balances" in x and x.endswith("spot_and_perp") for x in tx):
        return False
    if not p:
        return True
    nat = next(iter(own[0]))
    return p.pop(nat, None) == 1 and len(p) == 1 and next(iter(p.values())) == -1 and alg.text({next(iter(p)): 1}).startswith("native(")


CONFINED = {
    "deposit_index": {"instructions::token_liq_bankruptcy::token_liq_bankruptcy", "instructions::token_update_index_and_rate::token_update_index_and_rate"},
    "borrow_index": {"instructions::token_update_index_and_rate::token_update_index_and_rate"},
    "index_last_updated": {"instructions::token_update_index_and_rate::token_update_index_and_rate"},
    "avg_utilization": {"instructions::token_update_index_and_rate::token_update_index_and_rate"},
}


def check(c):
    role = curve(c)
    verify_banks(c)
    for f, ws in writers(c.prog, set(CONFINED)).items():
        for p, line in sorted(ws):
            # a helper that exists only for the two instructions is as good as the instruction itself
            own = any(p == q or p.startswith(q.rsplit("::", 1)[0] + "::") for q in CONFINED[f])
            c.need(own, "confined:%s:%s" % (f, p), "%s writes %s" % (p, f), c.where(p, line))
    c.pmap(lambda j: update(c, j[1], role) if j[0] == "u" else bankrupt(c, j[1]), [("u", "token_update_index_and_rate"), ("u", "token_update_index_and_rate_resilient"), ("l", "token_liq_bankruptcy"), ("l", "liq_token_bankruptcy")])
    c.floor("index writes", c.cov.get("index writes", 0), 20)
