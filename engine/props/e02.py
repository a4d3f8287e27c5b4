"""Perp pnl settlement: the settle limits, what settling does to them, and how much each settling instruction may settle."""
from fractions import Fraction
from ctx import *
from terms import T
import absint as A
import alg, guards

META = dict(
    title="Perp pnl settlement stays within both sides' settle limits",
    statement="The settle limit of a position is unlimited for a negative limit factor; otherwise it is factor * stable value of the base position plus min(|recurring allowance|, |stable-price pnl| rounded up), both ways, plus the one-shot allowance on its side only; what was settled in the current window is subtracted, and a new window starts exactly when the time is outside the stored one. A trade lowers the recurring allowance by factor * stable value of the net increase (raises it for a net reduction), never below zero and never above the stable-price pnl. "
              "Settling moves exactly the settled pnl out of the quote position, uses up the one-shot allowance of the same sign first, then the window budget less what the recurring allowance shrank. Perp settle pnl requires a's pnl and settleable pnl positive and b's negative, settles max(0, min(a's settleable, -b's settleable, b's max settle)) and pays the settler the defined fee out of a's share; settle fees settles min(|settleable|, accrued fees, requested amount) and only negative pnl against accrued fees. Settleable pnl is always taken after funding was settled and the window brought up to date.",
    q=(["inputs", "histories"], "Every position, market, price, time and pair of accounts."),
    files=["programs/mango-v4/src/state/mango_account_components.rs", "programs/mango-v4/src/state/perp_market.rs", "programs/mango-v4/src/instructions/perp_settle_pnl.rs", "programs/mango-v4/src/instructions/perp_settle_fees.rs",
           "programs/mango-v4/src/instructions/perp_liq_negative_pnl_or_bankruptcy.rs"],
    mechanism=[("PerpPosition::settle_limit, available_settle_limit, apply_pnl_settle_limit, update_settle_limit, record_settle, record_trade", "state/mango_account_components.rs"),
               ("PerpMarket::compute_settle_fee", "state/perp_market.rs"), ("perp_settle_pnl", "instructions/perp_settle_pnl.rs"), ("perp_settle_fees", "instructions/perp_settle_fees.rs")],
    technique="exact path conditions and new values over MIR; argument values and order of the settlement calls along every path of the instructions")
LEVEL = "proof"
RULE = ("Path conditions, results and new field values of the limit functions are computed from MIR as polynomials (saturating and clamping conversions are uninterpreted) and compared with the formulas. "
        "In the settling instructions every call that settles pnl gets exactly the specified amount, with the required comparisons known on all paths and the calls that must come before it already made on the same position.")

PP = "state::mango_account_components::PerpPosition::"
PM = "state::perp_market::PerpMarket::"
REC, ONE, USED = "recurring_settle_pnl_allowance", "oneshot_settle_pnl_allowance", "settle_pnl_limit_settled_in_current_window_native"
NUM = ("clamp_to_i64", "saturating_add", "saturating_sub")


def formulas(c):
    import logic
    from props.e01 import over
    V, txt, fn, vmin, vmax = logic.V, logic.txt, logic.fn, logic.vmin, logic.vmax
    n = 0

    def cmp(path, opaque, want, key, field=None, arg="self", part=None, given=(), ok=lambda rv: True, **kw):
        nonlocal n
        r, outs, old, new = logic.formula(c, path, opaque + ("clamp_to_i64",), fns=NUM, **kw)
        w = [(frozenset(x), v) for x, v in want]
        val = (lambda rv, st: r.x.poly(new(st, arg, field))) if field else (lambda rv, st: r.x.poly(pick(rv, part))) if part is not None else None
        k, bad = logic.cases(r, outs, w, val, ok=ok, given=given)
        n += k
        c.need(outs and bad is None, "def:" + key, "%s: %s %s" % (path.split("::")[-1], key, bad), c.where(path))

    def pick(rv, i):
        rv = logic.inner(rv)
        return rv.args[2][i] if rv.op == "agg" and len(rv.args[2]) > i else T("fld", rv, str(i))
    clamp = lambda x: fn("clamp_to_i64", x)
    sat = lambda f, x, y: fn("saturating_" + f, x, y)
    up, down, ab, trunc = (lambda x, f=f: fn(f, x) for f in ("ceil", "floor", "abs", "trunc"))
    rec, one, used, quote, lots = (V("self." + f) for f in (REC, ONE, USED, "quote_position_native", "base_position_lots"))

    # the limit
    def value(m):
        return V(m + ".base_lot_size") * lots * V("stable_price(%s)" % m)
    same = lambda m: V(m + ".perp_market_index").eq(V("self.market_index"))
    f = V("market.settle_pnl_limit_factor")
    neg, nn = f < 0, f >= 0
    opq = ("stable_price",)
    room = clamp(f * ab(value("market"))) + vmin(ab(rec), up(ab(value("market") + quote)))
    m = {same("market")}
    for i, (free, plain, shot) in enumerate(((V(0), -room, sat("add", -room, clamp(down(one)))), (V(0), room, sat("add", room, clamp(up(one)))))):
        lim = vmin if i == 0 else vmax
        side = one < 0 if i == 0 else one >= 0
        other = (side[0], not side[1])
        cmp(PP + "settle_limit", opq, [({neg}, extreme(i)), ({nn, side}, lim(0, shot)), ({nn, other}, lim(0, plain))], "limit %s" % ("down", "up")[i], part=i, given=m)
        lm = V("settle_limit(self, market).%d" % i)
        cmp(PP + "available_settle_limit", ("settle_limit",), [({neg}, extreme(i)), ({nn}, lim(0, sat("sub", lm, used)))], "available %s" % ("down", "up")[i], part=i, given=m)
    pnl = V("pnl")
    lo, hi = (V("available_settle_limit(self, market).%d" % i) for i in (0, 1))
    cmp(PP + "apply_pnl_settle_limit", ("available_settle_limit",), [({neg}, pnl), ({nn, pnl < 0}, vmax(pnl, lo)), ({nn, pnl >= 0}, vmin(pnl, hi))], "settleable")
    # the window
    size, now, win = V("market.settle_pnl_limit_window_size_ts"), V("now_ts"), V("self.settle_pnl_limit_window")
    before, after = now < win * size, now >= win * size + size
    inside = {(x[0], not x[1]) for x in (before, after)}
    for fld, fresh, keep in ((USED, V(0), used), ("settle_pnl_limit_window", None, win)):
        cmp(PP + "update_settle_limit", (), [(inside, keep), ({before}, fresh), ({after}, fresh)], "window " + fld, fld)
    r, outs, old, new = logic.formula(c, PP + "update_settle_limit")
    for lits, rv, st in outs:
        p = r.x.poly(new(st, "self", "settle_pnl_limit_window"))
        n += 1
        c.need(alg.key(p) in (alg.key(win.p), alg.key((now * over("market.settle_pnl_limit_window_size_ts")).p)), "def:window", "the window becomes %s" % alg.text(p), c.where(PP + "update_settle_limit"))
    # unsettled pnl
    cmp(PP + "unsettled_pnl", (), [((), quote + V("perp_market.base_lot_size") * lots * V("price"))], "pnl", ok=logic.is_ok)
    # trades
    ch = V("base_change")
    for fld, want in ((REC, vmax(0, ab(rec) - clamp((ab(lots + ch) - ab(lots)) * V("perp_market.base_lot_size") * V("stable_price(perp_market)") * V("perp_market.settle_pnl_limit_factor")))),):
        cmp(PP + "update_trade_stats", opq, [({ch.ne(0)}, want), ({ch.eq(0)}, V("self." + fld))], "recurring allowance after a trade", fld, signs=True)
    avg, q = V("self.avg_entry_price_per_base_lot"), V("quote_change_native")
    new_ = lots + ch
    same_up, same_dn = {lots > 0, new_ > 0}, {lots < 0, new_ < 0}
    realize = q + ch * avg
    cross = lots * (ab(q * over("base_change")) - avg)
    nz = {ch.ne(0)}
    cmp(PP + "update_trade_stats", opq, [({ch.eq(0)}, V(0)), (nz | {new_.eq(0)}, realize), (nz | {lots > 0, new_ < 0}, cross), (nz | {lots < 0, new_ > 0}, cross), (nz | {lots.eq(0), new_.ne(0)}, cross)] +
        [(nz | s | {d}, v) for s, inc in ((same_up, ch > 0), (same_dn, ch < 0)) for d, v in ((inc, V(0)), ((ch < 0) if inc == (ch > 0) else (ch > 0), realize))], "realized pnl of a trade", signs=True)
    lim = vmin(ab(rec), up(ab(value("perp_market") + quote)))
    cmp(PP + "apply_recurring_settle_pnl_allowance_constraint", opq, [((), vmax(0, lim))], "recurring allowance bound", REC, given={same("perp_market")})
    order(c)
    # settling
    s = V("settled_pnl")
    red = lambda sg: vmax(0, vmin(s, one)) if sg else vmin(0, vmax(s, one))
    rec2 = vmax(0, vmin(ab(rec), up(ab(value("perp_market") + quote - s))))
    d = rec2 - ab(rec)
    g = {same("perp_market")}
    P = PP + "record_settle"
    cases = [({s > 0}, True), ({s <= 0}, False)]
    cmp(P, opq, [((), quote - s)], "settled quote", "quote_position_native", given=g)
    cmp(P, opq, [(x, one - red(sg)) for x, sg in cases], "settled one-shot", ONE, given=g)
    cmp(P, opq, [((), rec2)], "settled recurring", REC, given=g)
    w = []
    for x, sg in cases:
        u = clamp(trunc(s - red(sg)))
        w += [(x | {d < 0, u > 0}, used + vmax(0, u + d)), (x | {d < 0, u <= 0}, used + vmin(0, u - d)), (x | {d >= 0}, used + u)]
    cmp(P, opq, w, "settled budget", USED, given=g)
    fee, chg = V("fee"), V("change")
    for name, fld, want in (("record_trading_fee", "quote_position_native", quote - fee), ("record_trading_fee", ONE, one - fee), ("record_liquidation_quote_change", "quote_position_native", quote + chg),
                            ("record_liquidation_quote_change", ONE, one + chg), ("record_liquidation_pnl_takeover", "quote_position_native", quote + chg),
                            ("record_liquidation_pnl_takeover", REC, rec + V("recurring_limit")), ("record_liquidation_pnl_takeover", ONE, one + V("oneshot_limit"))):
        cmp(PP + name, (), [((), want)], "%s %s" % (name, fld), fld)
    # the settle fee
    st, pv, bv, le, mh = (V(x) for x in ("settlement", "source_pnl_value", "source_position_value", "source_liq_end_health", "source_maint_health"))
    big, big0 = st >= V("self.settle_fee_amount_threshold"), st < V("self.settle_fee_amount_threshold")
    flat, low = V("self.settle_fee_flat"), V("self.settle_fee_fraction_low_health")
    worth, small = pv * 100 > bv, pv * 100 <= bv
    scaled = st * low * -le * V({alg.inv(next(iter(V("(-source_liq_end_health + source_maint_health)").p))): 1})
    g = {mh >= le}
    lowfee = lambda x: vmin(st, x, flat * 2)
    cmp(PM + "compute_settle_fee", (), [({small}, V(0)), ({worth, big}, vmin(flat, st)), ({worth, big0, le < 0, mh < 0}, lowfee(st * low)), ({worth, big0, le < 0, mh >= 0}, lowfee(scaled)), ({worth, big0, le >= 0}, lowfee(0))],
        "settle fee", ok=logic.is_ok)
    r, outs, old, new = logic.formula(c, PM + "compute_settle_fee")
    for lits, rv, stt in outs:
        if logic.is_ok(rv):
            v = V(r.x.poly(logic.inner(rv)))
            n += 1
            c.need(not v.p or logic.implied(lits, [[v >= 0]]), "def:fee sign", "a negative settle fee is possible", c.where(PM + "compute_settle_fee"))
    c.floor("formula cases", n, 60)


def extreme(i):
    import logic
    return logic.V(-Fraction(2 ** 63, alg.ONE) if i == 0 else Fraction(2 ** 63 - 1, alg.ONE))


class Order(InlineRule):
    """What a trade did before the recurring allowance is bounded."""

    def __init__(self, prog):
        InlineRule.__init__(self, prog)
        self.D = guards.Desc(self)
        self.opaque |= {p for p in prog.fns if p.split("::")[-1] == "apply_recurring_settle_pnl_allowance_constraint"}
        self.seen = set()

    def on_call(self, an, st, fr, name, res, args, site):
        f = str(res).split("::")[-1]
        if f in ("change_base_position", "change_quote_position", "update_trade_stats"):
            return st.marks | {f}
        if f == "apply_recurring_settle_pnl_allowance_constraint":
            self.seen.add(frozenset(st.marks) >= {"change_base_position", "change_quote_position", "update_trade_stats"} and self.D(args[0]).startswith("self"))
            return st.marks | {"bound"}


def order(c):
    import summ
    r = Order(c.prog)
    p = PP + "record_trade"
    an = A.Analyzer(c.prog, r, 100000)
    outs = an.run(p, [T("arg", x) for x in summ.arg_names(c.fn(p))])
    c.need(outs and r.seen == {True} and all("bound" in s.marks for s, rv in outs), "trade:bound", "a trade does not bound the recurring allowance by the pnl after the trade", c.where(p))


WATCH = {"settle_funding": "fs", "update_settle_limit": "win"}
OPAQUE = {"apply_pnl_settle_limit", "unsettled_pnl", "perp_max_settle", "health", "compute_settle_fee", "emit_stack", "emit_perp_balances", "new_health_cache", "oracle_price", "compute_health", "record_settle", "deposit",
          "withdraw_without_fee", "settle_funding", "update_settle_limit", "record_liquidation_quote_change", "socialize_loss"}
FRAMED = {"settle_funding", "update_settle_limit", "apply_pnl_settle_limit", "record_settle", "deposit", "withdraw_without_fee", "socialize_loss", "record_liquidation_quote_change"}


class Settle(InlineRule):
    keep = ("unsettled_pnl(", "apply_pnl_settle_limit(", "perp_max_settle(", "fees_accrued", "max_settle_amount")

    def __init__(self, prog, opaque=(), but=()):
        import logic
        InlineRule.__init__(self, prog)
        self.D = guards.Desc(self)
        self.x = alg.Alg(self.D)
        self.x.prog = prog
        self.lit = logic.lit
        self.opaque |= {p for p in prog.fns if p.split("::")[-1] in (OPAQUE | set(opaque)) - set(but)}
        self.calls = {}         # (function, position) -> [(arguments, marks)]
        self.vals = {}

    def frames(self, res):
        return str(res).split("::")[-1] in FRAMED

    def on_branch(self, an, st, fr, t, val):
        s = guards.atom(self.D, t, val)
        if any(k in s for k in self.keep):
            return st.marks | {("lit", self.lit(self.x, t, val))}

    def name(self, an, st, a):
        return self.D(a)

    def on_call(self, an, st, fr, name, res, args, site):
        f = str(res if res in an.prog.fns else name).split("::")[-1]
        if f in OPAQUE and res in an.prog.fns:
            vs = [an.full_deref(st, a) if a.op == "ref" and a.args[0].op == "cell" else a for a in args]
            ps = tuple(alg.key(self.x.poly(v)) for v in vs)
            at = f + (" " + self.bank(vs[1]) if f in ("deposit", "withdraw_without_fee") else "")
            self.calls.setdefault(at, set()).add((tuple(self.D(v) for v in vs), ps, frozenset(st.marks)))
            if f in WATCH:
                ok = f != "update_settle_limit" or is_now(args[2])
                return st.marks | ({(WATCH[f], self.D(args[0]))} if ok else set())

    def bank(self, t):
        return self.D(t)


def instructions(c):
    import logic
    V = logic.V
    vmin, vmax = logic.vmin, logic.vmax
    lits = lambda m: frozenset(x[1] for x in m if x[0] == "lit")

    def every(r, f, least, want, key, msg, w, prior=()):
        """Every call of f matches one of the wanted polynomials per argument and its facts."""
        cs = r.calls.get(f, ())
        c.need(len({x[0] for x in cs}) >= least, "calls:" + key, "%s: %d calls of %s" % (w, len({x[0] for x in cs}), f), w)
        for d, ps, m in sorted(cs, key=str):
            x = want(d, ps, m)
            c.need(x is None, key, "%s: %s %s" % (w, msg, x), w)

    # perp_settle_pnl
    ix = "perp_settle_pnl"
    w = "instruction " + ix
    r = Settle(c.prog)
    an, oks = run_entry(c.prog, ix, r)
    c.need(oks, "exits:" + ix, "no successful exit", w)
    price = "oracle_price(perp_market, from_reader(air(oracle)), None{})"
    A_, B_ = "account_a.Perp", "account_b.Perp"
    pnl = {x: V("unsettled_pnl(%s, perp_market, %s)" % (x, price)) for x in (A_, B_)}
    able = {x: V("apply_pnl_settle_limit(%s, perp_market, unsettled_pnl(%s, perp_market, %s))" % (x, x, price)) for x in (A_, B_)}
    bmax = V("perp_max_settle(cache(account_b), perp_market.settle_token_index)")
    amount = vmax(0, vmin(able[A_], -able[B_], bmax))
    facts = [[pnl[A_] > 0, pnl[B_] < 0, able[A_] > 0, able[B_] < 0]]
    prior(c, r, ix, w)

    def settle(d, ps, m):
        if d[0] not in (A_, B_):
            return "on %s" % d[0]
        want = amount if d[0] == A_ else -amount
        if not eqv(ps[1], want):
            return "settles %s on %s" % (alg.text(dict(ps[1]))[:400], d[0])
        if not logic.implied(lits(m), facts):
            return "settles without knowing that a's pnl is positive and b's negative"
    every(r, "record_settle", 2, settle, "amount:" + ix, "record_settle", w)
    c.need({x[0][0] for x in r.calls.get("record_settle", ())} == {A_, B_}, "sides:" + ix, "%s does not settle both sides" % ix, w)
    fee = [x for x in r.calls.get("compute_settle_fee", ())]
    tok = "oracle_price(settle_bank, from_reader(air(settle_oracle)), None{})"
    for d, ps, m in fee:
        want = [None, amount, pnl[A_] * V(tok), None, V("health(cache(account_a), LiquidationEnd{})"), V("health(cache(account_a), Maint{})")]
        posv = (logic.fn("abs", V("account_a.Perp.base_position_lots") * V("perp_market.base_lot_size")) * V(price))
        ok = all(x is None or eqv(p, x) for p, x in zip(ps, want)) and eqv(ps[3], posv)
        c.need(ok, "fee:" + ix, "%s computes its fee from %s" % (ix, [alg.text(dict(p))[:150] for p in ps[1:]]), w)
    c.need(bool(fee), "calls:fee", "%s computes no fee" % ix, w)
    dep = {}
    for f, cs in r.calls.items():
        if f.split(" ")[0] in ("deposit", "withdraw_without_fee"):
            for d, ps, m in cs:
                who = "a" if d[1].startswith("account_a") else "b" if d[1].startswith("account_b") else "settler" if "settler.Token" in d[1] else d[1]
                dep.setdefault((f.split(" ")[0], who), set()).add(ps[2])
    feev = {p for p in dep.get(("deposit", "settler"), ())}
    okfee = len(feev) == 1 and alg.text(dict(next(iter(feev)))).startswith("compute_settle_fee(perp_market, ")
    c.need(okfee, "pay:settler", "%s pays the settler %s" % (ix, [alg.text(dict(x))[:100] for x in feev]), w)
    want = {("deposit", "a"): amount - V(dict(next(iter(feev)))) if okfee else None, ("withdraw_without_fee", "b"): amount}
    for k, v in want.items():
        c.need(v is not None and dep.get(k) and all(eqv(x, v) for x in dep[k]), "pay:" + k[1], "%s: %s of %s" % (ix, k, [alg.text(dict(x))[:200] for x in dep.get(k, ())]), w)
    c.need(set(dep) == set(want) | {("deposit", "settler")}, "pay:who", "%s moves tokens of %s" % (ix, sorted(set(dep))), w)

    # perp_settle_fees
    ix = "perp_settle_fees"
    w = "instruction " + ix
    r = Settle(c.prog)
    an, oks = run_entry(c.prog, ix, r)
    c.need(oks, "exits:" + ix, "no successful exit", w)
    prior(c, r, ix, w)
    P = "account.Perp"
    ab = V("apply_pnl_settle_limit(%s, perp_market, unsettled_pnl(%s, perp_market, %s))" % (P, P, price))
    acc = V("perp_market.fees_accrued")
    mx = [V("$max_settle_amount")]

    def settlef(d, ps, m):
        l = lits(m)
        if d[0] != P:
            return "on %s" % d[0]
        want = -vmin(-ab, acc, mx[0])
        got = dict(ps[1])
        if not (eqv(ps[1], want) or logic.alg.key(canon(logic.resolve(got, l))) == alg.key(canon(logic.resolve(want.p, l)))):
            return "settles %s" % alg.text(logic.resolve(got, l))[:300]
        if not logic.implied(l, [[ab < 0, acc > 0]]):
            return "settles without knowing that the settleable pnl is negative and fees are accrued"
    every(r, "record_settle", 1, settlef, "amount:" + ix, "record_settle", w)
    # liquidations
    for ix in ("perp_liq_negative_pnl_or_bankruptcy_v2",):
        r = Settle(c.prog)
        r.keep = ()
        an, oks = run_entry(c.prog, ix, r)
        prior(c, r, ix, "instruction " + ix)


def prior(c, r, ix, w):
    """pnl is read after funding was settled, limits are applied after the window was updated."""
    k = 0
    for d, ps, m in sorted(r.calls.get("unsettled_pnl", ()), key=str):
        k += 1
        c.need(("fs", d[0]) in m, "funding:%s:%s" % (ix, d[0]), "%s reads the pnl of %s before settling its funding" % (ix, d[0]), w)
    for d, ps, m in sorted(r.calls.get("apply_pnl_settle_limit", ()), key=str):
        k += 1
        c.need(("win", d[0]) in m, "window:%s:%s" % (ix, d[0]), "%s applies the settle limit of %s without updating its window" % (ix, d[0]), w)
    c.floor("pnl reads and limits of " + ix, k, 2)


def canon(p):
    """min written as max, so that negated forms meet."""
    r = {}
    for m, cf in p.items():
        t = {(): Fraction(cf)}
        for a, e in m:
            v = {((a, e),): Fraction(1)}
            if e == 1 and isinstance(a, tuple) and a[0] in ("min", "max"):
                xs = [canon(dict(x)) for x in a[1]]
                v = alg.Alg(None).minmax_p("max", xs) if a[0] == "max" else alg.scale(alg.Alg(None).minmax_p("max", [alg.scale(x, -1) for x in xs]), -1)
            t = alg.mul(t, v)
        r = alg.add(r, t)
    return r


def eqv(k, v):
    return alg.key(canon(dict(k))) == alg.key(canon(v.p))


FILLS = {"perp_consume_events", "perp_place_order", "perp_place_order_pegged", "perp_place_order_pegged_v2", "perp_place_order_v2"}
LIQ = {"perp_liq_base_or_positive_pnl", "perp_liq_negative_pnl_or_bankruptcy_v2"}
SETTLES = {"perp_settle_pnl", "perp_settle_fees"}


def confined(c):
    ch = changers(c.prog, {REC, ONE, USED})
    for f, want in ((REC, LIQ | SETTLES | {"perp_consume_events", "perp_force_close_position"}), (ONE, LIQ | SETTLES | FILLS | {"perp_deactivate_position", "perp_force_close_position"}), (USED, LIQ | SETTLES)):
        for ix in sorted(set(ch[f]) - want):
            c.bad("changers:%s:%s" % (f, ix), "%s can change in %s" % (f, ix), "instruction " + ix)
        c.need(len(set(ch[f]) & want) >= 4, "changers:" + f, "%s only changes in %s" % (f, sorted(ch[f])), "program")


def check(c):
    formulas(c)
    confined(c)
    instructions(c)
