"""Formulas of the per-position health contributions."""
from ctx import *
import alg, logic, summ
from logic import V, vmin, vmax, txt
from terms import T, Term

META = dict(
    title="Each position's health contribution follows its weight and price formula",
    statement="Init health values assets at the lower and liabilities at the higher of oracle and stable price, the other types at the oracle price. A token position contributes balance*weight*price with the liability weight and price exactly when negative; init weights are scaled down (assets) or up (liabilities) with total deposits and borrows, maint weights move linearly over a shift window. Serum reserves are counted as the worse of all-base and all-quote, converted at the worse of oracle and extreme order price. A perp position contributes its quote with unsettled funding and taker fills, plus the worse of executing all bids or all asks; only a positive result is reduced by the overall weight.",
    q=(["inputs"], "Every health type, balance, price, weight, order reserve and perp position the functions accept."),
    files=["programs/mango-v4/src/health/cache.rs", "programs/mango-v4/src/state/bank.rs", "programs/mango-v4/src/state/mango_account_components.rs"],
    mechanism=[("Prices::asset/liab, TokenInfo::health_contribution, Serum3Info, PerpInfo", "health/cache.rs"), ("Bank::scaled_init_*_weight, maint_weights, stable_price", "state/bank.rs"), ("PerpPosition::unsettled_funding", "state/mango_account_components.rs")],
    technique="path summaries over MIR normalised to polynomials with minima and compared with the health formulas case by case")
LEVEL = "proof"
RULE = ("On every path of each valuation function the returned value, normalised to a polynomial over the inputs, equals the formula of the case its conditions select, and every case has a path.")

H = "health::cache::"
INIT, MAINT, LIQ = "disc health_type == 0", "disc health_type == 1", "disc health_type == 2"
TYPES = (INIT, MAINT, LIQ)
s = lambda f: V("self." + f)


def types(f):
    """Cases by health type: f(type) -> [(more literals, value)]"""
    return [(frozenset([txt(t)]) | frozenset(L), v) for t in TYPES for L, v in f(t)]


def asset(base, t):
    return vmin(V(base + ".oracle"), V(base + ".stable")) if t == INIT else V(base + ".oracle")


def liab(base, t):
    return vmax(V(base + ".oracle"), V(base + ".stable")) if t == INIT else V(base + ".oracle")


W = {INIT: "init_scaled_%s_weight", MAINT: "maint_%s_weight", LIQ: "init_%s_weight"}


def weight(info, kind, t):
    return V(info + "." + W[t] % kind)


def compare(c, path, want, opaque=(), value=None, key=None, pick=None, quiet=(), given=()):
    name = "::".join(path.split("::")[-2:])
    r, outs, old, new = logic.formula(c, path, opaque, quiet, drop=lambda a: "disc checked_" in a, indexed=True)
    if pick:
        outs = [o for o in outs if pick(o)]
    w = want(r, new) if callable(want) else want
    n, bad = logic.cases(r, outs, w, value and (lambda rv, st: value(r, rv, st, new)), given=given)
    c.cov["formulas"] = c.cov.get("formulas", 0) + 1
    c.cov["cases compared"] = c.cov.get("cases compared", 0) + n
    c.need(bad is None and n, "formula:" + (key or name), "%s %s" % (name, bad or "has no path"), c.where(path))
    return r, outs


def field(r, rv, i):
    while rv.op == "agg" and str(rv.args[0]).split("::")[-1] in ("Ok", "Some"):
        rv = rv.args[2][0]
    if rv.op == "agg":
        if isinstance(i, int):
            return r.x.poly(rv.args[2][i]) if i < len(rv.args[2]) else None
        return r.x.poly(rv.args[2][rv.args[1].index(i)]) if i in rv.args[1] else None
    return r.x.poly(T("fld", rv, None, i))


def prices(c):
    compare(c, H + "Prices::asset", types(lambda t: [((), asset("self", t))]))
    compare(c, H + "Prices::liab", types(lambda t: [((), liab("self", t))]))


def tokens(c):
    b = V("balance")
    P = "self.prices"
    compare(c, H + "TokenInfo::asset_weighted_price", types(lambda t: [((), weight("self", "asset", t) * asset(P, t))]))
    compare(c, H + "TokenInfo::liab_weighted_price", types(lambda t: [((), weight("self", "liab", t) * liab(P, t))]))
    compare(c, H + "TokenInfo::health_contribution",
            types(lambda t: [([b < 0], b * weight("self", "liab", t) * liab(P, t)), ([b >= 0], b * weight("self", "asset", t) * asset(P, t))]))


def serum(c):
    rb, rq = s("reserved_base"), s("reserved_quote")
    bid, ask = s("reserved_quote_as_base_highest_bid"), s("reserved_base_as_quote_lowest_ask")

    def as_base(t):
        o = rq * asset("quote_info.prices", t) / liab("base_info.prices", t)
        return [([bid.ne(0)], rb + vmin(o, bid)), ([bid.eq(0)], rb + o)]

    def as_quote(t):
        o = rb * asset("base_info.prices", t) / liab("quote_info.prices", t)
        return [([ask.ne(0)], rq + vmin(o, ask)), ([ask.eq(0)], rq + o)]
    compare(c, H + "Serum3Info::all_reserved_as_base", types(as_base))
    compare(c, H + "Serum3Info::all_reserved_as_quote", types(as_quote))

    ab, aq = V("market_reserved.all_reserved_as_base"), V("market_reserved.all_reserved_as_quote")

    def effect(t, side, m):
        """Worth of the market's reserves in one token, being the last part of the token's highest possible balance."""
        i = "[self.%s_info_index]" % side
        info = "token_infos" + i
        mx = V("token_balances" + i + ".spot_and_perp") + V("token_max_reserved" + i + ".max_serum_reserved")
        a = weight(info, "asset", t) * asset(info + ".prices", t)
        l = weight(info, "liab", t) * liab(info + ".prices", t)
        return [([mx >= m], m * a), ([mx < m, mx < 0], m * l), ([mx < m, mx >= 0], mx * a + (m - mx) * l)]

    def contribution(t):
        out = [([ab.eq(0)], V(0)), ([ab.ne(0), aq.eq(0)], V(0))]
        for L1, v1 in effect(t, "base", ab):
            for L2, v2 in effect(t, "quote", aq):
                out.append(([ab.ne(0), aq.ne(0)] + L1 + L2, vmin(v1, v2)))
        return out
    zero = [x for x in contribution(INIT) if not x[1].p]
    compare(c, H + "Serum3Info::health_contribution", [(frozenset(L), v) for L, v in zero] + types(lambda t: [x for x in contribution(t) if x[1].p]),
            given=[ab >= 0, aq >= 0])

    oo = {f: V("%s(open_orders)" % f) for f in ("native_base_reserved", "native_quote_reserved", "native_base_total", "native_quote_total", "native_rebates")}
    fields = {
        "reserved_base": oo["native_base_reserved"], "reserved_quote": oo["native_quote_reserved"],
        "reserved_base_as_quote_lowest_ask": oo["native_base_reserved"] * V("serum_account.lowest_placed_ask"),
        "reserved_quote_as_base_highest_bid": oo["native_quote_reserved"] * V("serum_account.highest_placed_bid_inv"),
        "base_info_index": V("base_info_index"), "quote_info_index": V("quote_info_index"), "market_index": V("serum_account.market_index"),
    }
    struct(c, H + "Serum3Info::new", fields)
    flag(c, H + "Serum3Info::new", "has_zero_funds", [[oo[f].eq(0) for f in ("native_base_total", "native_quote_total", "native_rebates")]])


def struct(c, path, fields, opaque=(), given=()):
    for f, v in sorted(fields.items(), key=str):
        name = "::".join(path.split("::")[-2:])
        compare(c, path, [(frozenset(given), v)], opaque, value=lambda r, rv, st, new, f=f: field(r, rv, f) or {}, key="%s.%s" % (name, f))


def flag(c, path, f, want):
    """A boolean field holds exactly under the wanted condition."""
    r, outs, old, new = logic.formula(c, path, indexed=True)
    got = logic.when(r, [(l, logic.inner(rv).args[2][logic.inner(rv).args[1].index(f)], st) for l, rv, st in outs if logic.inner(rv).op == "agg"])
    w = [frozenset(x) for x in want]
    c.cov["formulas"] = c.cov.get("formulas", 0) + 1
    name = "::".join(path.split("::")[-2:]) + "." + f
    c.need(outs and logic.equivalent(got, w), "formula:" + name, "%s holds when %s, expected %s" % (name, logic.show_dnf(r, got), logic.show_dnf(r, w)), c.where(path))


def perps(c):
    lot = s("base_lot_size")

    def kind(t):
        return "maint" if t == MAINT else "init"

    def case(t, orders, price):
        n = (s("base_lots") + orders) * lot
        q = -orders * lot * price
        al = s(kind(t) + "_base_asset_weight") * asset("self.base_prices", t)
        ll = s(kind(t) + "_base_liab_weight") * liab("self.base_prices", t)
        return [([n < 0], n * ll + q), ([n >= 0], n * al + q)]

    def pnl(t):
        for L1, v1 in case(t, s("bids_base_lots"), liab("self.base_prices", t)):
            for L2, v2 in case(t, -s("asks_base_lots"), asset("self.base_prices", t)):
                yield L1 + L2, s("quote") + vmin(v1, v2)

    def weighted(t):
        w = s(kind(t) + "_overall_asset_weight")
        for L, v in pnl(t):
            yield L + [v > 0], v * w
            yield L + [v <= 0], v
    compare(c, H + "PerpInfo::unweighted_health_unsettled_pnl", types(lambda t: list(pnl(t))))
    compare(c, H + "PerpInfo::health_unsettled_pnl", types(lambda t: list(weighted(t))))
    pp, pm = lambda f: V("perp_position." + f), lambda f: V("perp_market." + f)
    fund = V("unsettled_funding(perp_position, perp_market)")
    fields = {f: pm(f) for f in ("perp_market_index", "settle_token_index", "maint_base_asset_weight", "init_base_asset_weight", "maint_base_liab_weight", "init_base_liab_weight",
                                 "maint_overall_asset_weight", "init_overall_asset_weight", "base_lot_size")}
    fields.update({
        "base_lots": pp("base_position_lots") + pp("taker_base_lots"), "bids_base_lots": pp("bids_base_lots"), "asks_base_lots": pp("asks_base_lots"),
        "quote": pp("quote_position_native") - fund + pp("taker_quote_lots") * pm("quote_lot_size"),
    })
    struct(c, H + "PerpInfo::new", fields, opaque=("unsettled_funding", "has_open_orders", "has_open_taker_fills"))
    b = V("self.base_position_lots")
    compare(c, "state::mango_account_components::PerpPosition::unsettled_funding", [
        (frozenset([b > 0]), (V("perp_market.long_funding") - s("long_settled_funding")) * b),
        (frozenset([b < 0]), (V("perp_market.short_funding") - s("short_settled_funding")) * b),
        (frozenset([b.eq(0)]), V(0)),
    ])


def weights(c):
    B = "state::bank::Bank::"
    dep = s("deposit_index") * s("indexed_deposits") + s("potential_serum_tokens")
    bor = s("borrow_index") * s("indexed_borrows")
    price = V("price")
    for f, amount, start, w, up in (("scaled_init_asset_weight", dep, s("deposit_weight_scale_start_quote"), s("init_asset_weight"), False),
                                    ("scaled_init_liab_weight", bor, s("borrow_weight_scale_start_quote"), s("init_liab_weight"), True)):
        path = B + f
        value = amount * price
        r, outs, old, new = logic.formula(c, path, drop=lambda a: "disc checked_" in a, indexed=True)
        n, bad = 0, None
        for lits, rv, st in outs:
            got = r.x.poly(rv)
            n += 1
            d = logic.decided(lits, (value - start).p)
            free = [p for (k, q), p in lits if k == "eq" and p and any(m == () for m, _ in q)]       # scaling switched off
            if d in ("<=", "<", "=") or free:
                if not w.same(got):
                    bad = "gives %s, not the unscaled weight, where %s" % (alg.text(got), logic.show_dnf(r, [lits]))
            elif d == ">" and up and dict(lits).get(start.eq(0)[0]):
                if not got or set(got) != {()} or got[()] < 1 << 60:
                    bad = "gives %s for a start of zero" % alg.text(got)
            elif d == ">":
                wanted = w * value / start if up else w * start / value
                if not wanted.same(got):
                    bad = "gives %s instead of %s" % (alg.text(got), alg.text(wanted.p))
            else:
                bad = "returns %s without comparing %s with %s" % (alg.text(got), alg.text(value.p), alg.text(start.p))
        c.cov["formulas"] = c.cov.get("formulas", 0) + 1
        c.need(bad is None and n >= 3, "formula:" + f, "%s %s" % (f, bad), c.where(path))
    inv, now, a, z = s("maint_weight_shift_duration_inv"), V("now_ts"), s("maint_weight_shift_start"), s("maint_weight_shift_end")
    for i, k in enumerate(("asset", "liab")):
        m, g = s("maint_%s_weight" % k), s("maint_weight_shift_%s_target" % k)
        compare(c, B + "maint_weights", [
            (frozenset([inv.eq(0)]), m), (frozenset([inv.ne(0), now <= a]), m),
            (frozenset([inv.ne(0), now > a, now >= z]), g),
            (frozenset([inv.ne(0), now > a, now < z]), m + (now - a) * inv * (g - m)),
        ], value=lambda r, rv, st, new, i=i: field(r, rv, i), key="maint_weights.%s" % k)
    for p in (B + "stable_price", "state::perp_market::PerpMarket::stable_price"):
        compare(c, p, [(frozenset(), s("stable_price_model.stable_price"))])


def settle_limit(c):
    h, x, a, l = V("health"), V("starting_spot"), V("asset_weighted_price"), V("liab_weighted_price")
    rest = h - x * a
    compare(c, H + "spot_amount_taken_for_health_zero", [
        (frozenset([h <= 0]), V(0)),
        (frozenset([h > 0, x <= 0, l > 0]), h / l),
        (frozenset([h > 0, x > 0, a > 0, h / a <= x]), h / a),
        (frozenset([h > 0, x > 0, a > 0, h / a > x, rest > 0, l > 0]), x + rest / l),
        (frozenset([h > 0, x > 0, a > 0, h / a > x, rest <= 0]), x),
        (frozenset([h > 0, x > 0, a <= 0, rest > 0, l > 0]), x + rest / l),
        (frozenset([h > 0, x > 0, a <= 0, rest <= 0]), x),
    ])


def check(c):
    prices(c)
    tokens(c)
    serum(c)
    perps(c)
    weights(c)
    settle_limit(c)
    c.floor("formulas", c.cov.get("formulas", 0), 39)
