"""Perp funding: how the funding rates accrue and that every position settles them before it changes."""
import re
from ctx import *
from terms import T
import absint as A
import alg, guards
from terms import Term

META = dict(
    title="Perp funding accrues as defined and is settled before a position changes",
    statement="A funding update adds the same amount per base lot to the long and short funding: oracle price * lot size * rate * elapsed days (at most one hour counts per update, nothing if no time passed), where the rate is the relative difference of the middle of the two impact prices to the oracle price, clamped to the market's minimum and maximum, the maximum when only bids and the minimum when only asks are deep enough, and zero when neither is. Besides updates only the socialized loss of a bankruptcy changes the funding: by the loss divided by the open interest, at the expense of both sides. Settling funding charges a long position its lots times the long funding not yet settled, a short position likewise with the short funding, nothing to an empty position, and marks all as settled. Every trade, liquidation, forced close, pnl settlement, fee settlement, bankruptcy and deactivation settles the position's funding first. Open interest changes by exactly the change of the position's absolute size. Orders are placed only after a funding update for the current time on the market's own book and oracle.",
    q=(["inputs", "histories"], "Every book, price, time, position and instruction sequence."),
    files=["programs/mango-v4/src/state/perp_market.rs", "programs/mango-v4/src/state/mango_account_components.rs", "programs/mango-v4/src/state/mango_account.rs", "programs/mango-v4/src/instructions"],
    mechanism=[("PerpMarket::update_funding_and_stable_price, socialize_loss", "state/perp_market.rs"), ("PerpPosition::settle_funding, unsettled_funding, change_base_position", "state/mango_account_components.rs"),
               ("execute_perp_maker, execute_perp_taker", "state/mango_account.rs")],
    technique="exact path conditions and new values over MIR; typestate of perp positions along every path of every instruction")
LEVEL = "proof"
RULE = ("Path conditions and new field values of the funding functions are computed from MIR as polynomials and compared with the formulas. In every instruction each reached change of a perp position "
        "(record_trade, change_base_position, record_settle, pnl takeover) is an obligation: on all paths settle_funding was called before on the same position and no funding changed in between.")

PM = "state::perp_market::PerpMarket::"
PP = "state::mango_account_components::PerpPosition::"
NEED = {"change_base_position", "record_trade", "record_settle", "record_liquidation_pnl_takeover"}
FUNDING = {"long_funding": {"perp_liq_negative_pnl_or_bankruptcy_v2", "perp_place_order", "perp_place_order_pegged", "perp_place_order_pegged_v2", "perp_place_order_v2", "perp_update_funding"}}
FUNDING["short_funding"] = FUNDING["long_funding"]
WRITERS = {"long_funding": {PM + "update_funding_and_stable_price", PM + "socialize_loss"}, "short_funding": {PM + "update_funding_and_stable_price", PM + "socialize_loss"},
           "funding_last_updated": {PM + "update_funding_and_stable_price"}, "long_settled_funding": {PP + "settle_funding"}, "short_settled_funding": {PP + "settle_funding"},
           "base_position_lots": {PP + "change_base_position"}, "open_interest": {PP + "change_base_position"}}
PLACE = {"perp_place_order", "perp_place_order_pegged", "perp_place_order_pegged_v2", "perp_place_order_v2"}


def formulas(c):
    import logic
    V, txt, fn = logic.V, logic.txt, logic.fn
    n = 0

    def cmp(path, opaque, want, key, field=None, arg="self"):
        """want: [(literals, value)]; field: compare this field's new value, otherwise the result."""
        nonlocal n
        r, outs, old, new = logic.formula(c, path, opaque)
        w = [(frozenset(x), v) for x, v in want]
        k, bad = logic.cases(r, outs, w, field and (lambda rv, st: r.x.poly(new(st, arg, field))), ok=logic.is_ok)
        n += k
        c.need(outs and bad is None, "def:" + key, "%s: %s %s" % (path.split("::")[-1], key, bad), c.where(path))
    # funding update
    p = PM + "update_funding_and_stable_price"
    opq = ("impact_price", "lot_to_native_price", "native_price_to_lot", "update", "emit_stack", "stable_price")
    ask, bid = ("impact_price(book.%s, self.impact_quantity, now_ts, native_price_to_lot(self, oracle_state.price))" % s for s in ("asks", "bids"))
    none = V("now_ts") <= V("self.funding_last_updated")
    some = (none[0], not none[1])
    a, b = txt("disc %s == 1" % ask), txt("disc %s == 1" % bid)
    na, nb = txt("disc %s == 0" % ask), txt("disc %s == 0" % bid)
    dt = logic.vmin(V("now_ts") - V("self.funding_last_updated"), 3600)
    r, outs, old, new = logic.formula(c, p, opq)
    base = V("oracle_state.price") * V("self.base_lot_size") * dt
    mid = V("lot_to_native_price(self, ((%s + %s) / 2))" % (ask, bid))
    rate = logic.vmin(logic.vmax(mid * over("oracle_state.price") - 1, V("self.min_funding")), V("self.max_funding"))
    # the two ways to clamp agree wherever the minimum is not above the maximum (clamp itself panics there)
    other = logic.vmax(logic.vmin(mid * over("oracle_state.price") - 1, V("self.max_funding")), V("self.min_funding"))
    for f in ("long_funding", "short_funding"):
        o = V("self." + f)
        by = lambda q: o + V(alg.scale((base * q).p, alg.Fraction(1, 86400)))
        cs = lambda x: [({none}, o), ({some, a, b}, by(x)), ({some, nb, a}, by(V("self.min_funding"))), ({some, b, na}, by(V("self.max_funding"))), ({some, na, nb}, o)]
        second = logic.cases(r, outs, [(frozenset(x), v) for x, v in cs(other)], lambda rv, st: r.x.poly(new(st, "self", f)), ok=logic.is_ok)[1] is None
        cmp(p, opq, cs(other if second else rate), f, f)
    cmp(p, opq, [({none}, V("self.funding_last_updated")), ({some}, V("now_ts"))], "funding_last_updated", "funding_last_updated")
    cmp(PM + "lot_to_native_price", (), [((), V("price") * V("self.quote_lot_size") * over("self.base_lot_size"))], "lot price")
    cmp(PM + "native_price_to_lot", (), [((), fn("floor", V("price") * V("self.base_lot_size") * over("self.quote_lot_size")))], "price in lots")
    # impact price: the price at which the best orders reach the impact quantity
    p = c.find_fn("BookSide::impact_price")
    r, an, outs = logic.iterations(c, p, ("iter_valid",))
    show = lambda l: re.sub(r"phi#\d+", "sum", re.sub(r"item\(iter\(iter_valid\(self, now_ts, oracle_price_lots\)\), site\(\)\)", "item", logic.show_dnf(r, [l])))
    ok = len(r.iters) == 1 and all([r.D(x) for x in v] == ["iter(iter_valid(self, now_ts, oracle_price_lots))"] for v in r.over.values())
    for h, xs in r.iters.items():
        for lits, evs in xs:
            ok = ok and len(evs) == 1 and all(e[0] == "add" and e[3].endswith(".node.quantity") and e[3].startswith("item(") for e in evs) and show(lits) == "(-item.node.quantity - sum + quantity > 0)"
    found = [(lits, r.D(logic.inner(rv))) for lits, evs, rv, st in outs if A.variant_of(rv) == "Some"]
    ok = ok and found and all(v.startswith("item(") and v.endswith(".price_lots") and show(l) == "(-item.node.quantity - sum + quantity <= 0)" for l, v in found) and len(outs) > len(found)
    c.need(ok, "def:impact_price", "the impact price is not the price of the order at which the valid orders add up to the quantity", c.where(p))
    # socialized loss
    p = PM + "socialize_loss"
    neg = V("loss") <= 0
    e = V("self.open_interest").eq(0)
    ne = (e[0], not e[1])
    share = V("loss") * over("self.open_interest")
    for f, sign in (("long_funding", -1), ("short_funding", 1)):
        o = V("self." + f)
        cmp(p, (), [({neg, e}, o), ({neg, ne}, o + sign * share)], "socialized " + f, f)
    cmp(p, (), [({neg, e}, V(0)), ({neg, ne}, share)], "socialized share")
    # settling
    lots = V("self.base_position_lots")
    lo, sh = lots > 0, lots < 0
    z = lots.eq(0)
    fl = (V("perp_market.long_funding") - V("self.long_settled_funding")) * lots
    fs = (V("perp_market.short_funding") - V("self.short_settled_funding")) * lots
    every = lambda rv: True
    for path, field, f in ((PP + "unsettled_funding", None, lambda x: x), (PP + "settle_funding", "quote_position_native", lambda x: V("self.quote_position_native") - x),
                           (PP + "settle_funding", "oneshot_settle_pnl_allowance", lambda x: V("self.oneshot_settle_pnl_allowance") - x)):
        r, outs, old, new = logic.formula(c, path)
        k, bad = logic.cases(r, outs, [(frozenset({lo}), f(fl)), (frozenset({sh}), f(fs)), (frozenset({z}), f(V(0)))], field and (lambda rv, st: r.x.poly(new(st, "self", field))), ok=every)
        n += k
        c.need(outs and bad is None, "def:%s:%s" % (path.split("::")[-1], field), "%s: %s" % (path.split("::")[-1], bad), c.where(path))
    r, outs, old, new = logic.formula(c, PP + "settle_funding")
    for f in ("long", "short"):
        got = {alg.text(r.x.poly(new(st, "self", f + "_settled_funding"))) for m, rv, st in outs}
        n += 1
        c.need(got == {"perp_market.%s_funding" % f}, "def:settled:" + f, "after settling the %s funding marked as settled is %s" % (f, sorted(got)), c.where(PP + "settle_funding"))
    p = PP + "change_base_position"
    r, outs, old, new = logic.formula(c, p)
    ab = lambda x: fn("abs", x)
    for arg, f, v in (("self", "base_position_lots", lots + V("base_change")), ("perp_market", "open_interest", V("perp_market.open_interest") + ab(lots + V("base_change")) - ab(lots))):
        got = {alg.key(r.x.poly(new(st, arg, f))) for m, rv, st in outs}
        n += 1
        c.need(got == {alg.key(v.p)}, "def:" + f, "a change of the base position makes %s %s" % (f, sorted(alg.text(r.x.poly(new(st, arg, f))) for m, rv, st in outs)), c.where(p))
    c.floor("formula cases", n, 30)


def over(x):
    import logic
    return logic.V({alg.inv(next(iter(logic.V(x).p))): 1})


class Funding(InlineRule):
    def __init__(self, prog):
        InlineRule.__init__(self, prog)
        self.D = guards.Desc(self)
        self.sites, self.bad = set(), {}
        self.updates = set()
        self.orders = set()
        self.opaque |= {p for p in prog.fns if p.endswith(("impact_price", "::emit_stack", "::emit_perp_balances"))}

    def age(self, marks):
        """Funding moved on: positions settled before owe the new funding, but what they owed before is booked."""
        return frozenset(("old",) + x[1:] if x[0] == "fs" else x for x in marks)

    def who(self, an, st, t):
        """(account, what the position was looked up by: nothing for a fresh slot)"""
        keys = set()
        if t.op == "ref":
            for p in t.args[1]:
                for y in subterms(p) if isinstance(p, Term) else ():
                    if y.op == "call" and str(y.args[0]).endswith("Iterator::position") or y.op == "idxof":
                        for z in (y.args[1] if y.op == "call" else ()):
                            if z.op == "agg" and "closure" in str(z.args[0]):
                                keys |= {self.D(an.full_deref(st, v)) for v in z.args[2]}
        return self.D(t), frozenset(keys)

    def on_call(self, an, st, fr, name, res, args, site):
        f = str(res).split("::")[-1]
        if res not in an.prog.fns:
            return None
        if str(res).startswith("state::mango_account_components::PerpPosition"):
            who, keys = self.who(an, st, args[0])
            if f == "settle_funding":
                return st.marks | {("fs", who, keys)}
            if f in NEED:
                at = (f, fr.prep.path.split("::")[-1])
                self.sites.add(at)
                if not any((x[0] == "fs" or x[0] == "old" and f not in ("change_base_position", "record_trade")) and x[1] == who and (x[2] == keys or not x[2] or not keys) for x in st.marks):
                    self.bad.setdefault(at, self.D(args[0])[:80])
        elif f == "deactivate_perp_position":
            self.sites.add((f, ""))
            if not any(x[0] in ("fs", "old") for x in st.marks):
                self.bad.setdefault((f, ""), self.D(args[0])[:80])
        elif f == "update_funding_and_stable_price":
            self.updates.add((self.D(an.full_deref(st, args[1]))[:200], self.D(an.full_deref(st, args[2]))[:200], is_now(args[3]) and self.D(args[3]).endswith("unix_timestamp")))
            return self.age(st.marks) | {("upd",)}
        elif f == "new_order" and "Orderbook" in str(res):
            self.orders.add(("upd",) in st.marks)
        elif f == "socialize_loss" and "PerpMarket" in str(res):
            return self.age(st.marks)


def instruction(c, ix):
    r = Funding(c.prog)
    an, oks = run_entry(c.prog, ix, r)
    yield ("cov", "position changes", len(r.sites))
    for at in sorted(r.sites):
        if at not in r.bad:
            yield ("ok", "settled:%s:%s:%s" % ((ix,) + at))
    for at, what in sorted(r.bad.items()):
        yield ("bad", "unsettled:%s:%s:%s" % ((ix,) + at), "%s calls %s in %s on %s without settling its funding before" % (ix, at[0], at[1], what), "instruction " + ix)
    if ix in PLACE or ix == "perp_update_funding":
        good = r.updates and all(b == "Orderbook{bids, asks}" and o.startswith("oracle_state_unchecked(from_reader(air(oracle))") and t for b, o, t in r.updates)
        yield ("ok", "update:" + ix) if good else ("bad", "update:" + ix, "%s updates funding with %s" % (ix, sorted(r.updates)), "instruction " + ix)
    if ix in PLACE or r.orders:
        yield ("ok", "order:" + ix) if r.orders == {True} else ("bad", "order:" + ix, "%s places orders %s" % (ix, "without a funding update" if r.orders else "nowhere"), "instruction " + ix)


def check(c):
    formulas(c)
    ws = writers(c.prog, set(WRITERS))
    for f, want in WRITERS.items():
        got = {x[0] for x in ws.get(f, ())}
        c.need(got == want, "writers:" + f, "%s is written by %s" % (f, sorted(got ^ want)), "program")
    ch = changers(c.prog, set(FUNDING))
    for f, want in FUNDING.items():
        c.need(set(ch.get(f, ())) == want, "changers:" + f, "%s can change in %s" % (f, sorted(set(ch.get(f, ())) ^ want)), "program")
    c.pmap(lambda ix: instruction(c, ix), c.entries())
    c.floor("position changes", c.cov.get("position changes", 0), 8)
