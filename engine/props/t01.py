"""Token conditional swaps."""
import re
from fractions import Fraction
from ctx import *
import alg, amounts

META = dict(
    title="Conditional swaps trade only as their owner allowed, for what they promise",
    statement="A token conditional swap is traded only when it is configured, not expired and triggerable (fixed premium: oracle price within its limits; auctions: once started), by a liqor that is another account and not in liquidation. It trades at the type's premium price "
              "(fixed rate; rate growing linearly from the start to the duration's end; linear from the lower to the upper limit), the owner paying that price * (1 + maker fee rate) and the taker getting it less the taker fee, the difference being booked as the bank's fees; "
              "never more than the remaining buy and sell amounts, the amounts the triggerer gave, the deposits and borrows the owner's flags allow and reduce-only banks permit, nor below the triggerer's minimum taker price and minimum bought amount. Bought and sold amounts "
              "are recorded and never pass the maximum; the owner's health is checked before and after, and the liqor's after. The slot is freed, releasing both token positions, exactly when no further trade is possible at the price, health got worse and is below the threshold, "
              "or it is cancelled or expired. Starting is allowed once, for startable types in range, and pays the incentive out of what remains to be sold. Creating takes fee rates, tokens and a new id from the banks and account and holds both positions in use; "
              "only the swap's recorded banks and id are accepted.",
    q=(["inputs", "histories"], "Every swap, account, bank, price and time, whatever sequence of create, start, trigger and cancel calls."),
    files=["programs/mango-v4/src/state/token_conditional_swap.rs", "programs/mango-v4/src/instructions/token_conditional_swap_trigger.rs", "programs/mango-v4/src/instructions/token_conditional_swap_start.rs",
           "programs/mango-v4/src/instructions/token_conditional_swap_create.rs", "programs/mango-v4/src/instructions/token_conditional_swap_cancel.rs", "programs/mango-v4/src/lib.rs"],
    mechanism=[("TokenConditionalSwap", "state/token_conditional_swap.rs"), ("action, trade_amount", "instructions/token_conditional_swap_trigger.rs"), ("token_conditional_swap_start", "instructions/token_conditional_swap_start.rs"),
               ("token_conditional_swap_create", "instructions/token_conditional_swap_create.rs"), ("token_conditional_swap_cancel", "instructions/token_conditional_swap_cancel.rs")],
    technique="exact formulas, effect tables and call arguments of the swap functions and instructions, compared as polynomials over MIR dataflow")
LEVEL = "other"
RULE = ("The price, fee and limit functions compute exactly the stated formulas; every successful exit of the trade and of each instruction is one of the listed cases, is reached under the stated conditions, changes exactly the stated places "
        "and makes exactly the stated transfers, health checks and releases.")
NOTES = "Floating point arithmetic is read as exact, and casts to integers as keeping the value; the account slot accessors are taken as giving the slot of the index they are passed."

F1 = 0x3FF0000000000000 >> 48    # 1.0 as the analysis reads its bits
TOP = Fraction(2 ** 64 - 1, 2 ** 48)     # likewise u64::MAX


def disc(x, n):
    import logic
    return logic.txt("disc %s == %d" % (x, n))


def clamp(x):
    """[(literals, x clamped to an unsigned integer)]"""
    import logic
    V = logic.V
    top = V(TOP)
    lo, hi = V(x) <= V(0), V(x) >= top
    neg = lambda l: (l[0], not l[1])
    return [((lo,), V(0)), ((neg(lo), hi), top), ((neg(lo), neg(hi)), V(x))]


def methods(c):
    import exact, logic
    V, fn, vmin, txt = logic.V, logic.fn, logic.vmin, logic.txt
    neg = lambda l: (l[0], not l[1])
    S = "TokenConditionalSwap::"
    H = lambda f, dnf: exact.holds(c, c.find_fn(S + f), dnf)
    X = lambda f, want, **kw: exact.check(c, c.find_fn(S + f), want, **dict(dict(ok=lambda rv: not is_err(rv)), **kw))
    val = lambda f, want, **kw: X(f, [(l, {}, None, v) for l, v in want], **kw)
    H("is_configured", [[V("self.is_configured").eq(V(1))]])
    H("is_expired", [[V("now_ts") >= V("self.expiry_timestamp")]])
    H("passed_start", [[V("self.start_timestamp") > V(0), V("now_ts") >= V("self.start_timestamp")]])
    H("allow_creating_deposits", [[V("self.allow_creating_deposits").eq(V(1))]])
    H("allow_creating_borrows", [[V("self.allow_creating_borrows").eq(V(1))]])
    H("price_in_range", [[V("price") >= V("self.price_lower_limit"), V("price") <= V("self.price_upper_limit")]])
    val("remaining_buy", [((), V("self.max_buy") - V("self.bought"))])
    val("remaining_sell", [((), V("self.max_sell") - V("self.sold"))])
    started = V("self.start_timestamp") > V(0)
    val("start_timestamp_or_now", [((started,), V("self.start_timestamp")), ((neg(started),), V("now_ts"))])
    val("maker_price", [((), V("premium_price") * (V(F1) + V("self.maker_fee_rate")))])
    val("taker_price", [((), V("premium_price") * (V(F1) - V("self.taker_fee_rate")))])
    for f in ("taker", "maker"):
        val(f + "_fee", [((), fn("floor", V("base_sell_amount") * V("self.%s_fee_rate" % f)))])

    r = exact.rule(c, {"tcs_type"}, {"tcs_type"})
    an, outs = r.run_fn(c, c.find_fn(S + "is_startable_type"))
    outs = [(s.marks, rv, s) for s, rv in outs]
    c.need(outs and logic.equivalent(logic.when(r, outs), [frozenset([disc("tcs_type(self)", 1)])]), "holds:is_startable_type", "is_startable_type holds where %s" % logic.show_dnf(r, logic.when(r, outs)), c.where(c.find_fn(S + "is_startable_type")))
    r = exact.rule(c, (), ())
    an, outs = r.run_fn(c, c.find_fn(S + "tcs_type"))
    c.need(outs and all(re.fullmatch(r"(unwrap\()?try_into\([\w:]*TokenConditionalSwapType, self\.tcs_type\)\)?", r.D(logic.inner(rv))) for s, rv in outs), "tcs_type", "tcs_type gives %s" % [r.D(rv)[:200] for s, rv in outs], c.where(c.find_fn(S + "tcs_type")))
    from props import f01
    got = f01.enum(c, "TokenConditionalSwapType")
    c.need(got == dict(FixedPremium=0, PremiumAuction=1, LinearAuction=2), "enum:TokenConditionalSwapType", "the types are %s" % got, c.where(c.find_fn(S + "tcs_type")))
    t = [disc("tcs_type(self)", i) for i in range(3)]
    start = "start_timestamp_or_now(self, now_ts)"
    begun, running = V(start) <= V("now_ts"), V("now_ts") - V("self.start_timestamp") < V("self.duration_seconds")
    part = lambda a, b: V(a) * over(V(b))
    passed = txt("passed_start(self, now_ts)")
    val("premium_price", [((t[0],), V("base_price") * (V(F1) + V("self.price_premium_rate"))),
                          ((t[1], begun), V("base_price") * (V(F1) + vmin((V("now_ts") - V(start)) * over("self.duration_seconds"), V(F1)) * V("self.price_premium_rate"))),
                          ((t[2], passed, running), V("self.price_lower_limit") + (V("now_ts") - V("self.start_timestamp")) * over("self.duration_seconds") * (V("self.price_upper_limit") - V("self.price_lower_limit"))),
                          ((t[2], passed, neg(running)), V("self.price_upper_limit"))], opaque={"tcs_type", "passed_start", "start_timestamp_or_now"}, framed={"tcs_type", "passed_start", "start_timestamp_or_now"})
    opq = dict(opaque={"tcs_type", "passed_start", "is_expired", "price_in_range", "is_startable_type"}, framed={"tcs_type", "passed_start", "is_expired", "price_in_range", "is_startable_type"})
    live, inr = neg(txt("is_expired(self, now_ts)")), txt("price_in_range(self, price)")
    only = lambda f, rows: X(f, [(l, {}) for l in rows], **opq)
    only("check_triggerable", [(t[0], live, inr), (t[1], live, passed), (t[2], live, passed)])
    only("check_startable", [(txt("is_startable_type(self)"), live, inr, V("self.start_timestamp").eq(V(0)))])

    for f, rem, pos, ok, red in (("max_buy_for_position", "remaining_buy(self)", fn("ceil", -V("buy_position")), "allow_creating_deposits(self)", "are_deposits_reduce_only(buy_bank)"),
                                 ("max_sell_for_position", "remaining_sell(self)", fn("floor", V("sell_position")), "allow_creating_borrows(self)", "are_borrows_reduce_only(sell_bank)")):
        rows = [((txt(ok), neg(txt(red))), V(rem))]
        for l, v in clamp(pos):
            rows += [(l + (neg(txt(ok)),), vmin(V(rem), v)), (l + (txt(ok), txt(red)), vmin(V(rem), v))]
        o = {"remaining_buy", "remaining_sell", "allow_creating_deposits", "allow_creating_borrows", "are_deposits_reduce_only", "are_borrows_reduce_only"}
        val(f, rows, opaque=o, framed=o, given=(V(rem) <= V(TOP),))


def over(x):
    from props import e01
    return e01.over(x)


def amount(c):
    import exact, logic
    V, fn, vmin, txt = logic.V, logic.fn, logic.vmin, logic.txt
    neg = lambda l: (l[0], not l[1])
    path = c.find_fn("token_conditional_swap_trigger::trade_amount")
    o = {"max_buy_for_position", "max_sell_for_position", "are_borrows_reduce_only", "are_deposits_reduce_only", "trade_amount_inner"}
    buy, sell = "max_buy_for_position(tcs, liqee_buy_balance, buy_bank)", "max_sell_for_position(tcs, liqee_sell_balance, sell_bank)"
    red = (txt("are_borrows_reduce_only(buy_bank)"), txt("are_deposits_reduce_only(sell_bank)"))
    free = lambda i, top: [((neg(red[i]),), None)] + [((red[i],) + l, v) for l, v in top]
    rows = []
    for lb, b in free(0, clamp(fn("floor", V("liqor_buy_balance")))):
        for ls, s in free(1, clamp(fn("ceil", -V("liqor_sell_balance")))):
            mb, ms = vmin(V("max_buy_token_to_liqee"), V(buy)), vmin(V("max_sell_token_to_liqor"), V(sell))
            rows.append((lb + ls, {}, [("trade_amount_inner", (mb if b is None else vmin(mb, b), ms if s is None else vmin(ms, s), V("sell_per_buy_price")))]))
    caps = tuple(V(x) <= V(TOP) for x in (buy, sell, "max_buy_token_to_liqee", "max_sell_token_to_liqor"))
    r, an, outs = exact.check(c, path, rows, opaque=o, framed=o, watch={"trade_amount_inner"}, given=caps, ok=lambda rv: True)
    c.need(all(re.match(r"trade_amount_inner\(", r.D(rv)) or rv.op == "agg" and all(r.D(x).startswith("trade_amount_inner(") and r.D(x).endswith(".%d" % i) for i, x in enumerate(rv.args[2])) for s, rv in outs), "amounts-result",
           lambda: "trade_amount gives %s" % [r.D(rv)[:200] for s, rv in outs], c.where(path))

    path = c.find_fn("token_conditional_swap_trigger::trade_amount_inner")
    r, an, outs = exact.check(c, path, [((V("sell_per_buy_price") > V(1),), {}), ((V("sell_per_buy_price") <= V(1),), {})], ok=lambda rv: True, cover=False)
    p = V("sell_per_buy_price")
    for s, rv in outs:
        l = amounts.lits(s.marks)
        above = (p > V(1)) in l
        afford = fn("floor", (V("max_sell") + V(1) - V(Fraction(1, 2 ** 48))) * over(p)) if above else fn("ceil", vmin(fn("floor", V("max_buy") * p), V("max_sell")) * over(p))
        buy = vmin(V("max_buy"), afford)
        sell = vmin(V("max_sell"), fn("floor", buy * p))
        v = [r.x.poly(x) for x in rv.args[2]] if rv.op == "agg" else []
        c.need(len(v) == 2 and amounts.eqv(alg.key(v[0]), buy, l) and amounts.eqv(alg.key(v[1]), sell, l), "amounts:%s" % ("above" if above else "below"),
               lambda: "trade_amount_inner gives %s, expected (%s, %s)" % (", ".join(alg.text(x) for x in v)[:600], alg.text(buy.p)[:300], alg.text(sell.p)[:300]), c.where(path))


def plain(names):
    """Descriptions that do not tell the versions of the named objects apart."""
    import exact
    pat = re.compile(r"\b(%s)'+" % "|".join(names))

    class D(exact.XDesc):
        def __call__(self, t, d=0):
            return plainly(pat.sub(r"\1", exact.XDesc.__call__(self, t, d)))
    return D


def plainly(s):
    """Loaded accounts and the account scanner by name."""
    for k in ("DynamicAccount{", "ScanningAccountRetriever{"):
        i = s.find(k)
        while i >= 0:
            d, j = 0, i + len(k) - 1
            while j < len(s):
                d += (s[j] == "{") - (s[j] == "}")
                j += 1
                if not d:
                    break
            body = s[i:j]
            names = set(re.findall(r"\b(liqee|liqor|account)\b", body))
            by = "scanner" if k[0] == "S" else next(iter(names)) if len(names) == 1 else "account?"
            s = s[:i] + by + s[j:]
            i = s.find(k, i + len(by))
    return s.replace("get().unix_timestamp", "now").replace("ctx.accounts.", "")


T = "token_conditional_swap_by_index(liqee, token_conditional_swap_index)"
M = "token_conditional_swap_mut_by_index(liqee, token_conditional_swap_index)"
OPQ = set("token_conditional_swap_by_index token_conditional_swap_mut_by_index check_triggerable check_startable premium_price maker_price taker_price taker_fee trade_amount native token_position token_position_mut ensure_token_position "
          "checked_transfer_with_fee deactivate_token_position_and_log adjust_token_balance check_health_pre check_health_post token_decrement_dust_deactivate is_configured is_expired passed_start emit_stack has_loan allow_creating_borrows "
          "remaining_sell remaining_deposits_until_limit is_startable_type".split())
WATCH = set("checked_transfer_with_fee adjust_token_balance check_health_pre check_health_post token_decrement_dust_deactivate".split())
FREE = (0, 0, 0, 0, 0, 2 ** 64 - 1, 0, 0, 0, 0, 0, 65535, 65535, 0, 0, 0)


def is_free(t):
    """A text of a slot reset to its default."""
    return re.match(r"TokenConditionalSwap\{%s, " % ", ".join(map(str, FREE)), t) is not None


def exits(c, path, opaque=(), watch=()):
    import exact, logic
    o = OPQ | set(opaque)
    r = exact.rule(c, o, o - {"checked_transfer_with_fee"}, watch=WATCH | set(watch), drop=("disc checked_", "collect(", "size_of", "try_for_each(", "cloarg("), desc=plain(["buy_bank", "sell_bank", "collected_fees_native"]))
    an, outs = r.run_fn(c, path)
    out = {}
    for s, rv in outs:
        l = amounts.lits(s.marks)
        if not is_err(rv) and not logic.refuted(l):
            out[(frozenset(l), r.D(rv), tuple(exact.did(s.marks)), tuple(sorted((k, alg.key(v)) for k, v in exact.changes(an, r, s).items())))] = (s, rv)
    return r, an, out


def trade(c):
    import exact, logic
    V, fn, txt = logic.V, logic.fn, logic.txt
    neg = lambda l: (l[0], not l[1])
    path = c.find_fn("token_conditional_swap_trigger::action")
    w = c.where(path)
    r, an, outs = exits(c, path)
    price = "(to_num(buy_token_price) / to_num(sell_token_price))"
    P = "premium_price(%s, %s, now_ts)" % (T, price)
    MP = "maker_price(%s, %s)" % (T, P)
    had = lambda acc, side: "native(%s(%s, %s.%s_token_index)%s, %s_bank)" % ("token_position" if acc == "liqee" else "ensure_token_position", acc, T, side, "" if acc == "liqee" else ".0", side)
    pos = lambda acc, side: "token_position_mut(%s, %s.%s_token_index).0" % (acc, T, side)
    now = lambda side: "native(%s', %s_bank)" % (pos("liqee", side), side)
    TR = "trade_amount(%s, %s, max_buy_token_to_liqee, max_sell_token_to_liqor, %s, buy_bank, sell_bank)" % (T, MP, ", ".join(had(a, s) for a in ("liqee", "liqor") for s in ("buy", "sell")))
    FU = "trade_amount(%s', %s, %d, %d, %s, %s, %d, %d, buy_bank, sell_bank)" % (M, MP, 2 ** 64 - 1, 2 ** 64 - 1, now("buy"), now("sell"), 2 ** 127 - 1, INT_MIN)
    pre, post = "check_health_pre(liqee, liqee_health_cache)", "check_health_post(liqee, liqee_health_cache, check_health_pre(liqee, liqee_health_cache))"
    buy, sell = V(TR + ".0"), V(TR + ".1")
    taken = fn("floor", V(P) * buy)
    fee = V("taker_fee(%s, floor((%s * %s.0)))" % (T, P, TR))
    change = V(now("sell")) - V(had("liqee", "sell"))
    calls = [("check_health_pre", ("liqee", "liqee_health_cache")),
             ("checked_transfer_with_fee", ("buy_bank", pos("liqor", "buy"), buy, pos("liqee", "buy"), buy, "now_ts", "buy_token_price")),
             ("checked_transfer_with_fee", ("sell_bank", pos("liqee", "sell"), sell, pos("liqor", "sell"), taken - fee, "now_ts", "sell_token_price")),
             ("adjust_token_balance", ("liqee_health_cache", "buy_bank", buy)), ("adjust_token_balance", ("liqee_health_cache", "sell_bank", change)), ("check_health_post", ("liqee", "liqee_health_cache", pre))]
    release = [("token_decrement_dust_deactivate", ("liqee", b + "_bank", "now_ts", "liqee_key")) for b in ("buy", "sell")]
    need = [("configured", txt("is_configured(%s)" % T)), ("unexpired", neg(txt("is_expired(%s, now_ts)" % T))), ("buy-bank", V("buy_bank.token_index").eq(V(T + ".buy_token_index"))), ("sell-bank", V("sell_bank.token_index").eq(V(T + ".sell_token_index"))),
            ("triggerable", txt("disc check_triggerable(%s, %s, now_ts) == 0" % (T, price))), ("taker-price", V("taker_price(%s, %s)" % (T, P)) >= V("min_taker_price")), ("health", txt("disc %s == 0" % post))]
    fb, fs = V(FU + ".0"), V(FU + ".1")
    above = V(MP) > V(F1)
    low = [V(post) < V(pre), V(post) < V(1000000)]
    done = [[fb.eq(V(0))], [fs.eq(V(0))], low, [above, fs < V(2) * V(MP)], [neg(above), fb < V(2 * F1) * over(MP)]]
    started = txt("passed_start(%s', now_ts)" % M)
    kinds, n = {}, 0
    for l, t, got, chg in outs:
        s, rv = outs[(l, t, got, chg)]
        n += 1
        for k, x in need:
            c.need(known(l, x), "trade:require:" + k, lambda: "a swap succeeds without the condition %s: %s" % (logic.show_dnf(r, [frozenset([x])])[:300], logic.show_dnf(r, [l])[-300:]), w)
        chg = {k: dict(v) for k, v in chg}
        closed = M in chg
        kinds[closed] = kinds.get(closed, 0) + 1
        c.need(exact.called(got, calls + (release if closed else []), l), "trade:calls:%s" % ("closed" if closed else "open"),
               lambda: "a swap that is %s makes the calls %s" % ("closed" if closed else "kept", "; ".join("%s(%s)" % (f, ", ".join(short(x) for x in a)) for f, a, k in got)[:1500]), w)
        eff = {"sell_bank.collected_fees_native": V("sell_bank.collected_fees_native") + sell - (taken - fee)}
        if closed:
            c.need(is_free(alg.text(chg.pop(M))), "trade:reset", lambda: "the closed swap's slot becomes %s" % (alg.text(dict(chg)) if 0 else t)[:300], w)
            c.need(any(all(known(l, x) for x in d) for d in done) or logic.implied(l, done), "trade:closed-early", lambda: "a swap is closed where %s" % short(logic.show_dnf(r, [l]))[-600:], w)
        else:
            eff.update({M + ".bought": V(M + ".bought") + buy, M + ".sold": V(M + ".sold") + sell})
            if not known(l, started):
                eff[M + ".start_timestamp"] = V("now_ts")
                c.need(known(l, neg(started)), "trade:start", "the start time of a running auction is overwritten", w)
            c.need(all(any(known(l, neg(x)) for x in d) for d in done), "trade:not-closed", lambda: "a swap stays open without ruling out %s" % [short(logic.show_dnf(r, [frozenset(d)]))[:200] for d in done if not any(known(l, neg(x)) for x in d)], w)
            for k, m in (("bought", "max_buy"), ("sold", "max_sell")):
                c.need(known(l, eff[M + "." + k] <= V(M + "." + m)), "trade:max:" + k, "a swap may get past its %s" % m, w)
        for k in set(chg) | set(eff):
            g, e = chg.get(k, V(k).p), eff.get(k, V(k))
            c.need(amounts.eqv(alg.key(g), e) or amounts.eqv(alg.key(g), e, l), "trade:effect:" + k.split(".")[-1][-60:], lambda: "a swap makes %s %s, expected %s" % (short(k), short(alg.text(g))[:400], short(alg.text(e.p))[:400]), w)
        v = rv
        while v.op == "agg" and len(v.args[2]) == 1:
            v = v.args[2][0]
        c.need(v.op == "agg" and len(v.args[2]) == 2 and amounts.eqv(alg.key(r.x.poly(v.args[2][0])), buy, l) and amounts.eqv(alg.key(r.x.poly(v.args[2][1])), change, l), "trade:result", lambda: "the changes %s are returned" % short(t)[:300], w)
    c.floor("ways a swap ends", len(kinds), 2)
    c.cov["exits of action compared"] = n


def short(s):
    for a, b in ((M, "TCS"), (T, "tcs"), ("(to_num(buy_token_price) / to_num(sell_token_price))", "price"), ("premium_price(tcs, price, now_ts)", "premium"), ("maker_price(tcs, premium)", "maker")):
        s = s.replace(a, b)
    return s


def known(l, x):
    import logic
    return x in l or logic.implied(frozenset(y for y in l if related(y, x)), [[x]])


def related(y, x):
    return y[0][0] == x[0][0] or "txt" not in (y[0][0], x[0][0])


def unrolled(outs):
    """A call made for the item of an array that is written out is made for each element; the exit that skips such a loop does not exist."""
    import re
    pat = re.compile(r"item\(arr\{([^{}]*)\}, site\(\)\)")
    full, res = set(), []
    for l, t, got, chg in outs:
        new = []
        for f, a, k in got:
            m = next((m for x in a for m in [pat.search(x)] if m), None)
            new += [(f, a, k)] if m is None else [(f, tuple(x.replace(m.group(0), e) for x in a), k) for e in m.group(1).split(", ")]
            full |= {(l, chg)} if m else set()
        res.append((l, t, tuple(new), chg))
    return [x for x in res if x[2] or not any(x[0] <= l and x[3] == chg for l, chg in full)]


def compare(c, tag, w, r, outs, cases, cleanup=()):
    """Every exit satisfies the conditions of exactly one case: {name: (conditions that tell it, conditions it requires, effects, calls)}."""
    import exact, logic
    V = logic.V
    seen = {}
    for l, t, got, chg in outs:
        hit = [k for k, x in cases.items() if all(y in l for y in x[0])]
        if len(hit) != 1:
            c.bad("%s:case" % tag, "%s succeeds where %s" % (tag, short(logic.show_dnf(r, [l]))[:600]), w)
            continue
        k = hit[0]
        _, need, eff, calls = cases[k]
        seen[k] = seen.get(k, 0) + 1
        for n, x in need.items():
            c.need(known(l, x), "%s:%s:require:%s" % (tag, k, n), lambda: "%s (%s) succeeds without the condition %s" % (tag, k, short(logic.show_dnf(r, [frozenset([x])]))[:300]), w)
        c.need(exact.called(got, calls, l), "%s:%s:calls" % (tag, k), lambda: "%s (%s) makes the calls %s" % (tag, k, "; ".join("%s(%s)" % (f, ", ".join(short(x) for x in a)) for f, a, q in got)[:1500]), w)
        chg = {a: dict(b) for a, b in chg}
        whole = next((a for a in eff if eff[a] is FREE), None)
        if whole is not None:
            g = chg.pop(whole, None)
            c.need(g is not None and is_free(alg.text(g)), "%s:%s:reset" % (tag, k), lambda: "%s (%s) leaves the slot as %s" % (tag, k, g is not None and alg.text(g)[:200]), w)
        for a in set(chg) | set(x for x in eff if x != whole):
            g, e = chg.get(a), eff.get(a)
            e = e(l) if callable(e) else e
            okv = g is not None and alg.text(g) == e if isinstance(e, str) else amounts.eqv(alg.key(g if g is not None else V(a).p), e if e is not None else V(a), l)
            c.need(okv, "%s:%s:effect:%s" % (tag, k, a.split(".")[-1][-60:]), lambda: "%s (%s) makes %s %s" % (tag, k, short(a)[:200], "keep its value" if g is None else short(alg.text(g))[:300]), w)
    for k in set(cases) - set(seen):
        c.bad("%s:case:%s" % (tag, k), "%s has no successful path of the kind %s" % (tag, k), w)
    c.cov["exits of instructions compared"] = c.cov.get("exits of instructions compared", 0) + sum(seen.values())


def instructions(c):
    import exact, logic
    V, fn, vmin, vmax, txt = logic.V, logic.fn, logic.vmin, logic.vmax, logic.txt
    neg = lambda l: (l[0], not l[1])
    I = "token_conditional_swap_"
    find = lambda n: c.find_fn("%s%s::%s%s" % (I, n, I, n))
    slot, mslot = T.replace("liqee,", "%s,"), M.replace("liqee,", "%s,")
    release = lambda acc, banks: [("token_decrement_dust_deactivate", (acc, b, "now", "key(%s)" % acc)) for b in banks]
    bank = lambda side: "bank(%s.%s_token_index)" % (T, side)
    price = lambda side: "price(%s.%s_token_index)" % (T, side)

    path = find("trigger")
    r, an, outs = exits(c, path, opaque="action load_full_mut being_liquidated compute_health banks_mut_and_oracles new_health_cache".split(), watch="action compute_health new_health_cache".split())
    cache = "new_health_cache(liqee, scanner, now)"
    args = ("liqor", "key(liqor)", "liqee", "key(liqee)", cache, "token_conditional_swap_index", bank("buy"), price("buy"), "max_buy_token_to_liqee", bank("sell"), price("sell"), "max_sell_token_to_liqor", "now", "min_taker_price")
    health = "compute_health(liqor, Init{}, scanner, now)"
    expired = txt("is_expired(%s, now)" % T)
    both = {"different accounts": V("key(liqee)").ne(V("key(liqor)")), "liqor not in liquidation": neg(txt("being_liquidated(liqor)")), "configured": txt("is_configured(%s)" % T), "id": V(T + ".id").eq(V("token_conditional_swap_id"))}
    done = "action(%s)" % ", ".join(args)
    compare(c, "trigger", c.where(path), r, outs, dict(
        expired=((expired,), dict(both, **{"no minimum": V("min_buy_token").eq(V(0))}), {M: FREE}, release("liqee", (bank("buy"), bank("sell")))),
        traded=((neg(expired),), dict(both, **{"minimum bought": V(done + ".0") >= V("min_buy_token"), "liqor health": V(health) >= V(0), "swap succeeded": txt("disc %s == 0" % done)}), {},
                [("new_health_cache", ("liqee", "scanner", "now")), ("action", args), ("compute_health", ("liqor", "Init{}", "scanner", "now"))])))

    path = find("start")
    r, an, outs = exits(c, path, opaque="load_full_mut being_liquidated banks_mut_and_oracles new_health_cache".split(), watch="new_health_cache".split())
    sb, sp = bank("sell"), price("sell")
    paid = vmax(vmin(vmin(V(1000) * over(sp), V("remaining_sell(%s)" % T)), V("remaining_deposits_until_limit(%s)" % sb)), V(0))
    pos = "token_position_mut(liqee, %s.sell_token_index).0" % T
    to = "ensure_token_position(liqor, %s.sell_token_index).0" % T
    was, post = "native(%s, %s)" % (pos, sb), "native(%s', %s')" % (pos, sb)
    pre = "check_health_pre(liqee, %s)" % cache
    start_price = "(to_num(%s) / to_num(%s))" % (price("buy"), sp)
    calls = [("new_health_cache", ("liqee", "scanner", "now")), ("check_health_pre", ("liqee", cache)), ("checked_transfer_with_fee", (sb, pos, paid, to, paid, "now", sp)),
             ("adjust_token_balance", (cache, sb, V(post) - V(was))), ("check_health_post", ("liqee", cache, pre))]
    need = {"liqee not in liquidation": neg(txt("being_liquidated(liqee)")), "configured": txt("is_configured(%s)" % T), "id": V(T + ".id").eq(V("token_conditional_swap_id")),
            "startable": txt("disc check_startable(%s, %s, now) == 0" % (T, start_price)), "health": txt("disc check_health_post(liqee, %s, %s) == 0" % (cache, pre))}
    broke = V(post) < V(0)
    eff = {M + ".start_timestamp": V("now"), M + ".sold": lambda l: V(M + ".sold") + next((v for x, v in clamp(paid)[:2] if all(known(l, y) for y in x)), fn("floor", paid))}
    compare(c, "start", c.where(path), r, outs, {"from deposits": ((neg(broke),), need, eff, calls), "on credit": ((broke,), dict(need, **{"allowed to borrow": txt("allow_creating_borrows(%s)" % T)}), eff, calls)})

    path = find("cancel")
    r, an, outs = exits(c, path, opaque=("load_full_mut",))
    m = mslot % "account"
    conf = txt("is_configured(%s)" % m)
    need = {"buy bank": V(m + ".buy_token_index").eq(V("buy_bank.token_index")), "sell bank": V(m + ".sell_token_index").eq(V("sell_bank.token_index"))}
    compare(c, "cancel", c.where(path), r, outs, dict(unset=((neg(conf),), need, {}, []), set=((conf,), dict(need, id=V(m + ".id").eq(V("token_conditional_swap_id"))), {m: FREE}, release("account", ("buy_bank", "sell_bank")))))

    path = find("create")
    r, an, outs = exits(c, path, opaque="load_full_mut increment_in_use free_token_conditional_swap_mut".split(), watch=("increment_in_use",))
    new, n = "free_token_conditional_swap_mut(account)", "token_conditional_swap"
    rate = lambda k: vmax(V("buy_bank.%s_%s_fee_rate" % (n, k)), V("sell_bank.%s_%s_fee_rate" % (n, k)))
    nx = "account.next_token_conditional_swap_id"
    eff = {nx: V(nx) + V(1), new: n + "'", new + ".id": V(nx), new + ".taker_fee_rate": rate("taker"), new + ".maker_fee_rate": rate("maker"), new + ".is_configured": V(1), new + ".bought": V(0), new + ".sold": V(0)}
    need = {"different tokens": V(n + ".buy_token_index").ne(V(n + ".sell_token_index"))}
    need.update({k: V(n + "." + k) >= V(0) for k in ("price_premium_rate", "price_lower_limit", "price_upper_limit")})
    need.update({k + " fee": rate(k) >= V(0) for k in ("taker", "maker")})
    old = txt("is_expired(%s, now)" % n)
    outs = unrolled(outs)
    compare(c, "create", c.where(path), r, outs, dict(expired=((old,), {}, {}, []), new=((neg(old),), need, eff, [("increment_in_use", ("ensure_token_position(account, %s.%s_token_index).0" % (n, k),)) for k in ("buy", "sell")])))


def entries(c):
    import exact, logic
    V, vmin, txt = logic.V, logic.vmin, logic.txt
    I = "token_conditional_swap_"
    inner = {I + x for x in ("create", "trigger", "start", "cancel")}
    o = inner | {"is_ix_enabled", "stable_price"}
    new = lambda rate, lo, hi, style, intent, kind, start, dur: "TokenConditionalSwap{%s}" % ", ".join(map(str, (
        2 ** 64 - 1, "max_buy", "max_sell", 0, 0, "expiry_timestamp", lo, hi, rate, 0, 0, "buy_bank.token_index", "sell_bank.token_index", 1, "allow_creating_deposits", "allow_creating_borrows", style, intent, kind + "{}", "default()", start, dur, "rep(0)")))
    fixed = lambda style, intent: new("price_premium_rate", "price_lower_limit", "price_upper_limit", style, intent, "FixedPremium", 0, 0)
    gate = lambda n: txt("is_ix_enabled(group, TokenConditionalSwap%s{})" % n)
    dur = V("duration_seconds") >= V(1)
    worth = vmin(V("max_buy") * V("stable_price(buy_bank)"), V("max_sell") * V("stable_price(sell_bank)")) >= V(10000)
    idx = (I + "index", I + "id")
    sizes = ("max_buy_token_to_liqee", "max_sell_token_to_liqor")
    rows = dict(create=("create", (fixed("SellTokenPerBuyToken{}", "Unknown{}"),), [gate("Create")]), create_v2=("create", (fixed("display_price_style", "intention"),), [gate("Create")]),
                create_premium_auction=("create", (new("max_price_premium_rate", "price_lower_limit", "price_upper_limit", "display_price_style", "intention", "PremiumAuction", 0, "duration_seconds"),), [gate("CreatePremiumAuction"), dur]),
                create_linear_auction=("create", (new(0, "price_start", "price_end", "display_price_style", "Unknown{}", "LinearAuction", "start_timestamp", "duration_seconds"),), [gate("CreateLinearAuction"), dur, worth]),
                trigger=("trigger", idx + sizes + ("0", "0"), []), trigger_v2=("trigger", idx + sizes + ("min_buy_token", "min_taker_price"), []), start=("start", idx, []), cancel=("cancel", idx, []))
    for n, (f, args, need) in sorted(rows.items()):
        path = c.find_fn("mango_v4::" + I + n)
        r = exact.rule(c, o, o, watch=inner, desc=plain(["x"]))
        an, outs = r.run_fn(c, path)
        w, oks = c.where(path), 0
        for s, rv in outs:
            l = amounts.lits(s.marks)
            if is_err(rv) or logic.refuted(l):
                continue
            oks += 1
            got = [(g, a) for g, a, k in exact.did(s.marks)]
            c.need(got == [(I + f, ("ctx",) + args)], "entry:%s:call" % n, lambda: "%s makes the calls %s" % (n, "; ".join("%s(%s)" % (g, ", ".join(a)) for g, a in got)[:900]), w)
            for x in need:
                c.need(known(l, x), "entry:%s:require" % n, lambda: "%s succeeds without the condition %s" % (n, logic.show_dnf(r, [frozenset([x])])[:300]), w)
        c.floor("successful exits of %s" % n, oks, 1)
    names = {p.split("::")[1] for p in c.prog.fns if p.startswith("mango_v4::" + I) and len(p.split("::")) == 2}
    c.need(names == {I + n for n in rows}, "entries", "the instructions on token conditional swaps are %s" % sorted(names), "programs/mango-v4/src/lib.rs:1")


INT_MIN = 2 ** 79    # I80F48::MIN as the analysis reads its bits


def check(c):
    methods(c)
    amount(c)
    trade(c)
    instructions(c)
    entries(c)
