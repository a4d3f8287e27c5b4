"""Liquidation amounts: what each liquidation step moves, and how it is bounded."""
import functools
from fractions import Fraction
from ctx import *
from terms import T, Term
import guards

META = dict(
    title="Liquidations transfer the defined amounts, within every bound",
    statement="Token liquidation moves max(0, min(the amount that brings LiquidationEnd health to zero, what the liquidatee's positive asset balance can pay, its debt by position and by health, the liquidator's maximum)) of the debt, "
              "and takes from the liquidatee that value times (1+liab fee+liab platform fee)*(1+asset fee+asset platform fee), of which the liquidator gets the part with liquidation fees only and the bank books the rest as fees; it needs a "
              "positive asset and a negative liability position and balance, a nonzero maximum and a bank that allows asset liquidation. Perp base liquidation reduces the base towards zero, never past it nor past the liquidator's maximum, at the oracle price less "
              "(long) or plus (short) the fees, in the staged amounts that bring LiquidationEnd health back, and takes over positive pnl up to the liquidator's maximum at a discount of the pnl liquidation fee. Negative perp pnl is settled up to "
              "the liquidatee's settle limit, settle health and the liquidator's maximum; bankruptcies, of tokens and of perps, use the insurance fund first (only for eligible markets and tokens, rounded up, at the price with liquidation fee, at most the vault), and socialize a loss "
              "only for what remains once the fund is exhausted.",
    q=(["inputs"], "Every account, bank, market and price state, every amount and bound (rounding of the fixed-point operations aside)."),
    files=["programs/mango-v4/src/instructions/token_liq_with_token.rs", "programs/mango-v4/src/instructions/token_liq_bankruptcy.rs", "programs/mango-v4/src/instructions/perp_liq_base_or_positive_pnl.rs",
           "programs/mango-v4/src/instructions/perp_liq_negative_pnl_or_bankruptcy.rs"],
    mechanism=[("liquidation_action", "instructions/token_liq_with_token.rs"), ("liquidation_action", "instructions/perp_liq_base_or_positive_pnl.rs"),
               ("liquidation_action", "instructions/perp_liq_negative_pnl_or_bankruptcy.rs"), ("token_liq_bankruptcy", "instructions/token_liq_bankruptcy.rs")],
    technique="symbolic normal forms of transferred amounts over MIR dataflow, compared per path with the defined formulas")
LEVEL = "other"
RULE = ("The arguments of every balance-changing call in the liquidation functions are reduced to polynomials with min/max over named state; each must equal the defined formula under the branch facts of its path, the calls must be the defined ones "
        "for the defined parties, and guarded steps need their guarding facts.")
NOTES = "Exact polynomial identities: rounding in fixed-point divisions is not modelled. The staged perp base reduction is replayed per path with the stage conditions the path establishes."

MOVES = ("deposit", "deposit_with_dusting", "withdraw_with_fee", "withdraw_without_fee", "withdraw_without_fee_with_dusting")
ZERO = "spot_amount_given_for_health_zero"


class LDesc(guards.Desc):
    """A borrow whose source may have been touched meanwhile keeps its name; literals below find their state by name."""

    def go(self, t, d):
        if t.op == "aliased":
            return self(t.args[0], d + 1)
        if t.op == "agg" and str(t.args[0]).endswith("DynamicAccount") and len(t.args[2]) == 3:
            return self(t.args[2][1], d + 1)
        if t.op == "call" and str(t.args[0]).split("::")[-1] == "token_info_index" and len(t.args[1]) == 2:
            return "index(%s)" % self(t.args[1][1], d + 1)
        if t.op == "fld" and isinstance(t.args[1], Term) and t.args[1].op == "idx":
            return "%s[%s]" % (self(t.args[0], d + 1), self(t.args[1].args[0], d + 1))
        return guards.Desc.go(self, t, d)


def rule(c, opaque, framed, fns=(), keep=("",), watch=(), ext=()):
    import amounts
    return amounts.AmountRule(c.prog, set(opaque) | set(framed), framed, keep=keep, fns=fns, watch=watch, desc=LDesc, ext=ext)


def name(s):
    return s.replace("'", "")


class Calls(object):
    """The calls of a rule, each to be accounted for."""

    def __init__(self, c, r, w, tag):
        self.c, self.r, self.w, self.tag = c, r, w, tag
        self.n = 0
        self.memo = {}

    def never(self, l):
        """No such path."""
        import logic
        if l not in self.memo:
            self.memo[l] = logic.refuted(l)
        return self.memo[l]

    def known(self, l, x):
        import logic
        if x in l:
            return True
        if (l, x) not in self.memo:
            self.memo[l, x] = logic.implied(l, [[x]])
        return self.memo[l, x]

    def check(self, f, want, skip=None):
        """want: {first arguments (names): amount in the next argument}; an amount is a polynomial, a function of the literals, or a
        list of (label, polynomial or function, literals that must hold) of which each call is one and which all occur."""
        import logic, amounts, alg
        c, tag = self.c, self.tag
        got = set()
        for d, ps, m in sorted(self.r.calls.get(f, ()), key=str):
            l = amounts.lits(m)
            if self.never(l):
                continue
            d = tuple(map(name, d))
            if skip and skip(d):
                continue
            k = next((k for k in want if d[:len(k)] == k), None)
            self.n += 1
            if k is None:
                c.bad("party:%s:%s:%s" % (tag, f, ",".join(d[:2])[:80]), "%s calls %s for %s" % (tag, f, ", ".join(d[:2])[:200]), self.w)
                continue
            opts = want[k] if isinstance(want[k], list) else [("", want[k], ())]
            ev = lambda v: v(l) if callable(v) else v
            vals = [(o, ev(o[1])) for o in opts]
            hit = [o for o, v in vals if amounts.eqv(ps[len(k)], v)] or [o for o, v in vals if amounts.eqv(ps[len(k)], v, l)]
            c.need(bool(hit), "amount:%s:%s:%s" % (tag, f, k[-1]), "%s: %s for %s moves %s" % (tag, f, ", ".join(k), alg.text(logic.resolve(dict(ps[len(k)]), l))[:700]), self.w)
            ok = any(all(self.known(l, x) for x in ev(o[2])) for o in hit)
            c.need(bool(ok) or not hit, "facts:%s:%s:%s" % (tag, f, k[-1]), "%s calls %s for %s%s without the conditions for it" % (tag, f, ", ".join(k), "".join(" (%s)" % o[0] for o in hit if o[0])), self.w)
            got |= {(k, o[0]) for o in hit}
        for k in want:
            for o in want[k] if isinstance(want[k], list) else [("",)]:
                if (k, o[0]) not in got:
                    c.bad("missing:%s:%s:%s:%s" % (tag, f, k[-1], o[0]), "%s never calls %s for %s %s" % (tag, f, ", ".join(k), o[0]), self.w)


def token(c):
    import logic, amounts, alg
    V, vmin, vmax = logic.V, logic.vmin, logic.vmax
    path = c.find_fn("token_liq_with_token::liquidation_action")
    mut = MOVES + ("adjust_token_balance",)
    r = rule(c, ("banks_mut_and_oracles", "emit_stack", "token_info", "effective_token_balances", "token_info_index", "health", "has_phase2_liquidatable", "native", "deactivate_token_position_and_log", "asset", "liab"), mut, keep=("native(", "spot_and_perp", "asset_liquidation"))
    an, outs = r.run_fn(c, path)
    w = c.where(path)
    oks = [(s, rv) for s, rv in outs if not is_err(rv)]
    c.need(oks, "exits:token", "no successful exit", w)
    A, L = "bank(asset_token_index)", "bank(liab_token_index)"
    pa, pl = V("price(asset_token_index)"), V("price(liab_token_index)")
    one = V(1)
    fee = lambda *f: (one + sum((V(L + "." + x) for x in f), V(0))) * (one + sum((V(A + "." + x) for x in f), V(0)))
    ffl, fft = fee("liquidation_fee"), fee("liquidation_fee", "platform_liquidation_fee")
    bal = lambda i: V("effective_token_balances(liqee_health_cache, LiquidationEnd{})[index(%s)].spot_and_perp" % i)
    na, nl = V("native(found().0, %s)" % A), V("native(found().0, %s)" % L)
    llep = V("liab(token_info(liqee_health_cache, liab_token_index).prices, LiquidationEnd{})")
    lopa = pl * fft
    h = V("liqee_liq_end_health")
    maxl = vmax(0, vmin(V("max_liab_transfer"), -nl, -bal("liab_token_index")))
    maxa = vmax(0, vmin(na, bal("asset_token_index")))
    needed = -h / (llep * V(L + ".init_liab_weight") - lopa * V(A + ".init_asset_weight"))
    possible = maxa * pa / lopa
    liab = vmax(0, vmin(needed, possible, maxl))
    base = liab * pl / pa
    k = Calls(c, r, w, "token_liq_with_token")
    E, R = "liqee.dynamic.Token", "liqor.dynamic.Token"
    k.check("deposit_with_dusting", {(L, E): liab})
    k.check("withdraw_with_fee", {(L, R): liab})
    k.check("deposit", {(A, R): base * ffl})
    k.check("withdraw_without_fee_with_dusting", {(A, E): base * fft})
    k.check("withdraw_without_fee", {})
    for f in MOVES:
        for d, ps, m in r.calls.get(f, ()):
            l = amounts.lits(m)
            for i, x in enumerate((na > 0, nl < 0, maxl > 0, maxa > 0)):
                c.need(logic.implied(l, [[x]]), "fact:token:%d" % i, "token_liq_with_token moves tokens without knowing %s" % ("the asset position is positive", "the liability position is negative", "liability can be taken", "assets can be given")[i], w)
            c.need(logic.implied(l, [[V(A + ".disable_asset_liquidation").eq(0)]]) or logic.txt("allows_asset_liquidation(%s)" % A) in l,
                   "fact:token:allowed", "token_liq_with_token takes assets of a bank without testing whether it allows that", w)
    for s, rv in oks:
        for f in ("collected_fees_native", "collected_liquidation_fees"):
            got = written(an, r, s, f)
            want = base * fft - base * ffl
            c.need(set(got) == {A} and amounts.eqv(alg.key(got[A]), V(A + "." + f) + want, amounts.lits(s.marks)), "fee:token:" + f, "token_liq_with_token makes %s %s" % (f, {k: alg.text(v)[:300] for k, v in got.items()}), w)
    p = c.find_fn("allows_asset_liquidation")
    r2, o2, old, new = logic.formula(c, p)
    for l, rv, st in o2:
        b = rv.args[0] if rv.op == "int" else None
        yes = logic.lit(r2.x, rv, True) if b is None else None
        c.need(yes == V("self.disable_asset_liquidation").eq(0), "def:allows", "allows_asset_liquidation is %s" % r2.D(rv), c.where(p))
    return k.n


def written(an, r, s, f):
    """What the fields of that name end with: {object name: polynomial}."""
    out = {}
    for root, m in s.mem.items():
        for p in m:
            if p and p[-1] == f:
                v = an.read(s, (root, p))
                x = r.x.poly(v)
                b = r.D(root) if root.op != "obj" else r.D(root.args[0])
                if alg_text(x) != b + "." + f:
                    out[b] = x
    return out


def alg_text(p):
    import alg
    return alg.text(p)


def negative(c):
    import logic, amounts, alg
    V, vmin, vmax, fn = logic.V, logic.vmin, logic.vmax, logic.fn
    path = c.find_fn("perp_liq_negative_pnl_or_bankruptcy::liquidation_action")
    w = c.where(path)
    mut = ("settle_funding", "update_settle_limit", "record_settle", "record_liquidation_quote_change", "deposit", "withdraw_without_fee", "withdraw_with_fee", "adjust_token_balance", "socialize_loss")
    r = rule(c, ("unsettled_pnl", "apply_pnl_settle_limit", "perp_max_settle", "effective_token_balances", "token_info_index", "emit_stack", ZERO, "token_position_mut", "ensure_token_position"), mut, fns=(ZERO,))
    an, outs = r.run_fn(c, path)
    oks = [(s, rv) for s, rv in outs if not is_err(rv)]
    c.need(oks, "exits:negative", "no successful exit", w)
    E, R = "liqee.dynamic.Perp", "liqor.dynamic.Perp"
    pt = "unsettled_pnl(%s, perp_market, perp_oracle_price)" % E
    pnl, able = V(pt), V("apply_pnl_settle_limit(%s, perp_market, %s)" % (E, pt))
    limit = vmax(0, vmin(V("perp_max_settle(liqee_health_cache, perp_market.settle_token_index)"), -able))
    mx = V("max_liab_transfer")
    s = vmax(0, vmin(limit, mx))
    after = V("unsettled_pnl(%s', perp_market, perp_oracle_price)" % E)
    sp, ip = V("settle_token_oracle_price"), V("insurance_token_oracle_price")
    spf = sp * (1 + V("perp_market.base_liquidation_fee"))
    bal = V("effective_token_balances(liqee_health_cache, LiquidationEnd{})[index(perp_market.settle_token_index)].spot_and_perp")
    heal = fn(ZERO, V("liqee_liq_end_health"), bal, sp * V("settle_bank.init_asset_weight"), sp * V("settle_bank.init_liab_weight"))
    vault, elig = V("insurance_vault.amount"), V("perp_market.group_insurance_fund")

    k = Calls(c, r, w, "perp_liq_negative_pnl_or_bankruptcy")
    memo = lambda f: functools.lru_cache(None)(f)

    @memo
    def left(l, i):
        """The pnl that is left once the settlement was recorded: computed again, or known."""
        return pnl if k.known(l, s <= 0) else pnl + s if i else after
    frm = memo(lambda l, i: vmax(0, vmin(-left(l, i), heal)))
    to = memo(lambda l, i: vmax(0, vmin(frm(l, i), mx - s)))
    fund = memo(lambda l: vault if k.known(l, elig.eq(1)) else V(0))
    pay = memo(lambda l, i: vmin(fn("ceil", to(l, i) * spf / ip), fund(l)))
    taken = memo(lambda l, i: vmin(pay(l, i) * ip / spf, to(l, i)))
    rest = memo(lambda l, i: frm(l, i) - taken(l, i))
    broke = lambda l, i: [s.eq(limit), pay(l, i).eq(fund(l)), rest(l, i) > 0]
    cover = lambda l, i: [s.eq(limit), pay(l, i) > 0]
    both = lambda lab, f, cond, sg=1: [(lab, lambda l, i=i: f(l, i) if sg > 0 else -f(l, i), lambda l, i=i: cond(l, i)) for i in (0, 1)]
    settling = [s > 0, pnl < 0]
    k.check("record_settle", {(E,): [("settlement", -s, settling)] + both("insurance", taken, cover, -1) + both("socialized", rest, broke, -1)})
    k.check("record_liquidation_quote_change", {(R,): [("settlement", -s, settling)] + both("insurance", taken, cover, -1)})
    k.check("socialize_loss", {("perp_market",): both("", rest, broke, -1)})
    tok = lambda who: "token_position_mut(%s, perp_market.settle_token_index).0" % who
    ins = lambda b: "ensure_token_position(liqor, %s.token_index).0" % b
    k.check("deposit", {("settle_bank", tok("liqor")): [("settlement", s, settling)], ("settle_bank", ins("settle_bank")): both("insurance", pay, cover),
                        ("insurance_bank_opt", ins("insurance_bank_opt")): both("insurance", pay, cover)})
    k.check("withdraw_without_fee", {("settle_bank", tok("liqee")): [("settlement", s, settling)]})
    k.check("withdraw_with_fee", {})
    k.check("adjust_token_balance", {("liqee_health_cache", "settle_bank"): -s})
    # the instruction moves from the insurance vault what the action returns
    for st, rv in oks:
        l = amounts.lits(st.marks)
        if k.never(l):
            continue
        v = logic.inner(rv)
        got = [r.x.poly(x) for x in v.args[2]] if v.op == "agg" else []
        def agrees(i):
            if len(got) != 2 or not amounts.eqv(alg.key(got[0]), s):
                return False
            if amounts.eqv(alg.key(got[1]), pay(l, i)):
                return k.known(l, s.eq(limit))
            return got[1] == {} and any(k.known(l, x) for x in (s.ne(limit), left(l, 0) >= 0, left(l, 1) >= 0))
        c.need(agrees(0) or agrees(1), "returned:negative", "the liquidation returns %s" % [alg.text(logic.resolve(g, l))[:300] for g in got], w)
    return k.n


def bankruptcy(c):
    import logic, amounts, alg
    V, vmin, fn = logic.V, logic.vmin, logic.fn
    ix = "token_liq_bankruptcy"
    r = rule(c, ("banks_mut_and_oracles", "emit_stack", "effective_token_balances", "token_info_index", "health", "native", "deactivate_token_position_and_log", "compute_health", "new_health_cache",
                 "require_after_phase2_liquidation", "maybe_recover_from_being_liquidated", "native_borrows", "ensure_token_position", "token_position_mut"), MOVES + ("adjust_token_balance",),
             keep=("group_insurance_fund", "banks_mut_and_oracles", "key(quote_vault)", ".mint"), ext=("anchor_spl::token::transfer",))
    an, outs = run_entry(c.prog, ix, r)
    w = c.where(c.find_fn("token_liq_bankruptcy::token_liq_bankruptcy"))
    L = "bank(liab_mint_info.token_index)"
    E, R = "token_position_mut(liqee, liab_mint_info.token_index).0", "ensure_token_position(liqor, %s).0"
    loss = vmin(-V("native(%s, %s)" % (E, L)), -V("effective_token_balances(cache(liqee), LiquidationEnd{})[index(liab_mint_info.token_index)].spot_and_perp"))
    elig, vault = V("liab_mint_info.group_insurance_fund"), V("insurance_vault.amount")
    # the insurance token's bank is looked up among the accounts, and named after where it was found
    xs = sorted({name(d[0])[5:-1] for d, ps, m in r.calls.get("deposit", ())})
    c.need(xs, "missing:bankruptcy:deposit", "token_liq_bankruptcy never deposits insurance tokens", w)
    k = Calls(c, r, w, ix)

    def ratio(x):
        return V("price(liab_mint_info.token_index)") * (1 + V(L + ".liquidation_fee")) / V("price(%s)" % x) if x else V(1)

    def other(l):
        """The token whose bank was handed out next to the liability's, or none."""
        for x in xs:
            for t, yes in l:
                if t[0] == "txt" and t[1].startswith("disc banks_mut_and_oracles(") and t[1].endswith((", %s).2 == 1" % x, ", %s).2 == 0" % x)):
                    return x if yes == t[1].endswith("1") else None
        c.bad("selection:bankruptcy", "token_liq_bankruptcy moves tokens without knowing whether the insurance token is the liability token", w)
        return None

    def fund(l):
        e, n = k.known(l, elig.eq(1)), k.known(l, elig.ne(1))
        c.need(e or n, "eligible:bankruptcy", "token_liq_bankruptcy pays insurance without knowing whether the token is eligible", w)
        return vault if e else V(0)
    pay = functools.lru_cache(None)(lambda l, x: vmin(fn("ceil", vmin(loss, V("$max_liab_transfer")) * ratio(x)), fund(l)))
    liab = lambda l: pay(l, other(l)) / ratio(other(l))
    k.check("deposit", {("bank(%s)" % x, R % x): [("", lambda l, x=x: pay(l, x), [(V("bank(%s).vault" % x)).eq(V("key(quote_vault)")), V("bank(%s).mint" % x).eq(V("insurance_vault.mint"))])] for x in xs})
    k.check("withdraw_with_fee", {(L, R % "liab_mint_info.token_index"): liab})
    k.check("withdraw_without_fee", {})
    k.check("withdraw_without_fee_with_dusting", {})
    k.check("deposit_with_dusting", {(L, E): liab}, skip=lambda d: d[0].startswith("split_at(") and d[1] == E)  # the others are the socialization's
    k.check("transfer", {("CpiContext{ai(token_program), Transfer{ai(insurance_vault), ai(quote_vault), ai(group)}, local}",): lambda l: pay(l, other(l))})
    return k.n


def perp_base(c):
    import logic, amounts, alg
    V, vmin, vmax, fn = logic.V, logic.vmin, logic.vmax, logic.fn
    path = c.find_fn("perp_liq_base_or_positive_pnl::liquidation_action")
    w = c.where(path)
    tag = "perp_liq_base_or_positive_pnl"
    moves = ("record_trade", "record_settle", "record_liquidation_pnl_takeover", "deposit", "deposit_with_dusting", "withdraw_with_fee", "withdraw_without_fee", "withdraw_without_fee_with_dusting",
             "record_liquidation_quote_change", "adjust_token_balance")
    r = rule(c, (ZERO, "emit_stack", "token_info", "effective_token_balances", "token_info_index", "health", "perp_info", "settle_limit", "unsettled_pnl", "health_contribution", "asset_weighted_price",
                 "liab_weighted_price", "unweighted_health_unsettled_pnl", "deactivate_token_position_and_log"), moves + ("token_position_mut", "recompute_perp_info"), fns=(ZERO, "health_contribution"), watch=moves)
    an, outs = r.run_fn(c, path)
    oks = [(s, rv) for s, rv in outs if not is_err(rv)]
    c.need(oks, "exits:perp_base", "no successful exit", w)
    E, R = "liqee.dynamic.Perp", "liqor.dynamic.Perp"
    M = lambda f: V("perp_market." + f)
    end = "LiquidationEnd{}"
    info = "perp_info(liqee_health_cache, perp_market.perp_market_index)"
    ti = "token_info(liqee_health_cache, perp_market.settle_token_index)"
    price = V(info + ".base_prices.oracle")
    lot = M("base_lot_size") * price
    lots, held = V(E + ".base_position_lots"), fn("abs", V(E + ".base_position_lots"))
    most, asked = fn("abs", V("max_base_transfer")), V("max_base_transfer")
    maxpnl = V("max_pnl_transfer")
    weight, gain = M("init_overall_asset_weight"), 1 - M("positive_pnl_liquidation_fee")
    wa, wl = V("asset_weighted_price(%s, %s)" % (ti, end)), V("liab_weighted_price(%s, %s)" % (ti, end))
    hc = lambda x: fn("health_contribution", V(ti), V(end), x)
    k = Calls(c, r, w, tag)
    # the staged formulas nest: path conditions are only reasoned about while they are short, longer ones are looked up
    never = lambda l: small(l) and k.never(l)
    known = lambda l, x: x in l or small(l) and k.known(l, x)
    start = None
    for d, ps, m in r.calls.get("effective_token_balances", ()):
        start = V("effective_token_balances(liqee_health_cache, %s)[found()].spot_and_perp" % end)
    uhupnl = V("unweighted_health_unsettled_pnl(%s, %s)" % (info, end))
    half = V(Fraction(-1, 2))

    def stages(l, depth=0):
        """(literals, base lots, pnl, fee factors) of the defined stages; conditions the path leaves open are taken both ways."""
        out = []

        def split(l, x, yes, no):
            n = (x[0], not x[1])
            if x in l or n in l:
                return yes(l) if x in l else no(l)
            if known(l, x):
                return yes(l)
            if known(l, n):
                return no(l)
            for e, f in ((x, yes), (n, no)):
                l2 = l | {e}
                if not never(l2):
                    f(l2)

        def both(l, x, y, yes, no):
            split(l, x, lambda l: split(l, y, yes, no), no)

        def reduce(s, limit, expected, actual, per):
            base, pnl, u, h, t = s
            m = fn(ZERO, h, t, wa, wl)
            m = vmin(m, limit)
            n = vmax(0, vmin(fn("ceil", m / expected), held - base, most - base))
            t2 = t + actual * n
            return (base + n, pnl, u + per * n, h - hc(t) + hc(t2), t2)

        def settle(s):
            base, pnl, u, h, t = s
            per = gain - weight
            n = vmax(0, vmin(fn(ZERO, h, t, wa, wl) / per, maxpnl - pnl, u))
            t2 = t + n * per
            return (base, pnl + n, u - n, h - hc(t) + hc(t2), t2)

        def run(l, long):
            f1 = 1 - M("base_liquidation_fee") if long else 1 + M("base_liquidation_fee")
            f2 = f1 - M("platform_liquidation_fee") if long else f1 + M("platform_liquidation_fee")
            per = lot * (f2 - M("init_base_asset_weight")) if long else lot * (M("init_base_liab_weight") - f2)
            s = (V(0), V(0), uhupnl, V("liqee_liq_end_health"), start)
            done = lambda l, s: out.append((l, -s[0] if long else s[0], s[1], f1, f2))
            five = lambda l, s: both(l, s[3] < half, weight > 0, lambda l: done(l, reduce(s, V(Fraction(2 ** 127 - 1, 2 ** 48)), per * weight, per * weight, per)), lambda l: done(l, s))
            four = lambda l, s: both(l, s[2] >= 0, gain > weight, lambda l: five(l, settle(s)), lambda l: five(l, s))
            three = lambda l, s: both(l, s[2] >= 0, s[1] < maxpnl, lambda l: four(l, reduce(s, maxpnl - s[1], per * gain, per * weight, per)), lambda l: four(l, s))
            two = lambda l, s: both(l, s[2] >= 0, gain > weight, lambda l: three(l, settle(s)), lambda l: three(l, s))
            split(l, s[2] < 0, lambda l: two(l, reduce(s, -s[2], per, per, per)), lambda l: two(l, s))
        split(l, lots > 0, lambda l: run(l, True), lambda l: run(l, False))
        return out
    stages = functools.lru_cache(None)(stages)
    cond_ok = lambda l, amt, cond: not amt.p or known(l, cond)
    small = lambda l: sum(len(repr(x)) for x in l) < 30000
    same = lambda p, v, l: amounts.eqv(p, v) or small(l) and amounts.eqv(p, v, l)
    tok = lambda who: "token_position_mut(%s, perp_market.settle_token_index).0" % who

    def limits(l, pnl, i):
        one = vmax(0, fn("ceil", V(E + ".oneshot_settle_pnl_allowance")))
        rec = vmax(0, V("settle_limit(%s, perp_market).1" % E) - one)
        have = vmax(1, fn("ceil", V("unsettled_pnl(%s, perp_market', %s)" % (E, info + ".base_prices.oracle"))))
        s = fn("floor", pnl)
        tot = vmax(have, s)
        top = fn("ceil", pnl)
        a = vmax(1, vmin(rec * s / tot, top))
        return a if i == 0 else vmax(0, vmin(one * s / tot, top - a))
    quote = lambda b, f: -b * lot * f
    want = {"record_trade": {(E, "perp_market"): ("base", [lambda l, b, p, f1, f2: b, lambda l, b, p, f1, f2: quote(b, f2)]),
                             (R, "perp_market"): ("base", [lambda l, b, p, f1, f2: -b, lambda l, b, p, f1, f2: -quote(b, f1)])},
            "record_settle": {(E,): ("pnl", [lambda l, b, p, f1, f2: p])},
            "record_liquidation_pnl_takeover": {(R,): ("pnl", [lambda l, b, p, f1, f2: p, lambda l, b, p, f1, f2: limits(l, p, 0), lambda l, b, p, f1, f2: limits(l, p, 1)])},
            "deposit": {("settle_bank", tok("liqee")): ("pnl", [lambda l, b, p, f1, f2: p * gain])},
            "withdraw_without_fee": {("settle_bank", tok("liqor")): ("pnl", [lambda l, b, p, f1, f2: p * gain])},
            "adjust_token_balance": {("liqee_health_cache", "settle_bank"): ("pnl", [lambda l, b, p, f1, f2: p * gain])}}
    WORD = {"base": "base lots and quote", "pnl": "positive pnl"}
    done = {}
    for f in moves:
        got = set()
        for d, ps, m in sorted(r.calls.get(f, ()), key=str):
            l = amounts.lits(m)
            d = tuple(map(name, d))
            g = next((x for x in want.get(f, {}) if d[:len(x)] == x), None)
            if g is None:
                never(l) or c.bad("party:%s:%s:%s" % (tag, f, ",".join(d[:2])[:80]), "%s calls %s for %s" % (tag, f, ", ".join(d[:2])[:200]), w)
                continue
            k.n += 1
            kind, vals = want[f][g]
            for st in stages(l):
                if all(same(ps[len(g) + i], v(*st), st[0]) for i, v in enumerate(vals)):
                    got.add(g)
                elif never(l):
                    continue
                if c.viol:
                    return k.n
                for i, v in enumerate(vals):
                    c.need(same(ps[len(g) + i], v(*st), st[0]), "amount:%s:%s:%s:%d" % (tag, f, g[-1], i), lambda: "%s: %s for %s moves %s" % (tag, f, ", ".join(g), alg.text(dict(ps[len(g) + i]))[:500]), w)
                if kind == "base":
                    sign = asked >= 0 if (lots > 0) in st[0] else asked <= 0
                    c.need(known(st[0], sign), "sign:%s" % tag, "%s trades against the direction of the requested transfer" % tag, w)
        for g in want.get(f, {}):
            c.need(g in got, "missing:%s:%s:%s" % (tag, f, g[-1]), "%s never calls %s for %s" % (tag, f, ", ".join(g)), w)
    # every successful path: what was moved, is; the platform keeps the difference
    seen = set()
    for s, rv in oks:
        l = amounts.lits(s.marks)
        did = {(x[1], name(x[2])) for x in s.marks if not isinstance(x, str) and x[0] == "did"}
        v = logic.inner(rv)
        res = [r.x.poly(x) for x in v.args[2]] if v.op == "agg" else []
        fees = written(an, r, s, "fees_accrued"), written(an, r, s, "accrued_liquidation_fees")
        for st in stages(l):
            l2, b, p, f1, f2 = st
            if c.viol:
                return k.n
            fee = vmax(0, quote(b, f1) - quote(b, f2))
            need = lambda ok, *a: c.need(ok or never(l), *a)
            for i, x in enumerate((b, quote(b, f2), -quote(b, f1), fee, p)):
                need(len(res) == 7 and same(alg.key(res[i]), x, l2), "returned:%s:%d" % (tag, i), lambda: "%s returns %s" % (tag, alg.text(res[i])[:400] if i < len(res) else "nothing"), w)
            for fl, g in zip(("fees_accrued", "accrued_liquidation_fees"), fees):
                if g == {}:
                    need(same((), fee, l2), "fee:%s:%s" % (tag, fl), lambda: "%s books no %s" % (tag, fl), w)
                else:
                    need(set(map(name, g)) == {"perp_market"} and same(alg.key(list(g.values())[0]), V("perp_market." + fl) + fee, l2), "fee:%s:%s" % (tag, fl), lambda: "%s makes %s %s" % (tag, fl, {a: alg.text(x)[:400] for a, x in g.items()}), w)
            for kind, amt, cond in (("base", b, b.eq(0)), ("pnl", p, p <= 0)):
                for f in want:
                    for g, (kd, vals) in want[f].items():
                        if kd == kind and (f, g[0]) not in did:
                            need(cond_ok(l2, amt, cond), "skipped:%s:%s" % (tag, f), "%s finishes without %s although %s move" % (tag, f, WORD[kind]), w)
    return k.n


def check(c):
    n = perp_base(c) + token(c) + negative(c) + bankruptcy(c)
    c.floor("liquidation transfers", n, 30)
