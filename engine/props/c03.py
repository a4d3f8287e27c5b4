"""What a liquidation or forced action requires before it may touch somebody else's account."""
from ctx import *
from guards import *
import summ

META = dict(
    title="Liquidations and forced actions touch only qualifying accounts, in phase order",
    statement="A liquidator changes another account only when that account is being liquidated and not recovered, and only in order: its perp orders are cancelled and its spot market funds settled before token-token and perp base liquidation, and everything liquidatable is gone before negative perp pnl and bankruptcy. Token liquidation takes a positive asset whose liquidation is allowed and pays a negative liability, perp base liquidation never runs with unprocessed taker fills and never lowers the account's liquidation-end health, and bankruptcy applies only to tokens that are negative both in the position and in health. Orders are force-cancelled only for liquidatable or frozen accounts or markets in force-close. Forced closing of borrows and perp positions, and forced withdrawal, need the bank's or market's force flag and the right position signs; a forced withdrawal pays only a token account of the owner.",
    q=(["inputs", "histories"], "Every account, market and bank state, oracle price and argument."),
    files=["programs/mango-v4/src/instructions/token_liq_with_token.rs", "programs/mango-v4/src/instructions/token_liq_bankruptcy.rs", "programs/mango-v4/src/instructions/perp_liq_base_or_positive_pnl.rs",
           "programs/mango-v4/src/instructions/perp_liq_negative_pnl_or_bankruptcy.rs", "programs/mango-v4/src/instructions/perp_liq_force_cancel_orders.rs",
           "programs/mango-v4/src/instructions/serum3_liq_force_cancel_orders.rs", "programs/mango-v4/src/instructions/token_force_close_borrows_with_token.rs",
           "programs/mango-v4/src/instructions/token_force_withdraw.rs", "programs/mango-v4/src/instructions/perp_force_close_position.rs", "programs/mango-v4/src/health/cache.rs"],
    mechanism=[("require_after_phase1_liquidation, require_after_phase2_liquidation", "health/cache.rs"), ("check_liquidatable", "state/mango_account.rs")],
    technique="guard dataflow over MIR: canonical branch facts on every successful path with the effect")
LEVEL = "proof"
RULE = ("For each liquidation or forced instruction, every Ok exit on which the other account changed must have decided each listed condition (canonical branch text, alternatives separated by `or`) in the required direction; "
        "the phase predicates' definitions are checked on their closures.")

C = "cache\\(%s\\)"
PHASE1 = ["^!has_serum3_open_orders_funds\\(cache\\(liqee\\)\\)$", "^!has_perp_open_orders\\(cache\\(liqee\\)\\)$"]
PHASE2 = PHASE1 + ["^!has_possible_spot_liquidations\\(cache\\(liqee\\)\\)$", "^!has_perp_base_positions\\(cache\\(liqee\\)\\)$", "^!has_perp_open_fills\\(cache\\(liqee\\)\\)$",
                   "^!has_perp_positive_pnl_no_base\\(cache\\(liqee\\)\\)$"]
NAT = "native\\((found\\(%s\\)(\\.0)?|%s), bank\\(\\%s\\)\\)"


def nat(a, b):
    return NAT % (a, a, b)


LIQ_TOKEN = [("phase", chg("liqee"), PHASE1),
             ("asset", chg("liqee"), [pos(nat("liqee", "$asset_token_index")), "^allows_asset_liquidation\\(bank\\(\\$asset_token_index\\)\\)$"]),
             ("liab", chg("liqee"), [neg(nat("liqee", "$liab_token_index"))])]
LIQ_BANKRUPT = [("phase", chg("liqee"), PHASE2),
                ("liab", chg("liqee"), ["^native\\((found\\(liqee\\)(\\.0)?|liqee), bank\\(liab_mint_info\\.token_index\\)\\) < 0$"]),
                ("healthliab", chg("liqee"), ["^effective_token_balances\\(cache\\(liqee\\), LiquidationEnd{}\\).*\\.spot_and_perp < 0$"])]


def cancel(market):
    # an account that is not in liquidation at the time of a change
    return [("qualify", lambda m: ("unliq", "account") in m, [["^get\\(\\)\\.unix_timestamp <= account\\.frozen_until$", yes(market + ".force_close")]])]


SPECS = {
    "token_liq_with_token": LIQ_TOKEN, "liq_token_with_token": LIQ_TOKEN,
    "token_liq_bankruptcy": LIQ_BANKRUPT, "liq_token_bankruptcy": LIQ_BANKRUPT,
    "perp_liq_base_or_positive_pnl": [
        ("phase", chg("liqee"), PHASE1),
        ("fills", chg("liqee"), ["^liqee\\.Perp\\.taker_base_lots == 0$", "^liqee\\.Perp\\.taker_quote_lots == 0$"]),
        ("health", chg("liqee"), ["^health\\(cache\\(liqee\\), LiquidationEnd{}\\) <= health\\(cache\\(liqee\\)'?, LiquidationEnd{}\\)$"])],
    "perp_liq_negative_pnl_or_bankruptcy_v2": [
        ("phase", chg("liqee"), PHASE2),
        ("pnl", chg("liqee"), ["^\\(.*liqee\\.Perp\\.base_position_lots.*oracle_state.*liqee\\.Perp\\.quote.* < 0$"])],
    "perp_liq_force_cancel_orders": cancel("perp_market"),
    "serum3_liq_force_cancel_orders": cancel("serum_market"),
    "token_force_close_borrows_with_token": [
        ("flag", chg("liqee"), ["^is_force_close\\(bank\\(\\$liab_token_index\\)\\)$", "^!are_borrows_reduce_only\\(bank\\(\\$asset_token_index\\)\\)$"]),
        ("weights", chg("liqee"), ["^\\(?.*bank\\(\\$asset_token_index\\)\\.init_liab_weight.* <= bank\\(\\$liab_token_index\\)\\.init_liab_weight$"]),
        ("signs", chg("liqee"), [neg(nat("liqee", "$liab_token_index")), pos(nat("liqor", "$liab_token_index"))])],
    "token_force_withdraw": [
        ("flag", chg("account"), ["^is_force_withdraw\\(bank\\)$"]),
        ("sign", chg("account"), ["^0 <= native\\(account, bank\\)$"]),
        ("target", chg("account"), [eq("account.owner", "alternate_owner_token_account.owner"), [eq("account.owner", "owner_ata_token_account.owner"), ne("account.owner", "owner_ata_token_account.owner")]])],
    "perp_force_close_position": [
        ("flag", always, [yes("perp_market.force_close")]),
        ("signs", chg("account_a"), ["^0 < account_a\\.Perp\\.base_position_lots$", "^account_b\\.Perp\\.base_position_lots < 0$"])],
}
LIQUIDATED = {"token_liq_with_token": "liqee", "liq_token_with_token": "liqee", "token_liq_bankruptcy": "liqee", "liq_token_bankruptcy": "liqee", "perp_liq_base_or_positive_pnl": "liqee",
              "perp_liq_negative_pnl_or_bankruptcy_v2": "liqee",
              "perp_liq_force_cancel_orders": "account", "serum3_liq_force_cancel_orders": "account"}


class R(GuardRule):
    """Additionally: at each change of the liqee its being_liquidated flag is known to be set."""

    def dirty(self, m, accts, what):
        a = LIQUIDATED.get(self.ix)
        if a in accts and not self.flagged(a):
            m.add(("unliq", a))
        return GuardRule.dirty(self, m, accts, what)

    def flagged(self, a):
        an, st = self.cur
        root = T("obj", T("data", T("acct", a)))
        v = an.read(st, (root, ("being_liquidated",)))
        if v.op == "int":
            return v.args[0] == 1
        f = st.facts.get(T("eq", v, I(1)))
        if f is not None and f == ("is", True):
            return True
        f = st.facts.get(T("eq", v, I(0)))
        return f is not None and f == ("is", False)

    def on_call(self, an, st, fr, *a):
        self.cur = (an, st)
        m = GuardRule.on_call(self, an, st, fr, *a)
        if a[0].startswith("anchor_spl::token::transfer") and self.ix == "token_force_withdraw":
            m = (m if m is not None else st.marks) | {("paid",)}
        return m

    def on_write(self, an, st, *a):
        self.cur = (an, st)
        return GuardRule.on_write(self, an, st, *a)

    def on_branch(self, an, st, fr, t, val):
        self.cur = (an, st)
        return GuardRule.on_branch(self, an, st, fr, t, val)

    def extra(self, ix, oks):
        a = LIQUIDATED.get(ix)
        if a == "liqee":
            if any(("unliq", a) in s.marks for s, _ in oks):
                yield ("bad", "liquidatable:" + ix, "%s can change `%s` while it is not known to be in liquidation" % (ix, a), "instruction " + ix)
            else:
                yield ("ok", "liquidatable:" + ix)


PREDICATES = {
    "has_serum3_open_orders_funds": ("serum3_infos", ["!it.has_zero_funds"]),
    "has_perp_open_orders": ("perp_infos", ["it.has_open_orders"]),
    "has_perp_base_positions": ("perp_infos", ["it.base_lots != 0"]),
    "has_perp_open_fills": ("perp_infos", ["it.has_open_fills"]),
    "has_perp_positive_pnl_no_base": ("perp_infos", ["it.base_lots == 0", "0 < it.quote"]),
}
BORROW = [{"it.0.balance_spot < 0", "it.1.spot_and_perp < 0"}]
ASSET = [{"1 <= it.0.balance_spot", "1 <= it.1.spot_and_perp", "it.0.allow_asset_liquidation"}]


def spot(c):
    """has_possible_spot_liquidations: a negative token and a liquidatable asset token."""
    path = "health::cache::HealthCache::has_possible_spot_liquidations"
    got = []
    for p in summ.closures_of(c, path):
        if c.fn(p)["argc"] == 2:
            r, o = summ.outcomes(c, p, args=[T("arg", "clo"), T("arg", "it")])
            if all(rv.op in ("int", "lt", "eq", "un", "not", "ld", "fld") for _, rv, _ in o):
                got.append(summ.dnf(r, o))
    ok = any(summ.equivalent(g, BORROW) for g in got) and any(summ.equivalent(g, ASSET) for g in got)
    c.need(ok, "predicate:has_possible_spot_liquidations", "%s no longer looks for a token negative in both senses and a liquidatable asset of at least one native unit" % path, c.where(path))


def check(c):
    def prep(r, ix):
        r.known = ["account"] if ix.startswith("serum3") else []
    run_guards(c, SPECS, R, prep)
    for fn, (coll, want) in sorted(PREDICATES.items()):
        path = "health::cache::HealthCache::" + fn
        got = summ.exists_form(c, path)
        c.cov["phase predicates"] = c.cov.get("phase predicates", 0) + 1
        if got is None:
            c.bad("predicate:" + fn, "%s is not a test of whether some entry of the health cache has a property (cannot be decided)" % path, c.where(path))
            continue
        ok = len(got) == 1 and coll in got[0][0] and summ.equivalent(got[0][1], [set(want)])
        c.need(ok, "predicate:" + fn, "%s no longer tests `%s` over %s (found %s)" % (path, " and ".join(want), coll, [(a, [sorted(x) for x in b]) for a, b in got]), c.where(path))
    spot(c)
    c.floor("clauses", c.cov.get("clauses", 0), 40)
