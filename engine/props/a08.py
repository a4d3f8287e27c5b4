"""Vaults, oracles, books, queues, markets and insurance accounts are the ones recorded for the entity the instruction works on."""
import absint as A
from ctx import *
from props.common import touches, ix_arg, ix_data

META = dict(
    title="Vaults, oracles, books and markets are always the recorded ones",
    statement="An instruction reads prices only from the oracle recorded for the bank or market it works on, moves tokens only through that bank's recorded vault or the group's insurance vault, and matches only against the recorded order book and event queue. Banks used for settling or paying are those of the market's own tokens. A caller cannot substitute another account for any of these.",
    q=(["inputs"], "Every instruction and every choice of substituted accounts."),
    files=["programs/mango-v4/src/accounts_ix/", "programs/mango-v4/src/instructions/"],
    mechanism=[("has_one / constraint attributes", "accounts_ix/*.rs"), ("runtime key comparisons", "instructions/*.rs")],
    technique="must-equality dataflow over MIR of every instruction")
LEVEL = "proof"
RULE = ("For every instruction and every account parameter with one of the bound roles, each successful exit that changed anything has established "
        "equality of the parameter's key with the field of the bank, market, mint record or group that records it; further equalities tie the token "
        "of each bank to the market.  New parameters with a bound role name must satisfy the same binding.")

D = data
NAME = {
    "bids": [D("perp_market", "bids")], "asks": [D("perp_market", "asks")], "event_queue": [D("perp_market", "event_queue")],
    "oracle": [D("perp_market", "oracle"), D("bank", "oracle"), D("mint_info", "oracle")],
    "payer_oracle": [D("payer_bank", "oracle")], "fees_oracle": [D("fees_bank", "oracle")], "mngo_oracle": [D("mngo_bank", "oracle")],
    "insurance_oracle": [D("insurance_bank", "oracle")], "settle_oracle": [D("settle_bank", "oracle")],
    "base_oracle": [D("base_bank", "oracle")], "quote_oracle": [D("quote_bank", "oracle")],
    "vault": [D("bank", "vault")], "payer_vault": [D("payer_bank", "vault")], "base_vault": [D("base_bank", "vault")],
    "quote_vault": [D("quote_bank", "vault")], "settle_vault": [D("settle_bank", "vault")], "insurance_bank_vault": [D("insurance_bank", "vault")],
    "insurance_vault": [D("group", "insurance_vault")], "serum_market_external": [D("serum_market", "serum_market_external")],
    "serum_program": [D("serum_market", "serum_program")], "dao_account": [D("group", "buyback_fees_swap_mango_account")],
    "instructions": [("const", "solana_program::sysvar::instructions::ID")],
}
# prefer the market's own oracle where both exist
PREFER = {"perp": [D("perp_market", "oracle")]}
# created here, or chosen freely by the admin / permissionless listing
FREE = {("group_create", "insurance_vault"), ("perp_create_market", "bids"), ("perp_create_market", "asks"), ("perp_create_market", "event_queue"),
        ("perp_create_market", "oracle"), ("perp_edit_market", "oracle"), ("token_edit", "oracle"), ("token_register", "oracle"), ("token_register", "vault"),
        ("token_register_trustless", "oracle"), ("token_register_trustless", "vault"), ("token_add_bank", "vault"), ("stub_oracle_create", "oracle"),
        ("stub_oracle_set", "oracle"), ("stub_oracle_set_test", "oracle"), ("stub_oracle_close", "oracle"), ("serum3_register_market", "serum_market_external"),
        ("serum3_register_market", "serum_program"),
        # the quote vault of the bankruptcy instructions is the dynamically found quote bank's, see QUOTE
        ("liq_token_bankruptcy", "quote_vault"), ("token_liq_bankruptcy", "quote_vault")}
EQ = {
    "admin_perp_withdraw_fees": [(D("bank", "token_index"), D("perp_market", "settle_token_index"))],
    "perp_liq_base_or_positive_pnl": [(D("settle_bank", "token_index"), D("perp_market", "settle_token_index"))],
    "perp_liq_negative_pnl_or_bankruptcy_v2": [(D("settle_bank", "token_index"), D("perp_market", "settle_token_index")), (D("insurance_bank", "mint"), D("insurance_vault", "mint"))],
    "perp_settle_fees": [(D("settle_bank", "token_index"), D("perp_market", "settle_token_index"))],
    "perp_settle_pnl": [(D("settle_bank", "token_index"), D("perp_market", "settle_token_index"))],
    "serum3_liq_force_cancel_orders": [(D("quote_bank", "token_index"), D("serum_market", "quote_token_index")), (D("base_bank", "token_index"), D("serum_market", "base_token_index"))],
    "serum3_settle_funds_v2": [(D("quote_bank", "token_index"), D("serum_market", "quote_token_index")), (D("base_bank", "token_index"), D("serum_market", "base_token_index"))],
    "serum3_deregister_market": [(D("index_reservation", "market_index"), D("serum_market", "market_index"))],
    "account_buyback_fees_with_mngo": [(D("mngo_bank", "token_index"), D("group", "mngo_token_index")), (D("fees_bank", "token_index"), ("int", 0))],
    "token_add_bank": [(key("mint"), D("existing_bank", "mint")), (key("mint"), D("mint_info", "mint")), (D("existing_bank", "token_index"), D("mint_info", "token_index"))],
    "liq_token_bankruptcy": [(D("insurance_vault", "mint"), D("group", "insurance_mint"))],
    "token_liq_bankruptcy": [(D("insurance_vault", "mint"), D("group", "insurance_mint"))],
}
SIDE = ("serum3_place_order", "serum3_place_order_v2")
OO = {"serum3_cancel_all_orders", "serum3_cancel_order", "serum3_cancel_order_by_client_order_id", "serum3_close_open_orders", "serum3_liq_force_cancel_orders",
      "serum3_place_order", "serum3_place_order_v2", "serum3_settle_funds_v2"}


def is_placeholder(ix):
    return ix.startswith("openbook_v2_")


class R(InlineRule):
    def on_call(self, an, st, fr, name, res, args, site):
        if "effect" not in st.marks and "try_accounts" not in fr.prep.path and touches(an, st, name, args):
            return st.marks | {"effect"}

    def on_write(self, an, st, fr, place, v):
        return st.marks | {"effect"} if place[0].args[0].op in ("data", "dyn") else None

    def on_branch(self, an, st, fr, t, val):
        # which side the instruction's order is on
        if t.op == "eq" and t.args[1].op == "int" and t.args[0].op == "disc" and ix_arg(t.args[0].args[0], "side"):
            d = t.args[1].args[0]
            if d in (0, 1):
                s = d if val else 1 - d
                return st.marks | {("side", s)}


def serum_account_oo(t, side=None):
    """t is the open_orders field of the account's own serum order slot found by this market's index."""
    if not (isinstance(t, Term) and "open_orders" in show(t)[-16:]):
        return False
    return any(x.op == "obj" and x.args[0].op == "dyn" for x in subterms(t)) or "serum3_count" in show(t)


def check(c):
    P = c.prog

    def one(ix):
        an, oks = run_entry(P, ix, R(P))
        oks = [(s, r) for s, r in oks if "effect" in s.marks]
        out = [("cov", "instructions", 1), ("cov", "paths", an.steps)]
        if not oks or is_placeholder(ix):
            return out
        Fs = [Facts(s) for s, _ in oks]
        for a in an.acct_ty:
            if a in NAME and (ix, a) not in FREE:
                cand = PREFER["perp"] if a == "oracle" and "perp_market" in an.acct_ty else NAME[a]
                cand = [x for x in cand if x[0] == "const" or x[1] in an.acct_ty]
                k = "bind:%s:%s" % (ix, a)
                good = bool(cand) and any(all(F.same(key(a), x) for F in Fs) for x in cand)
                out.append(("cov", "bound parameters", 1))
                out.append(("ok", k) if good else ("bad", k, "%s can succeed with a `%s` other than the recorded one (%s)" % (
                    ix, a, " or ".join(".".join(map(str, x[1:])) for x in NAME[a])), "accounts of " + ix))
        for x, y in EQ.get(ix, ()):
            k = "eq:%s:%s" % (ix, ".".join(map(str, x[1:])))
            good = all(F.same(x, y) for F in Fs)
            out.append(("ok", k) if good else ("bad", k, "%s can succeed when %s differs from %s" % (ix, ".".join(map(str, x[1:])), ".".join(map(str, y[1:]))), "accounts of " + ix))
        if ix in SIDE:
            for (s, _), F in zip(oks, Fs):
                sd = {m[1] for m in s.marks if isinstance(m, tuple) and m[0] == "side"}
                k = "side:%s" % ix
                good = len(sd) == 1
                if good:
                    good = F.same(D("payer_bank", "token_index"), D("serum_market", "quote_token_index" if sd == {0} else "base_token_index"))
                out.append(("ok", k) if good else ("bad", k, "%s (side %s) does not pay from the bank of the token the order spends" % (ix, sorted(sd)), "instruction " + ix))
        if ix in OO:
            k = "open-orders:" + ix
            good = all(any(serum_account_oo(x) for x in list(F.par) + list(F.par.values()) if F.same(x, key("open_orders"))) for F in Fs)
            out.append(("ok", k) if good else ("bad", k, "%s can succeed with an open orders account not recorded in the margin account" % ix, "accounts of " + ix))
        return out
    ents = c.entries()
    c.pmap(one, ents)
    for ix in list(EQ) + list(SIDE) + list(OO):
        if ix not in ents:
            c.bad("missing:" + ix, "instruction %s is no longer exported" % ix, "lib.rs")
    c.floor("bound parameters", c.cov.get("bound parameters", 0), 90)
