"""Every gated instruction refuses to run while its gate bit is set."""
import absint as A
from ctx import *

META = dict(
    title="A disabled instruction can never execute",
    statement="Once an operator disables an instruction through the group's gate word, no call of that instruction can succeed, for every gated instruction. Each instruction honours its own gate and not another one's, and only the admin can re-enable what was disabled.",
    q=(["inputs", "configurations"], "Every instruction, gate word and caller."),
    files=["programs/mango-v4/src/accounts_ix/", "programs/mango-v4/src/instructions/ix_gate_set.rs", "programs/mango-v4/src/state/group.rs"],
    mechanism=[("gate constraint on each accounts struct", "accounts_ix/*.rs"), ("gate word", "state/group.rs Group::is_ix_enabled")],
    technique="must-dataflow over MIR of every instruction")
LEVEL = "proof"
RULE = ("For each instruction entry point, the must-facts of every successful exit contain 'gate word & bit == 0' for the bit assigned "
        "to that instruction, taken from a Group that is the instruction's group.  Bits: distinct, below the width of the gate word, "
        "and the assignment matches the published one.  The gate word is written only by the gate-setting and group-creation instructions, "
        "and the setter lets a key other than the admin through only where every clear bit of the new word was clear before.")

# instruction -> gate (published semantics of the IxGate bits)
GATE = {
    "account_buyback_fees_with_mngo": "AccountBuybackFeesWithMngo", "account_close": "AccountClose", "account_create": "AccountCreate",
    "account_create_v2": "AccountCreate", "account_edit": "AccountEdit", "account_expand": "AccountExpand", "account_expand_v2": "AccountExpand",
    "account_size_migration": "AccountSizeMigration", "account_toggle_freeze": "AccountToggleFreeze",
    "admin_perp_withdraw_fees": "AdminPerpWithdrawFees", "admin_token_withdraw_fees": "AdminTokenWithdrawFees",
    "alt_extend": "AltExtend", "alt_set": "AltSet", "flash_loan_begin": "FlashLoan", "flash_loan_swap_begin": "FlashLoan",
    "group_change_insurance_fund": "GroupChangeInsuranceFund", "group_close": "GroupClose",
    "group_withdraw_insurance_fund": "GroupWithdrawInsuranceFund", "health_check": "HealthCheck", "health_region_begin": "HealthRegion",
    "liq_token_bankruptcy": "TokenLiqBankruptcy", "liq_token_with_token": "TokenLiqWithToken", "token_liq_bankruptcy": "TokenLiqBankruptcy",
    "token_liq_with_token": "TokenLiqWithToken",
    "openbook_v2_close_open_orders": "OpenbookV2CloseOpenOrders", "openbook_v2_create_open_orders": "OpenbookV2CreateOpenOrders",
    "openbook_v2_deregister_market": "OpenbookV2DeregisterMarket", "openbook_v2_liq_force_cancel_orders": "OpenbookV2LiqForceCancelOrders",
    "openbook_v2_place_order": "OpenbookV2PlaceOrder", "openbook_v2_place_taker_order": "OpenbookV2PlaceTakeOrder",
    "openbook_v2_register_market": "OpenbookV2RegisterMarket", "openbook_v2_settle_funds": "OpenbookV2SettleFunds",
    "perp_cancel_all_orders": "PerpCancelAllOrders", "perp_cancel_all_orders_by_side": "PerpCancelAllOrdersBySide",
    "perp_cancel_order": "PerpCancelOrder", "perp_cancel_order_by_client_order_id": "PerpCancelOrderByClientOrderId",
    "perp_close_market": "PerpCloseMarket", "perp_consume_events": "PerpConsumeEvents", "perp_create_market": "PerpCreateMarket",
    "perp_deactivate_position": "PerpDeactivatePosition", "perp_force_close_position": "PerpForceClosePosition",
    "perp_liq_base_or_positive_pnl": "PerpLiqBaseOrPositivePnl", "perp_liq_force_cancel_orders": "PerpLiqForceCancelOrders",
    "perp_liq_negative_pnl_or_bankruptcy_v2": "PerpLiqNegativePnlOrBankruptcy",
    "perp_place_order": "PerpPlaceOrder", "perp_place_order_v2": "PerpPlaceOrder", "perp_place_order_pegged": "PerpPlaceOrder",
    "perp_place_order_pegged_v2": "PerpPlaceOrder", "perp_settle_fees": "PerpSettleFees", "perp_settle_pnl": "PerpSettlePnl",
    "perp_update_funding": "PerpUpdateFunding", "sequence_check": "SequenceCheck",
    "serum3_cancel_all_orders": "Serum3CancelAllOrders", "serum3_cancel_order": "Serum3CancelOrder",
    "serum3_cancel_order_by_client_order_id": "Serum3CancelOrder", "serum3_close_open_orders": "Serum3CloseOpenOrders",
    "serum3_create_open_orders": "Serum3CreateOpenOrders", "serum3_deregister_market": "Serum3DeregisterMarket",
    "serum3_liq_force_cancel_orders": "Serum3LiqForceCancelOrders", "serum3_place_order": ("Serum3PlaceOrder", "Serum3PlaceOrderV2"),
    "serum3_place_order_v2": "Serum3PlaceOrderV2", "serum3_register_market": "Serum3RegisterMarket",
    "serum3_settle_funds_v2": "Serum3SettleFunds", "stub_oracle_close": "StubOracleClose", "stub_oracle_create": "StubOracleCreate",
    "stub_oracle_set": "StubOracleSet", "stub_oracle_set_test": "StubOracleSet", "token_add_bank": "TokenAddBank",
    "token_conditional_swap_cancel": "TokenConditionalSwapCancel", "token_conditional_swap_create": "TokenConditionalSwapCreate",
    "token_conditional_swap_create_v2": "TokenConditionalSwapCreate",
    "token_conditional_swap_create_linear_auction": "TokenConditionalSwapCreateLinearAuction",
    "token_conditional_swap_create_premium_auction": "TokenConditionalSwapCreatePremiumAuction",
    "token_conditional_swap_start": "TokenConditionalSwapStart", "token_conditional_swap_trigger": "TokenConditionalSwapTrigger",
    "token_conditional_swap_trigger_v2": "TokenConditionalSwapTrigger", "token_deposit": "TokenDeposit",
    "token_deposit_into_existing": "TokenDeposit", "token_deregister": "TokenDeregister",
    "token_force_close_borrows_with_token": "TokenForceCloseBorrowsWithToken", "token_force_withdraw": "TokenForceWithdraw",
    "token_register": "TokenRegister", "token_register_trustless": "TokenRegisterTrustless",
    "token_update_index_and_rate": "TokenUpdateIndexAndRate", "token_update_index_and_rate_resilient": "TokenUpdateIndexAndRate",
    "token_withdraw": "TokenWithdraw",
}
# Not behind a gate: administration itself, second halves of gated pairs, read-only and placeholder instructions.
UNGATED = {"admin": ["group_create", "group_edit", "ix_gate_set", "token_edit", "perp_edit_market", "serum3_edit_market", "openbook_v2_edit_market"],
           "second half of a gated pair": ["flash_loan_end_v2", "health_region_end"],
           "periodic fee crank": ["token_charge_collateral_fees"],
           "no effect": ["compute_account_data", "benchmark", "openbook_v2_cancel_order", "openbook_v2_cancel_all_orders"],
           "always refuses": ["flash_loan_end", "perp_liq_negative_pnl_or_bankruptcy", "serum3_settle_funds"]}
BITS = ("AccountClose AccountCreate AccountEdit AccountExpand AccountToggleFreeze AltExtend AltSet FlashLoan GroupClose GroupCreate HealthRegion "
        "PerpCancelAllOrders PerpCancelAllOrdersBySide PerpCancelOrder PerpCancelOrderByClientOrderId PerpCloseMarket PerpConsumeEvents PerpCreateMarket "
        "PerpDeactivatePosition PerpLiqBaseOrPositivePnl PerpLiqForceCancelOrders PerpLiqNegativePnlOrBankruptcy PerpPlaceOrder PerpSettleFees PerpSettlePnl "
        "PerpUpdateFunding Serum3CancelAllOrders Serum3CancelOrder Serum3CloseOpenOrders Serum3CreateOpenOrders Serum3DeregisterMarket Serum3EditMarket "
        "Serum3LiqForceCancelOrders Serum3PlaceOrder Serum3RegisterMarket Serum3SettleFunds StubOracleClose StubOracleCreate StubOracleSet TokenAddBank "
        "TokenDeposit TokenDeregister TokenLiqBankruptcy TokenLiqWithToken TokenRegister TokenRegisterTrustless TokenUpdateIndexAndRate TokenWithdraw "
        "AccountBuybackFeesWithMngo TokenForceCloseBorrowsWithToken PerpForceClosePosition GroupWithdrawInsuranceFund TokenConditionalSwapCreate "
        "TokenConditionalSwapTrigger TokenConditionalSwapCancel OpenbookV2CancelOrder OpenbookV2CloseOpenOrders OpenbookV2CreateOpenOrders "
        "OpenbookV2DeregisterMarket OpenbookV2EditMarket OpenbookV2LiqForceCancelOrders OpenbookV2PlaceOrder OpenbookV2PlaceTakeOrder "
        "OpenbookV2RegisterMarket OpenbookV2SettleFunds AdminTokenWithdrawFees AdminPerpWithdrawFees AccountSizeMigration TokenConditionalSwapStart "
        "TokenConditionalSwapCreatePremiumAuction TokenConditionalSwapCreateLinearAuction Serum3PlaceOrderV2 TokenForceWithdraw SequenceCheck HealthCheck").split()
BIT = {n: i for i, n in enumerate(BITS)}
BIT["GroupChangeInsuranceFund"] = 76


def gate_word(t):
    """Group root if t is a load of a group's gate word."""
    n = nf(t)
    return n[1] if n and n[0] == "data" and n[2:] == ("ix_gate",) else None


def tested_bit(k, v):
    """(group, bit) proved clear by the fact k == v, else None."""
    if k.op != "eq" or v[0] != "is":
        return None
    a, b = k.args
    if b.op != "int" or a.op != "bin" or a.args[0] != "BitAnd":
        return None
    x, y = a.args[1], a.args[2]
    for p, q in ((x, y), (y, x)):
        if q.op == "int":
            m = q.args[0]
            g = gate_word(p)
            if g is not None and m > 0 and m & (m - 1) == 0 and ((b.args[0] == 0 and v[1]) or (b.args[0] == m and not v[1])):
                return g, m.bit_length() - 1
            if m == 1 and p.op == "bin" and p.args[0] == "Shr" and p.args[2].op == "int" and gate_word(p.args[1]) is not None:
                if (b.args[0] == 0 and v[1]) or (b.args[0] == 1 and not v[1]):
                    return gate_word(p.args[1]), p.args[2].args[0]
    return None


def writes_gate(prog):
    out = {}
    for p, f in prog.fns.items():
        for st, t, line in f["bbs"]:
            for s in st:
                if any(isinstance(e, list) and e[0] == "f" and e[2] == "ix_gate" for e in s[0][1]):
                    out.setdefault(p, line)
                v = s[1]
                if v[0] == "ref" and v[2] and any(isinstance(e, list) and e[0] == "f" and e[2] == "ix_gate" for e in v[1][1]):
                    out.setdefault(p, line)
    return out


def check(c):
    P = c.prog
    enum = [a for p, a in P.adts.items() if p.endswith("::IxGate") and a["kind"] == "enum"]
    if len(enum) != 1:
        raise Fail("the gate enumeration was not found")
    have = {v[0]: int(v[1]) for v in enum[0]["variants"]}
    for n, b in sorted(BIT.items()):
        c.need(have.get(n) == b, "bit:" + n, "gate %s has bit %s, the published bit is %d" % (n, have.get(n), b), "state/group.rs IxGate")
    c.need(len(set(have.values())) == len(have), "bits-distinct", "two gates share a bit", "state/group.rs IxGate")
    c.need(all(0 <= b < 128 for b in have.values()), "bits-width", "a gate bit does not fit the gate word", "state/group.rs IxGate")
    ents = c.entries()
    exempt = {i for l in UNGATED.values() for i in l}
    for e in ents:
        if e not in GATE and e not in exempt:
            c.bad("unassigned:" + e, "instruction %s has no gate assignment in the specification" % e, "lib.rs")

    def one(ix):
        g = GATE[ix] if isinstance(GATE[ix], tuple) else (GATE[ix],)
        want = {have.get(x) for x in g}
        rule = GateRule(P, want)
        an, oks = run_entry(P, ix, rule)
        out = [("cov", "paths", an.steps), ("cov", "instructions", 1)]
        for s, r in oks:
            grp = {m[1] for m in s.marks if m[0] == "gate"}
            if not grp:
                return out + [("bad", "gate:" + ix, "a successful exit of %s does not require gate %s (bit %s) to be clear; bits tested: %s"
                               % (ix, "/".join(g), sorted(want), sorted(rule.seen)), "instruction " + ix)]
            if "group" in an.acct_ty and "group" not in grp:
                return out + [("bad", "gate:" + ix, "%s tests the gate of another group" % ix, "instruction " + ix)]
        return out + [("ok", "gate:" + ix)]
    c.pmap(one, [i for i in ents if i in GATE])
    for i in GATE:
        if i not in ents:
            c.bad("missing:" + i, "gated instruction %s is no longer exported" % i, "lib.rs")
    # the gate word changes only where it may
    for p, line in sorted(writes_gate(P).items()):
        c.need("ix_gate_set" in p or "group_create" in p, "write:" + p, "%s writes the gate word" % p, c.where(p, line))
    check_setter(c)


class GateRule(InlineRule):
    """Mark ('gate', group): the bit was proved clear in that group's gate word."""

    def __init__(self, prog, want):
        InlineRule.__init__(self, prog)
        self.want = want
        self.seen = set()

    def on_branch(self, an, st, fr, t, val):
        tb = tested_bit(t, ("is", 1 if val else 0))
        if tb:
            self.seen.add(tb[1])
            if tb[1] in self.want:
                return st.marks | {("gate", tb[0] if isinstance(tb[0], str) else "other")}


def check_setter(c):
    """Who may call the setter: admin, or security admin that only adds disabled bits."""
    from props import common
    common.setter_authority(c)


