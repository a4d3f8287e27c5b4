"""Frozen accounts cannot take part in instructions."""
import absint as A
from ctx import *

META = dict(
    title="A frozen account cannot be moved by its owner until the freeze ends",
    statement="While an account is frozen none of the instructions that act with its owner's or delegate's authority can succeed. Only the group's admin sets or lifts a freeze, and a freeze ends by itself at its recorded time.",
    q=(["inputs", "histories"], "Every instruction and every freeze expiry."),
    files=["programs/mango-v4/src/accounts_ix/", "programs/mango-v4/src/instructions/account_toggle_freeze.rs", "programs/mango-v4/src/state/mango_account.rs"],
    mechanism=[("operational-account constraint", "accounts_ix/*.rs"), ("frozen-until time", "state/mango_account.rs")],
    technique="must-dataflow over MIR of every instruction")
LEVEL = "proof"
RULE = ("For each instruction that lets a margin account act or be acted upon, the must-facts of every successful exit contain "
        "'frozen_until of that account < current chain time' for each such account parameter; the freeze setter, under its admin guard, "
        "stores a time in the future when freezing and zero when unfreezing, and nothing else writes that field after creation.")

ACC = ("account",)
TABLE = {
    "account_buyback_fees_with_mngo": ACC, "account_close": ACC, "account_edit": ACC, "account_expand": ACC, "account_expand_v2": ACC,
    "flash_loan_begin": ACC, "flash_loan_end_v2": ACC, "flash_loan_swap_begin": ACC, "health_check": ACC, "health_region_begin": ACC,
    "health_region_end": ACC, "liq_token_bankruptcy": ("liqor", "liqee"), "liq_token_with_token": ("liqor", "liqee"),
    "token_liq_bankruptcy": ("liqor", "liqee"), "token_liq_with_token": ("liqor", "liqee"),
    "openbook_v2_close_open_orders": ACC, "openbook_v2_create_open_orders": ACC, "openbook_v2_place_order": ACC,
    "openbook_v2_place_taker_order": ACC, "openbook_v2_settle_funds": ACC, "openbook_v2_cancel_order": ACC, "openbook_v2_cancel_all_orders": ACC,
    "perp_cancel_all_orders": ACC, "perp_cancel_all_orders_by_side": ACC, "perp_cancel_order": ACC, "perp_cancel_order_by_client_order_id": ACC,
    "perp_deactivate_position": ACC, "perp_force_close_position": ("account_a", "account_b"),
    "perp_liq_base_or_positive_pnl": ("liqor", "liqee"), "perp_liq_negative_pnl_or_bankruptcy_v2": ("liqor", "liqee"),
    "perp_place_order": ACC, "perp_place_order_v2": ACC, "perp_place_order_pegged": ACC, "perp_place_order_pegged_v2": ACC,
    "perp_settle_fees": ACC, "perp_settle_pnl": ("settler", "account_a", "account_b"), "sequence_check": ACC,
    "serum3_cancel_all_orders": ACC, "serum3_cancel_order": ACC, "serum3_cancel_order_by_client_order_id": ACC,
    "serum3_close_open_orders": ACC, "serum3_create_open_orders": ACC, "serum3_place_order": ACC, "serum3_place_order_v2": ACC,
    "serum3_settle_funds_v2": ACC, "token_charge_collateral_fees": ACC, "token_conditional_swap_cancel": ACC,
    "token_conditional_swap_create": ACC, "token_conditional_swap_create_v2": ACC, "token_conditional_swap_create_linear_auction": ACC,
    "token_conditional_swap_create_premium_auction": ACC, "token_conditional_swap_start": ("liqor", "liqee"),
    "token_conditional_swap_trigger": ("liqor", "liqee"), "token_conditional_swap_trigger_v2": ("liqor", "liqee"),
    "token_deposit": ACC, "token_deposit_into_existing": ACC, "token_force_close_borrows_with_token": ("liqor", "liqee"),
    "token_force_withdraw": ACC, "token_withdraw": ACC,
}
# may run on a frozen account: creation, the freeze switch itself, storage migration, forced order cancellation, event processing,
# read-only computation, instructions that always refuse
EXEMPT = {"account_create", "account_create_v2", "account_toggle_freeze", "account_size_migration", "serum3_liq_force_cancel_orders",
          "perp_liq_force_cancel_orders", "openbook_v2_liq_force_cancel_orders", "compute_account_data", "perp_consume_events",
          "flash_loan_end", "perp_liq_negative_pnl_or_bankruptcy", "serum3_settle_funds"}
PARTIES = {"account", "account_a", "account_b", "liqor", "liqee", "settler"}


class R(InlineRule):
    """Mark ('live', acct): frozen_until < now was established for that account."""

    def on_branch(self, an, st, fr, t, val):
        if t.op == "lt" and val:
            n = nf(t.args[0])
            if n and n[0] == "data" and n[2:] == ("frozen_until",) and is_now(t.args[1]) and isinstance(n[1], str):
                return st.marks | {("live", n[1])}


def check(c):
    P = c.prog
    ents = c.entries()

    def one(ix):
        an, oks = run_entry(P, ix, R(P))
        out = [("cov", "paths", an.steps), ("cov", "instructions", 1)]
        for a in TABLE.get(ix, ()):
            k = "live:%s:%s" % (ix, a)
            if oks and a not in an.acct_ty:
                out.append(("bad", k, "%s has no account parameter `%s` any more" % (ix, a), "instruction " + ix))
            elif all(("live", a) in s.marks for s, _ in oks):
                out.append(("ok", k))
            else:
                out.append(("bad", k, "%s can succeed for `%s` without establishing that the account is not frozen at the current time" % (ix, a), "instruction " + ix))
        if ix not in EXEMPT:
            for a, ty in an.acct_ty.items():
                if a in PARTIES and "MangoAccountFixed" in ty and a not in TABLE.get(ix, ()) and oks:
                    out.append(("bad", "unlisted:%s:%s" % (ix, a), "margin account parameter `%s` of %s is not in the specification" % (a, ix), ""))
        return out
    c.pmap(one, ents)
    c.floor("instructions", c.cov.get("instructions", 0), 80)
    for i in TABLE:
        if i not in ents:
            c.bad("missing:" + i, "instruction %s is no longer exported" % i, "lib.rs")
    # the switch
    r = W(P)
    an, oks = run_entry(P, "account_toggle_freeze", r)
    c.need(bool(oks), "toggle:live", "the freeze switch has no successful exit", "account_toggle_freeze")
    fr, un = False, False
    for s, _ in oks:
        if "admin" not in s.marks:
            c.bad("toggle:admin", "the freeze switch can be used by a key other than the admin", "account_toggle_freeze")
        fr |= "freeze" in s.marks
        un |= "unfreeze" in s.marks
        if ("freeze" in s.marks) == ("unfreeze" in s.marks) or "wrong" in s.marks:
            c.bad("toggle:value", "a successful exit of the freeze switch leaves the wrong freeze time (%s)" % sorted(s.marks), "account_toggle_freeze")
    c.need(fr and un, "toggle:both", "freezing and unfreezing are not both possible", "account_toggle_freeze")
    # who writes the field
    for p, f in P.fns.items():
        for st, t, line in f["bbs"]:
            for x in st:
                if x[0][1] and isinstance(x[0][1][-1], list) and x[0][1][-1][0] == "f" and x[0][1][-1][2] == "frozen_until":
                    c.need("account_toggle_freeze" in p, "write:" + p, "%s writes the freeze time" % p, c.where(p, line))


class W(InlineRule):
    def on_branch(self, an, st, fr, t, val):
        if t.op == "eq" and val and {nf(t.args[0]), nf(t.args[1])} == {data("group", "admin"), key("admin")}:
            return st.marks | {"admin"}
        from props.common import ix_arg
        if ix_arg(t, "freeze"):
            return st.marks | {"arg:%d" % (1 if val else 0)}

    def on_write(self, an, st, fr, place, v):
        root, path = place
        if path and path[-1] == "frozen_until":
            m = st.marks - {"freeze", "unfreeze", "wrong"}
            on = "arg:1" in st.marks
            off = "arg:0" in st.marks
            if v.op == "int" and v.args[0] == 0 and off:
                return m | {"unfreeze"}
            if on and ((v.op == "int" and v.args[0] > 2 ** 40) or (v.op == "bin" and v.args[0] == "Add" and any(is_now(x) for x in v.args[1:])
                       and any(x.op == "int" and x.args[0] > 0 for x in v.args[1:]))):
                return m | {"freeze"}
            return m | {"wrong"}
