"""Only the owner or an unexpired delegate acts for an account."""
import absint as A
from ctx import *
from props.common import is_cpi, touches

META = dict(
    title="Only the owner or a valid delegate acts for an account",
    statement="Every instruction that moves an account's funds, places or cancels its orders or changes its settings succeeds only when the account's owner, its delegate, or its unexpired temporary delegate has signed. Owner-only operations exclude delegates, and a delegate may withdraw only to the owner's own token account while closing the position.",
    q=(["inputs"], "Every instruction, signer and account."),
    files=["programs/mango-v4/src/accounts_ix/", "programs/mango-v4/src/instructions/", "programs/mango-v4/src/state/mango_account.rs"],
    mechanism=[("owner-or-delegate check", "state/mango_account.rs is_owner_or_delegate"), ("delegate restrictions", "instructions/token_withdraw.rs")],
    technique="must-dataflow (authority typestate) over MIR of every instruction")
LEVEL = "proof"
RULE = ("For each instruction that acts with a margin account's authority, every successful exit has established that the key of a signing "
        "account parameter equals the account's owner, its delegate, or its temporary delegate with an expiry not in the past; owner-only "
        "instructions admit only the owner.  A delegate's withdrawal additionally needs the owner's associated token account as target, held "
        "by the owner, and must close the position.  Every other instruction taking a margin account is on the permissionless list.  "
        "Owner is written only at creation, delegates only by the owner's edit instruction with expiry less than the allowed horizon ahead.")

OWNER = {  # owner only
    "account_close": ("account", "owner"), "account_edit": ("account", "owner"), "account_expand": ("account", "owner"),
    "account_expand_v2": ("account", "owner"), "sequence_check": ("account", "owner"),
}
ANY = {
    "account_buyback_fees_with_mngo": ("account", "owner"), "flash_loan_begin": ("account", "owner"), "flash_loan_swap_begin": ("account", "owner"),
    "flash_loan_end_v2": ("account", "owner"),
    "liq_token_bankruptcy": ("liqor", "liqor_owner"), "liq_token_with_token": ("liqor", "liqor_owner"),
    "token_liq_bankruptcy": ("liqor", "liqor_owner"), "token_liq_with_token": ("liqor", "liqor_owner"),
    "perp_liq_base_or_positive_pnl": ("liqor", "liqor_owner"), "perp_liq_negative_pnl_or_bankruptcy_v2": ("liqor", "liqor_owner"),
    "token_force_close_borrows_with_token": ("liqor", "liqor_owner"), "perp_settle_pnl": ("settler", "settler_owner"),
    "token_conditional_swap_start": ("liqor", "liqor_authority"), "token_conditional_swap_trigger": ("liqor", "liqor_authority"),
    "token_conditional_swap_trigger_v2": ("liqor", "liqor_authority"), "token_conditional_swap_cancel": ("account", "authority"),
    "token_conditional_swap_create": ("account", "authority"), "token_conditional_swap_create_v2": ("account", "authority"),
    "token_conditional_swap_create_linear_auction": ("account", "authority"), "token_conditional_swap_create_premium_auction": ("account", "authority"),
    "token_deposit": ("account", "owner"), "token_withdraw": ("account", "owner"),
}
for _i in ("perp_cancel_all_orders perp_cancel_all_orders_by_side perp_cancel_order perp_cancel_order_by_client_order_id perp_deactivate_position "
           "perp_place_order perp_place_order_v2 perp_place_order_pegged perp_place_order_pegged_v2 serum3_cancel_all_orders serum3_cancel_order "
           "serum3_cancel_order_by_client_order_id serum3_close_open_orders serum3_create_open_orders serum3_place_order serum3_place_order_v2 "
           "serum3_settle_funds_v2").split():
    ANY[_i] = ("account", "owner")
# anyone may call these on an account (cranks, liquidation counterparties, admin switches, placeholders)
OPEN = {"account_create", "account_create_v2", "account_size_migration", "account_toggle_freeze", "compute_account_data", "health_check",
        "health_region_begin", "health_region_end", "openbook_v2_cancel_all_orders", "openbook_v2_cancel_order", "openbook_v2_close_open_orders",
        "openbook_v2_create_open_orders", "openbook_v2_liq_force_cancel_orders", "openbook_v2_place_order", "openbook_v2_place_taker_order",
        "openbook_v2_settle_funds", "perp_consume_events", "perp_force_close_position", "perp_liq_force_cancel_orders", "perp_settle_fees",
        "serum3_liq_force_cancel_orders", "token_charge_collateral_fees", "token_deposit_into_existing", "token_force_withdraw"}


class R(InlineRule):
    """Marks ('own'|'del'|'tdel', acct, signer)."""
    K = {"owner": "own", "delegate": "del", "temporary_delegate": "tdel"}

    def on_call(self, an, st, fr, name, res, args, site):
        m = st.marks
        if name.startswith("anchor_spl::token::transfer"):
            m = m | {"xfer", "effect"}
        elif "effect" not in m and "try_accounts" not in fr.prep.path and touches(an, st, name, args):
            m = m | {"effect"}
        return m if m != st.marks else None

    def on_write(self, an, st, fr, place, v):
        return st.marks | {"effect"} if place[0].args[0].op in ("data", "dyn") else None

    def on_branch(self, an, st, fr, t, val):
        if not val and t.op == "fld" and t.args[1] == "position_is_active" or val and t.op == "not" and t.args[0].op == "fld" and t.args[0].args[1] == "position_is_active":
            return st.marks | {"closed"}
        if t.op == "eq" and val:
            for x, y in (t.args, t.args[::-1]):
                if nf(x) == key("token_account") and y.op == "call" and str(y.args[0]).endswith("get_associated_token_address"):
                    if nf(y.args[1][0]) == data("account", "owner") and nf(y.args[1][1]) in (data("vault", "mint"), data("bank", "mint")):
                        return st.marks | {"ata"}
            a, b = nf(t.args[0]), nf(t.args[1])
            if {a, b} == {data("token_account", "owner"), data("account", "owner")}:
                return st.marks | {"held"}
            if a == data("serum_market", "force_close") and b and b[0] == "int" and b[1] != 0:
                return st.marks | {"force"}
            for x, y in ((a, b), (b, a)):
                if x and y and x[0] == "data" and len(x) == 3 and x[2] in self.K and y[0] == "key" and isinstance(x[1], str) and isinstance(y[1], str):
                    return st.marks | {(self.K[x[2]], x[1], y[1])}


class Perms(InlineRule):
    """Write discipline of the authority fields."""

    def on_write(self, an, st, fr, place, v):
        root, path = place
        if path and path[-1] in ("owner", "delegate", "temporary_delegate", "temporary_delegate_expiry") and root.op == "obj" and root.args[0].op == "data":
            a = root.args[0].args[0]
            if a.op == "acct":
                self.w.append((a.args[0], path[-1], v, dict(st.facts)))
        return None


def unexpired(F, acct):
    """not (now > expiry)"""
    for a, b in F.ges:      # a >= b
        n = nf(a)
        if n == data(acct, "temporary_delegate_expiry") and is_now(b):
            return True
    for a, b in F.lts:      # now < expiry also establishes it
        if nf(b) == data(acct, "temporary_delegate_expiry") and is_now(a):
            return True
    return False


def signer_ok(an, n):
    return "Signer<" in an.acct_ty.get(n, "")


def check(c):
    P = c.prog
    ents = c.entries()
    tab = dict(ANY)
    tab.update(OWNER)

    def one(ix):
        an, oks = run_entry(P, ix, R(P))
        out = [("cov", "paths", an.steps), ("cov", "instructions", 1)]
        if ix not in tab:
            if ix not in OPEN and oks and any("MangoAccountFixed" in t and a not in ("dao_account",) for a, t in an.acct_ty.items()):
                out.append(("bad", "unlisted:" + ix, "%s takes a margin account but is in neither the authority table nor the permissionless list" % ix, ""))
            return out
        acct, sg = tab[ix]
        k = "auth:" + ix
        if not oks:
            return out + [("bad", k, "%s has no successful exit" % ix, "")]
        if not signer_ok(an, sg) and not all(any(show(f) == "ai(%s).is_signer" % sg and v == ("is", 1) for f, v in s.facts.items()) for s, _ in oks):
            return out + [("bad", "signer:" + ix, "the authority `%s` of %s need not sign" % (sg, ix), "instruction " + ix)]
        for s, _ in oks:
            if "effect" not in s.marks:
                continue
            m = {x[0] for x in s.marks if isinstance(x, tuple) and x[1:] == (acct, sg)}
            if ix == "serum3_close_open_orders" and "force" in s.marks:
                continue
            if "own" in m:
                continue
            if ix in OWNER:
                return out + [("bad", k, "%s can succeed when `%s` is not the owner of `%s` (%s)" % (ix, sg, acct, sorted(m)), "instruction " + ix)]
            F = Facts(s)
            if "del" in m or ("tdel" in m and unexpired(F, acct)):
                if ix == "token_withdraw" and "xfer" in s.marks:
                    p = delegate_withdraw(s)
                    if p:
                        out.append(("bad", "delegate-withdraw", "a delegate's withdrawal can succeed without: " + p, "token_withdraw"))
                continue
            return out + [("bad", k, "%s can succeed when `%s` is neither owner nor (unexpired) delegate of `%s` (%s)" % (ix, sg, acct, sorted(m)), "instruction " + ix)]
        return out + [("ok", k)] + ([("ok", "delegate-withdraw")] if ix == "token_withdraw" else [])
    c.pmap(one, ents)
    c.floor("instructions", c.cov.get("instructions", 0), 80)
    for i in tab:
        if i not in ents:
            c.bad("missing:" + i, "instruction %s is no longer exported" % i, "lib.rs")
    writes(c)


def delegate_withdraw(s):
    return "; ".join(n for k, n in (("ata", "the target being the owner's associated token account"), ("held", "the target being held by the owner"),
                                    ("closed", "the position being closed")) if k not in s.marks)


def writes(c):
    P = c.prog
    # account creation records the signer-derived owner
    for ix in ("account_create", "account_create_v2"):
        r = Perms(P)
        r.w = []
        an, oks = run_entry(P, ix, r)
        good = bool(oks)
        for s, _ in oks:
            v = an.read(s, (T("obj", T("data", T("acct", "account"))), ("owner",)))
            good &= nf(v) == key("owner")
        c.need(good, "create-owner:" + ix, "%s does not record the `owner` parameter as the account's owner" % ix, ix)
    r = Perms(P)
    r.w = []
    an, oks = run_entry(P, "account_edit", r)
    c.need(any(f == "delegate" for _, f, _, _ in r.w), "edit:delegate", "the owner's edit instruction no longer sets the delegate", "account_edit")
    for a, f, v, facts in r.w:
        if f == "owner":
            c.bad("edit:owner", "account_edit changes the owner", "account_edit")
        if f == "temporary_delegate_expiry":
            ok = any(k.op == "lt" and x == ("is", 1) and k.args[0] is v and k.args[1].op == "bin" and k.args[1].args[0] == "Add"
                     and any(is_now(y) for y in k.args[1].args[1:]) and any(y.op == "int" and 0 < y.args[0] <= 7 * 86400 for y in k.args[1].args[1:])
                     for k, x in facts.items())
            c.need(ok, "edit:expiry", "a temporary delegate's expiry is not bounded by one week from now", "account_edit")
    # nothing else writes them
    allowed = ("account_create", "account_edit")
    for p, f in P.fns.items():
        for st, t, line in f["bbs"]:
            for x in st:
                e = x[0][1][-1] if x[0][1] else None
                if isinstance(e, list) and e[0] == "f" and e[2] in ("delegate", "temporary_delegate", "temporary_delegate_expiry"):
                    c.need(any(a in p for a in allowed), "write:%s:%s" % (e[2], p), "%s writes the account's %s" % (p, e[2]), c.where(p, line))
