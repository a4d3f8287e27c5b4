"""Privileged operations need the group admin's signature."""
import absint as A
from ctx import *
from props.common import *

META = dict(
    title="Privileged operations need the group admin's signature",
    statement="Creating, adding, deregistering or closing tokens, markets, banks, lookup tables and groups, withdrawing collected fees or the insurance fund, replacing the insurance fund, freezing accounts, operating stub oracles and editing the group take effect only when the group's own admin key signs; the fast-listing admin may only list a token or spot market, and the security admin only restrict. Fields of an existing group change only through those instructions, and a new group records its signing creator as admin.",
    q=(["inputs", "configurations"], "Every instruction, signer and group configuration."),
    files=["programs/mango-v4/src/accounts_ix/", "programs/mango-v4/src/instructions/group_edit.rs", "programs/mango-v4/src/instructions/group_create.rs"],
    mechanism=[("has_one = admin on the group", "programs/mango-v4/src/accounts_ix/"), ("Signer<'info> admin", "programs/mango-v4/src/accounts_ix/")],
    technique="typestate dataflow over MIR of every instruction entry point")
LEVEL = "proof"
RULE = ("For every entry point, every successful exit whose path changed an account or invoked another program must have compared the signing `admin` account's key "
        "with the group's admin field (or fast-listing/security admin where the table allows it); group fields may be written only by the listed instructions.")

ADMIN = {
    "account_toggle_freeze": 1, "admin_perp_withdraw_fees": 1, "admin_token_withdraw_fees": 1, "alt_extend": 1, "alt_set": 1, "group_change_insurance_fund": 1,
    "group_close": 1, "group_edit": 1, "group_withdraw_insurance_fund": 1, "perp_close_market": 1, "perp_create_market": 1, "serum3_deregister_market": 1,
    "stub_oracle_close": 1, "stub_oracle_create": 1, "stub_oracle_set": 1, "stub_oracle_set_test": 1, "token_add_bank": 1, "token_deregister": 1, "token_register": 1,
    "openbook_v2_deregister_market": 1, "openbook_v2_edit_market": 1, "openbook_v2_register_market": 1,
}
FAST = {"token_register_trustless", "serum3_register_market"}
SEC = {"ix_gate_set", "perp_edit_market", "serum3_edit_market", "token_edit"}
ROLE = {"admin": "adm", "security_admin": "sec", "fast_listing_admin": "fast"}
GROUP_WRITERS = {"alt_set", "group_change_insurance_fund", "group_edit", "ix_gate_set", "group_create", "token_register_trustless"}
STUB = {"openbook_v2_deregister_market", "openbook_v2_edit_market", "openbook_v2_register_market"}  # placeholders with empty bodies


class R(InlineRule):
    def __init__(self, prog, ix):
        InlineRule.__init__(self, prog)
        self.ix = ix

    def on_call(self, an, st, fr, name, res, args, site):
        if "effect" not in st.marks and "try_accounts" not in fr.prep.path and touches(an, st, name, args):
            return st.marks | {"effect"}

    def on_write(self, an, st, fr, place, v):
        if place[0].args[0].op in ("data", "dyn"):
            m = st.marks | {"effect"}
            a = place[0].args[0].args[0]
            if a.op == "acct" and "group::Group" in an.acct_ty.get(a.args[0], ""):
                m = m | {"group"}
            return m

    def on_branch(self, an, st, fr, t, val):
        if t.op == "eq" and val:
            for x, y in (t.args, t.args[::-1]):
                x, y = nf(x), nf(y)
                if x == key("admin") and y and y[:2] == ("data", "group") and len(y) == 3 and y[2] in ROLE:
                    return st.marks | {ROLE[y[2]]}


def check(c):
    P = c.prog
    ents = c.entries()

    def one(ix):
        r = R(P, ix)
        an, oks = run_entry(P, ix, r)
        out = [("cov", "paths", an.steps), ("cov", "instructions", 1)]
        allowed = {"adm"} if ix in ADMIN else {"adm", "fast"} if ix in FAST else {"adm", "sec"} if ix in SEC else None
        if ix not in GROUP_WRITERS:
            w = any("group" in s.marks for s, _ in oks)
            out.append(("bad", "group-write:" + ix, "%s changes the group account" % ix, "instruction " + ix) if w else ("ok", "group-write:" + ix))
        if ix == "group_create":
            good = bool(oks) and "Signer<" in an.acct_ty.get("creator", "")
            for s, _ in oks:
                v = an.read(s, (T("obj", T("data", T("acct", "group"))), ("admin",)))
                good &= nf(v) == key("creator")
            return out + [("ok", "create")] if good else out + [("bad", "create", "a new group's admin is not its signing creator", ix)]
        if allowed is None:
            if "admin" in an.acct_ty and oks:
                out.append(("bad", "unlisted:" + ix, "%s takes an `admin` account but is not in the privileged-operation table" % ix, ""))
            return out
        k = "admin:" + ix
        if not oks:
            return out + [("bad", k, "%s has no successful exit" % ix, "")]
        if "Signer<" not in an.acct_ty.get("admin", "") and not all(any(show(f) == "ai(admin).is_signer" and v == ("is", 1) for f, v in s.facts.items()) for s, _ in oks):
            return out + [("bad", "signer:" + ix, "the admin of %s need not sign" % ix, "instruction " + ix)]
        for s, _ in oks:
            if not (allowed & s.marks) and ("effect" in s.marks or ix in STUB or not any("effect" in x.marks for x, _ in oks)):
                return out + [("bad", k, "%s can succeed without the signer being the group's %s" % (ix, " or ".join(sorted(k2 for k2, v in ROLE.items() if v in allowed))), "instruction " + ix)]
        return out + [("ok", k)]
    c.pmap(one, ents)
    c.floor("instructions", c.cov.get("instructions", 0), 80)
    for i in list(ADMIN) + list(FAST) + list(SEC) + list(GROUP_WRITERS):
        if i not in ents:
            c.bad("missing:" + i, "instruction %s is no longer exported" % i, "lib.rs")
