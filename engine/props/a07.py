"""Group isolation: all accounts an instruction works on belong to one group."""
import absint as A
from ctx import *
from props.common import touches

META = dict(
    title="Accounts, banks and markets of different groups never mix",
    statement="Every margin account, bank, market, mint record and stub oracle an instruction works on belongs to the group the instruction names, and whatever it creates is created in that group. No instruction lets value, prices or settings cross from one group into another.",
    q=(["inputs"], "Every instruction and every choice of accounts from any number of groups."),
    files=["programs/mango-v4/src/accounts_ix/", "programs/mango-v4/src/instructions/"],
    mechanism=[("has_one = group constraints", "accounts_ix/*.rs"), ("group recorded at creation", "instructions/*_create*.rs, *_register*.rs")],
    technique="must-equality dataflow over MIR of every instruction")
LEVEL = "proof"
RULE = ("For every instruction and every typed program account parameter that records a group, each successful exit that changed anything has "
        "established equality of the account's recorded group with the key of the instruction's group account (or of the one other account the "
        "instruction reads its group from), or has itself written that key into the account.  Accounts typed as raw account infos that are "
        "later loaded as group-owned types are covered by the health-account and binding properties.")

TYPES = ("MangoAccountFixed", "bank::Bank", "perp_market::PerpMarket", "serum3_market::", "mint_info::MintInfo", "oracle::StubOracle", "openbook_v2_market::")
# no `group` account parameter: everything is tied to the margin account's own group, or there is a single account only
ANCHOR = {"flash_loan_begin": None, "flash_loan_swap_begin": None, "flash_loan_end_v2": None, "health_region_begin": None, "health_region_end": None,
          }
# placeholders that always do nothing
SKIP = {"openbook_v2_place_order"}


class R(InlineRule):
    but = ("state::bank::Bank::from_existing_bank",)

    def on_call(self, an, st, fr, name, res, args, site):
        if "effect" not in st.marks and "try_accounts" not in fr.prep.path and touches(an, st, name, args):
            return st.marks | {"effect"}

    def on_write(self, an, st, fr, place, v):
        return st.marks | {"effect"} if place[0].args[0].op in ("data", "dyn") else None


def check(c):
    P = c.prog

    def one(ix):
        an, oks = run_entry(P, ix, R(P))
        out = [("cov", "instructions", 1), ("cov", "paths", an.steps)]
        accts = [a for a, t in an.acct_ty.items() if any(x in t for x in TYPES)]
        if not oks or ix in SKIP:
            return out
        if ix in ANCHOR:
            if "group" in an.acct_ty:
                pass
            elif len(accts) == 1:
                return out
        for a in accts:
            out.append(("cov", "account parameters", 1))
            k = "group:%s:%s" % (ix, a)
            bad = False
            for s, _ in oks:
                if "effect" not in s.marks:
                    continue
                F = Facts(s)
                v = nf(an.read(s, (T("obj", T("data", T("acct", a))), ("group",))))
                if not (F.same(data(a, "group"), key("group")) or v is not None and F.same(v, key("group"))):
                    bad = True
            out.append(("bad", k, "%s can succeed with `%s` (%s) belonging to another group than the `group` account" % (ix, a, an.acct_ty[a][:80]), "accounts of " + ix)
                       if bad else ("ok", k))
        return out
    c.pmap(one, c.entries())
    c.floor("account parameters", c.cov.get("account parameters", 0), 120)
