"""Double-entry view of an instruction: every change of a token or perp position, fee pot and vault as an amount term."""
import absint as A
from ctx import *
import guards, alg
from props import c01

BANKOPS = {  # method -> [(argument index of the position, argument index of the amount, sign)]
    "deposit": [(1, 2, 1)], "deposit_with_dusting": [(1, 2, 1)], "deposit_internal_wrapper": [(1, 2, 1)],
    "withdraw_without_fee": [(1, 2, -1)], "withdraw_without_fee_with_dusting": [(1, 2, -1)], "withdraw_with_fee": [(1, 2, -1)],
    "change_without_fee": [(1, 2, 1)], "change_with_fee": [(1, 2, 1)],
    "checked_transfer_with_fee": [(1, 2, -1), (3, 4, 1)],
    "withdraw_loan_origination_fee": [], "dust_if_possible": [],
}
PERPFIELDS = {"quote_position_native", "base_position_lots", "taker_base_lots", "taker_quote_lots", "bids_base_lots", "asks_base_lots", "long_settled_funding", "short_settled_funding"}
FEES = {"collected_fees_native", "fees_withdrawn", "fees_accrued", "fees_settled", "open_interest", "dust"}


NONNEG = {"oracle", "oracle_price", "base_lot_size", "quote_lot_size", "platform_liquidation_fee", "base_liquidation_fee"}


class LedgerRule(InlineRule):
    def __init__(self, prog, ix, opaque=()):
        InlineRule.__init__(self, prog)
        self.ix = ix
        self.opaque |= {p for p in prog.fns if p.startswith("state::bank::Bank::") and p.split("::")[-1] in BANKOPS}
        self.opaque |= {p for p in prog.fns if p.startswith("state::perp_market::PerpMarket::") and p.split("::")[-1] in ("settle_funding",)}
        self.opaque |= {p for p in prog.fns if p.split("::")[-1] in ("settle_funding", "check_net_borrows", "check_deposit_and_oo_limit", "update_net_borrows", "enforce_max_utilization_on_borrow") + tuple(opaque)}
        self.D = guards.Desc(self)
        self.ex = alg.Alg(self.D, exact=True, nonneg=NONNEG)
        self.tx = alg.Alg(self.D)
        self.seen = set()
        self.amounts = set()     # amounts whose sign tests keep paths apart
        self.split = []          # fields whose sign tests keep paths apart
        self.entry = {}
        self.iters = set()       # events of completed loop iterations

    def on_loop(self, an, st, fr, hdr, first):
        # each iteration of a loop is balanced on its own
        if "try_accounts" in fr.prep.path:
            return None
        e = self.entry.setdefault(hdr, set())
        if first:
            e |= st.marks
            return None
        new = frozenset(x for x in st.marks if x not in e)
        if new:
            self.iters.add((fr.prep.path, frozenset(x[:5] + (simp(st, x[5]),) if x[0] == "ev" else x for x in new)))
            return frozenset(x for x in st.marks if x in e)

    def on_branch(self, an, st, fr, t, val):
        if (self.split or self.amounts) and "try_accounts" not in fr.prep.path:
            f = self.signtest(t)
            if f is not None:
                return st.marks | {("path", guards.atom(self.D, t, val))}

    def signtest(self, t):
        """Field name when t compares a loaded field with zero."""
        while t.op == "not":
            t = t.args[0]
        if t.op in ("lt", "eq"):
            x, y = t.args
            for u, v in ((x, y), (y, x)):
                if v.op != "int" or v.args[0] != 0:
                    continue
                u = core(u)
                if u in self.amounts:
                    return "amount"
                if u.op == "ld" and isinstance(u.args[1], tuple) and u.args[1] and u.args[1][-1] in self.split:
                    return u.args[1][-1]

    def fid(self, site):
        fr, b = site
        return (fr.prep.path, b, fr.fid)

    def bank(self, an, st, a):
        out = set()
        for r, p in c01.bank_keys(an, st, a):
            out.add(self.D(T("ref", r, p, 0)))
        return "|".join(sorted(out))

    def account(self, an, st, a):
        out = []
        an.reach_roots(st, a, out, mut=True)
        s = {r.args[0].args[0].args[0] for r, _ in out if r.op == "obj" and r.args[0].op == "dyn" and r.args[0].args[0].op == "acct"}
        return "|".join(sorted(s)) or "?"

    def ev(self, m, site, kind, who, what, amt):
        self.seen.add((kind, who, what))
        m.add(("ev", site, kind, who, what, amt))

    def on_call(self, an, st, fr, name, res, args, site):
        if "try_accounts" in fr.prep.path:
            return None
        m = set(st.marks)
        last = res.split("::")[-1]
        if res.startswith("state::bank::Bank::") and last in BANKOPS:
            for pi, ai, sg in BANKOPS[last]:
                amt = an.argval(st, args[ai])
                self.ev(m, self.fid(site), "tok", self.bank(an, st, args[0]), self.account(an, st, args[pi]), amt if sg > 0 else T("un", "Neg", amt))
        elif name.startswith(("anchor_spl::token::transfer",)):
            self.transfer(an, st, m, args, self.fid(site))
        elif last == "reload" and args[0].op == "ref":
            self.before = self.amount(an, st, args[0])
        elif last == "socialize_loss":
            self.ev(m, self.fid(site), "loss", self.D(args[0]), "socialized", an.argval(st, args[1]))
        elif name.endswith("::push") and name.startswith("std::vec::"):
            v = an.argval(st, args[1])
            if v.op == "agg" and str(v.args[0]).endswith("TokenVaultChange"):
                self.ev(m, self.fid(site), "change", "changes", "amount", v.args[2][list(v.args[1]).index("amount")] if "amount" in v.args[1] else v)
        m = frozenset(m)
        return m if m != st.marks else None

    def amount(self, an, st, ref):
        v = an.argval(st, ref)
        r, p = (T("obj", T("data", v)), ()) if v.op == "acct" else an.deref_val(ref)
        return self.D(T("ref", r, p, 0)), an.read(st, (r, p + ("amount",)))

    def on_ret(self, an, st, fr, name, res, args, ret, site):
        # a vault balance read again after calls to other programs
        if res.split("::")[-1] == "reload" and args[0].op == "ref" and "try_accounts" not in fr.prep.path:
            who, new = self.amount(an, st, args[0])
            m = set(st.marks)
            self.ev(m, self.fid(site), "vault", who, "amount", T("bin", "Sub", new, self.before[1]))
            return frozenset(m)

    def transfer(self, an, st, m, args, site):
        ctx = an.full_deref(st, args[0])
        amt = an.argval(st, args[1])
        accs = [x for x in subterms(ctx) if x.op == "agg" and str(x.args[0]).endswith("Transfer")]
        if accs:
            f = dict(zip(accs[0].args[1], accs[0].args[2])) if accs[0].args[1] and len(accs[0].args[1]) == len(accs[0].args[2]) else {}
            fs = accs[0].args[2]
            frm, to = f.get("from", fs[0]), f.get("to", fs[1])
            self.ev(m, site, "cpi", self.D(frm), self.D(to), amt)
        else:
            self.ev(m, site, "cpi", "?", self.D(ctx)[:200], amt)

    def on_write(self, an, st, fr, place, v):
        root, path = place
        if not path or "try_accounts" in fr.prep.path:
            return None
        f = path[-1]
        if root.op == "obj" and root.args[0].op == "dyn" and root.args[0].args[0].op == "acct" and "@PerpPosition" in path and f in PERPFIELDS:
            old = an.read(st, place)
            m = set(st.marks)
            self.ev(m, (fr.prep.path, fr.fid, f), "perp", root.args[0].args[0].args[0], f, T("bin", "Sub", v, old))
            return frozenset(m)
        if f == "flash_loan_approved_amount" and root.op == "obj":
            m = set(st.marks)
            self.ev(m, (fr.prep.path, fr.fid, f), "approved", self.D(T("ref", root, path[:-1], 0)), f, v)
            return frozenset(m)
        if f in FEES and root.op == "obj":
            old = an.read(st, place)
            m = set(st.marks)
            self.ev(m, (fr.prep.path, fr.fid, f), "fee", self.D(T("ref", root, path[:-1], 0)), f, T("bin", "Sub", v, old))
            return frozenset(m)


def core(u):
    while u.op in ("cast", "num", "into", "aliased", "un"):
        u = u.args[0] if u.op == "aliased" else u.args[-1]
    return u


def parts(t):
    """The amounts a term can stand for."""
    t = core(t)
    return {t}.union(*[parts(x) for x in t.args]) if t.op == "alt" else {t}


def simp(st, amt):
    """The amount, zero where the path knows it is zero."""
    u = core(amt)
    if u.op != "int" and (st.facts.get(T("lt", I(0), u)) == ("is", False) or st.facts.get(T("eq", u, I(0))) == ("is", True) or st.facts.get(T("eq", I(0), u)) == ("is", True)):
        return I(0)
    return amt


def events(st):
    return sorted((x[:5] + (simp(st, x[5]),) for x in st.marks if isinstance(x, tuple) and x[0] == "ev"), key=lambda x: str(x[1:5]))

