"""The liquidation state machine: when an account enters and leaves the being-liquidated state."""
import absint as A
from ctx import *
from props.common import *
from props import c01

META = dict(
    title="Liquidation starts only below maintenance health and ends only on recovery",
    statement="An account enters the being-liquidated state only when its maintenance health is negative (or it is bankrupt, with a borrow and nothing left to liquidate), and leaves it only when its liquidation-end or init health, computed from state that includes every change the instruction made, is above minus one native unit. Every liquidation instruction re-evaluates this at its end, and account creation starts with the state cleared.",
    q=(["inputs", "histories"], "Every account state, price and order of instructions."),
    files=["programs/mango-v4/src/state/mango_account.rs", "programs/mango-v4/src/instructions/token_liq_with_token.rs", "programs/mango-v4/src/instructions/token_liq_bankruptcy.rs",
           "programs/mango-v4/src/instructions/perp_liq_base_or_positive_pnl.rs", "programs/mango-v4/src/instructions/token_deposit.rs"],
    mechanism=[("check_liquidatable, maybe_recover_from_being_liquidated, check_health_pre_checks", "state/mango_account.rs")],
    technique="typestate dataflow over MIR on every write of the being_liquidated flag")
LEVEL = "proof"
RULE = ("Every write of being_liquidated in every instruction: setting it needs a dominating `maint health < 0` branch on the account's own cache; clearing it needs a dominating "
        "`health > -1` branch on liquidation-end or init health that is fresh (no position change of the account since the cache was synchronised).")

# the instructions that end with a recovery evaluation for the account
REEVAL = {"token_liq_with_token": "liqee", "liq_token_with_token": "liqee", "token_liq_bankruptcy": "liqee", "liq_token_bankruptcy": "liqee", "perp_liq_base_or_positive_pnl": "liqee",
          "perp_liq_negative_pnl_or_bankruptcy_v2": "liqee", "token_force_close_borrows_with_token": "liqee", "perp_liq_force_cancel_orders": "account",
          "serum3_liq_force_cancel_orders": "account"}
BANKRUPT = {"token_liq_bankruptcy", "liq_token_bankruptcy"}


def htype(t):
    """(kind, call) when t is a health value."""
    while t.op in ("num", "cast", "into"):
        t = t.args[-1]
    if t.op == "fld":
        t = t.args[0]
    if t.op == "call" and str(t.args[0]).split("::")[-1] in ("health", "compute_health") and "health" in str(t.args[0]):
        return A.variant_of(t.args[1][1]), t
    return None, None


SYNC = ("adjust_token_balance", "recompute_perp_info", "recompute_serum3_info")


def hacct(t):
    return {x.args[0].args[0].args[0] for x in subterms(t) if x.op == "obj" and x.args[0].op == "dyn" and x.args[0].args[0].op == "acct"}


class R(c01.R):
    def __init__(self, prog, ix):
        c01.R.__init__(self, prog, ix)
        self.opaque -= {p for p in self.opaque if p.startswith("state::mango_account::")}
        self.sets = set()
        self.owner = {}   # value of a health cache after a synchronising call -> accounts it describes
        self.pend = {}

    def frames(self, res):
        return False

    def hacct(self, t):
        out = hacct(t)
        for x in subterms(t):
            out |= self.owner.get(x, set())
        return out

    def dirty(self, m, accts, what):
        c01.R.dirty(self, m, accts, what)
        for a in accts:
            m -= {x for x in m if isinstance(x, tuple) and x[0] in ("fresh", "recov", "reeval") and x[1] == a}
        return m

    def on_call(self, an, st, fr, name, res, args, site):
        if "try_accounts" in fr.prep.path:
            return None
        m = c01.R.on_call(self, an, st, fr, name, res, args, site)
        if res.startswith("health::") and res.split("::")[-1] in SYNC:
            self.pend.setdefault(site, set()).update(self.hacct(an.full_deref(st, args[0])))
        if self.ix in BANKRUPT and res.split("::")[-1] == "adjust_token_balance":
            m = frozenset(x for x in (m if m is not None else st.marks) if not (isinstance(x, tuple) and x[0] == "dirty" and x[2][0] == "bank"))
        return m

    def on_ret(self, an, st, fr, name, res, args, ret, site):
        last = res.split("::")[-1]
        if res.startswith("health::") and last in SYNC:
            self.owner.setdefault(an.full_deref(st, args[0]), set()).update(self.pend.get(site, ()))
        if last in ("health", "compute_health") and res.startswith("health::"):
            k, t = htype(ret)
            if t is not None:
                m = set(st.marks)
                for a in self.hacct(t):
                    if not any(isinstance(x, tuple) and x[0] == "dirty" and x[1] == a for x in m):
                        m.add(("fresh", a, t))
                return frozenset(m)

    def on_branch(self, an, st, fr, t, val):
        m = set(st.marks)
        if t.op == "lt":
            x, y = t.args
            # -1 < H
            k, h = htype(y)
            if val and h is not None and k in ("LiquidationEnd", "Init") and neg1(x):
                for a in self.hacct(h):
                    if ("fresh", a, h) in m:
                        m.add(("recov", a))
            if not val and h is not None and k in ("LiquidationEnd", "Init") and neg1(x) or val is not None and h is not None and k in ("LiquidationEnd", "Init") and neg1(x):
                for a in self.hacct(h):
                    if ("fresh", a, h) in m:
                        m.add(("reeval", a))
            k, h = htype(x)
            if val and h is not None and k == "Maint" and c01.nz(y):
                for a in self.hacct(h):
                    if ("fresh", a, h) in m:
                        m.add(("maintneg", a))
        if t.op == "eq":
            for x, y in (t.args, t.args[::-1]):
                n = nf(x)
                if n and n[0] == "data" and n[-1] == "being_liquidated" and y.op == "int" and isinstance(n[1], str):
                    if (val and y.args[0] == 0) or (not val and y.args[0] == 1):
                        m.add(("reeval", n[1]))
        m = frozenset(m)
        return m if m != st.marks else None

    def on_write(self, an, st, fr, place, v):
        m = c01.R.on_write(self, an, st, fr, place, v)
        root, path = place
        if path[-1:] == ("being_liquidated",) and root.args[0].op == "data" and root.args[0].args[0].op == "acct":
            a = root.args[0].args[0].args[0]
            m = set(m if m is not None else st.marks)
            v = flag(v)
            self.sets.add((a, v))
            if v == 0:
                if ("recov", a) not in m and self.ix not in ("account_create", "account_create_v2"):
                    m.add(("badclear", a))
                m.add(("cleared", a))
            elif v == 1:
                if ("maintneg", a) not in m and self.ix not in BANKRUPT:
                    m.add(("badset", a))
                m -= {x for x in m if x in (("reeval", a), ("cleared", a))}
            else:
                m.add(("badset", a))
            return frozenset(m)
        return m


def flag(v):
    while v.op in ("cast", "into", "num"):
        v = v.args[-1]
    if v.op == "int":
        return v.args[0]
    return v


def neg1(t):
    """A threshold no lower than minus one native unit."""
    v = cval(t)
    return v is not None and (v >= -1 or v == -(1 << 48))


def cval(t):
    while t.op in ("num", "cast", "into"):
        t = t.args[-1]
    if t.op == "un" and t.args[0] == "Neg":
        v = cval(t.args[1])
        return -v if v is not None else None
    if t.op == "int":
        return t.args[0]
    return 1 << 48 if t.op == "const" and str(t.args[0]).endswith("::ONE") else 0 if c01.nz(t) else None


def check(c):
    P = c.prog
    ents = c.entries()

    def one(ix):
        r = R(P, ix)
        r.known = ["account"] if ix.startswith(("serum3_place", "serum3_liq")) else []
        an, oks = run_entry(P, ix, r)
        out = [("cov", "paths", an.steps), ("cov", "instructions", 1), ("cov", "writes of the flag", len(r.sets))]
        for s, _ in oks:
            m = s.marks
            for x in m:
                if isinstance(x, tuple) and x[0] == "badset":
                    return out + [("bad", "enter:" + ix, "%s can put `%s` into liquidation without establishing that its maintenance health is negative" % (ix, x[1]), "instruction " + ix)]
                if isinstance(x, tuple) and x[0] == "badclear":
                    return out + [("bad", "leave:" + ix, "%s can end the liquidation of `%s` without establishing on up-to-date health that it has recovered" % (ix, x[1]), "instruction " + ix)]
            if ix in REEVAL:
                a = REEVAL[ix]
                if ("chg", a) in m and ("reeval", a) not in m and ("cleared", a) not in m:
                    return out + [("bad", "reeval:" + ix, "%s can change `%s` and succeed without re-evaluating on up-to-date health whether its liquidation ends" % (ix, a), "instruction " + ix)]
        if ix in REEVAL and not any(("chg", REEVAL[ix]) in s.marks for s, _ in oks):
            out.append(("bad", "anchor:" + ix, "no position change of `%s` found in %s (anchor lost)" % (REEVAL[ix], ix), ix))
        return out + [("ok", "machine:" + ix)]
    c.pmap(one, ents)
    c.floor("instructions", c.cov.get("instructions", 0), 100)
    c.floor("writes of the flag", c.cov.get("writes of the flag", 0), 15)
