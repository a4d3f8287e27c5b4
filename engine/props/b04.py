"""Borrow, deposit and reduce-only limits of banks."""
import re
from fractions import Fraction
from ctx import *
import alg, logic, summ, guards, ledger
from logic import V, vmin, vmax
from props import c02
from terms import T, Term

META = dict(
    title="Net-borrow, utilization, deposit and reduce-only limits always bind",
    statement="A user can increase a borrow (withdraw, flash loan, serum order, conditional swap) only if afterwards the bank's borrows stay within its maximum utilization, the net borrows of the current window priced at the worse of oracle and stable price stay within the limit, and the bank is not in a mode forbidding new borrows; withdrawals of own deposits still need total borrows not to exceed total deposits. A user can raise a deposit (deposit, flash loan, serum order, conditional swap) only within the deposit limit including potential serum tokens and, on deposit, the group's per-account limit, and not in reduce-only mode. Every change of a borrow counts in the net-borrow window: loans with their fee, repayments by the part that reduces the borrow.",
    q=(["inputs", "histories"], "Every amount, position, bank state, limit setting and time, and every instruction that moves user tokens into or out of banks."),
    files=["programs/mango-v4/src/state/bank.rs", "programs/mango-v4/src/instructions/token_withdraw.rs", "programs/mango-v4/src/instructions/token_deposit.rs", "programs/mango-v4/src/instructions/flash_loan.rs",
           "programs/mango-v4/src/instructions/serum3_place_order.rs"],
    mechanism=[("Bank::check_*, enforce_*, update_net_borrows, are_*_reduce_only, checked_transfer_with_fee", "state/bank.rs"), ("limit checks after booking", "instructions/*.rs")],
    technique="path summaries over MIR compared as formulas; path-sensitive dataflow requiring checks after each booking")
LEVEL = "proof"
RULE = ("Each limit check's success condition equals its formula; every path of the bank operations calls the net-borrow tracker with exactly the change of the borrow; in each user instruction (and each iteration of its loops) that books a change, "
        "the checks for a possible borrow or deposit increase succeed afterwards on the same bank, unless tests on the path exclude the increase.")

B = "state::bank::Bank::"
S = lambda f: V("self." + f)
DROP = lambda a: a.startswith("disc checked_")


def defs(c):
    dep, bor = S("deposit_index") * S("indexed_deposits"), S("borrow_index") * S("indexed_borrows")
    price = vmax(V("oracle_price"), S("stable_price_model.stable_price"))
    win, lim = S("net_borrows_in_window"), S("net_borrow_limit_per_window_quote")
    ro = S("reduce_only")
    want = {
        "enforce_max_utilization_on_borrow": [{bor <= (1 - S("min_vault_to_deposits_ratio")) * dep}],
        "enforce_borrows_lte_deposits": [{bor <= dep}],
        "check_net_borrows": [{win < 0}, {lim < 0}, {price * win <= lim}],
        "check_deposit_and_oo_limit": [{S("deposit_limit").eq(0)}, {dep + S("potential_serum_tokens") <= S("deposit_limit")}],
        "are_deposits_reduce_only": [{ro.eq(1)}],
        "are_borrows_reduce_only": [{ro.eq(1)}, {ro.eq(2)}],
    }
    for f, w in sorted(want.items()):
        r, outs, old, new = logic.formula(c, B + f, drop=DROP)
        got = logic.when(r, outs, None if f.startswith("are_") else logic.is_ok)
        w = [frozenset(x) for x in w]
        c.cov["formulas"] = c.cov.get("formulas", 0) + 1
        c.need(logic.equivalent(got, w), "def:" + f, "Bank::%s holds when %s, expected %s" % (f, logic.show_dnf(r, got), logic.show_dnf(r, w)), c.where(B + f))


def tracker(c):
    """update_net_borrows: the rounded-up amount, added within the window, restarting in a new one."""
    f = B + "update_net_borrows"
    r, outs, old, new = logic.formula(c, f, drop=lambda a: "32768" in a or "9223372036854775807" in a)
    x = r.x
    amt = logic.fn("ceil", V("native_amount"))
    newwin = V("now_ts") >= S("last_net_borrows_window_start_ts") + S("net_borrow_limit_window_size_ts")
    n = 0
    for lits, rv, st in outs:
        m = {p for b, p in lits if b == newwin[0]}
        n += 1
        w = V(x.poly(new(st, "self", "net_borrows_in_window")))
        start = x.poly(new(st, "self", "last_net_borrows_window_start_ts"))
        fresh = m == {newwin[1]}
        if len(m) != 1:
            c.bad("tracker:window", "update_net_borrows does not tell a new window from the current one by its start and length", c.where(f))
            continue
        d = w if fresh else w - S("net_borrows_in_window")
        c.need(clamped(d.p, amt), "tracker:amount", "update_net_borrows %s the window's total %s" % ("restarts" if fresh else "changes", "with %s" % alg.text(d.p)), c.where(f))
        if fresh:
            size = S("net_borrow_limit_window_size_ts")
            t = r.D(new(st, "self", "last_net_borrows_window_start_ts"))
            s = "self.net_borrow_limit_window_size_ts"
            c.need(t in ("((now_ts / %s) * %s)" % (s, s), "(%s * (now_ts / %s))" % (s, s), "(now_ts - (now_ts Rem %s))" % s), "tracker:start", "a new window starts at %s" % t, c.where(f))
        else:
            c.need(V("self.last_net_borrows_window_start_ts").same(start), "tracker:start", "the window start moves to %s within the window" % alg.text(start), c.where(f))
    c.floor("tracker paths", n, 2)


def clamped(p, amt):
    """The amount, or one of the ends of its integer range (or a choice among them)."""
    if alg.key(p) == alg.key(amt.p):
        return True
    if not p or len(p) == 1 and () in p:
        v = p.get((), 0)
        return abs(v) >= 1 << 14          # saturated (an end of the i64 range, possibly read as fixed point)
    if len(p) == 1:
        (m, cf), = p.items()
        return cf == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], str) and "ceil(native_amount)" in m[0][0] and "-" not in m[0][0].replace("-9223372036854775808", "").replace("-32768", "")
    return False


class TrackRule(summ.EffectRule):
    """Records what the net-borrow tracker is told."""

    def __init__(self, prog, *a):
        summ.EffectRule.__init__(self, prog, *a)
        self.opaque |= {p for p in prog.fns if p.split("::")[-1] == "update_net_borrows"}
        self.told = {}

    def frames(self, res):
        return res.split("::")[-1] == "update_net_borrows"

    def on_call(self, an, st, fr, name, res, args, site):
        if str(res).split("::")[-1] == "update_net_borrows" or str(name).split("::")[-1] == "update_net_borrows":
            self.told[site] = args
            return st.marks | {("told", site, args[1])}


def tracked(c):
    """Every bank operation tells the tracker the change of the borrow."""
    from props import b03
    n = told = 0
    for fn, (arg, sg, fee, dusting) in sorted(b03.OPS.items()):
        path = B + fn
        r = TrackRule(c.prog, (), ("update_cumulative_interest", "native"))
        r, an, outs, old, new = summ.effects(c, path, rule=r)
        x = alg.Alg(r.D, exact=True, delta=True, nonneg={"deposit_index", "borrow_index", "loan_origination_fee_rate"})
        x.nn[T("arg", arg)] = not fn.startswith("change")
        bad = None
        for atoms, rv, st in outs:
            if b03.variant(rv) == "Err":
                continue
            P = b03.Path(c, x, r, st, old, new, atoms)
            if P.sign == "both":
                continue
            n += 1
            d = P.sub(P.raw["indexed_borrows"])
            t = [m for m in st.marks if isinstance(m, tuple) and m[0] == "told"]
            told += len(t)
            nat = alg.mul(P.bi, d)
            if len(t) > 1:
                bad = "tells the net-borrow tracker more than once"
            elif not t:
                if nat:
                    bad = "changes the borrow by %s without telling the net-borrow tracker" % b03.pt(r, nat)
            else:
                a = P.sub(x.poly(t[0][2]))
                amt = x.poly(T("arg", arg)) if fn not in ("withdraw_loan_origination_fee",) else alg.mul(x.poly(old("self", "loan_origination_fee_rate")), x.poly(T("arg", arg)))
                full = alg.mul(P.p, P.bi)
                dep = alg.key(P.sub(V(x.minmax_p("max", [full, amt if fn.startswith("change") and P.known(alg.scale(amt, -1)) else alg.scale(amt, -1)])).p))
                if alg.key(a) != alg.key(nat) and not (P.sign == "b" and alg.key(a) == dep):
                    bad = "tells the net-borrow tracker %s for a borrow change of %s" % (b03.pt(r, a), b03.pt(r, nat))
            if bad:
                bad += " [on the path where %s]" % " and ".join(sorted(q for q in atoms if len(q) < 120))[:300]
                break
        c.need(not bad, "tracked:" + fn, "Bank::%s %s" % (fn, bad), c.where(path))
    c.floor("tracked paths", n, 40)
    c.floor("tracker calls", told, 15)


# ---------------------------------------------------------------- instructions

BORROW, RO_B, DEPLIM, RO_D = "borrow", "reduce-only borrows", "deposit limit", "reduce-only deposits"
# instruction -> (bank whose changes are booked, obligations)
SPEC = {
    "token_withdraw": (r"bank", (BORROW, RO_B)),
    "token_force_withdraw": (r"bank", ("lte",)),
    "token_deposit": (r"bank", (DEPLIM, RO_D)),
    "token_deposit_into_existing": (r"bank", (DEPLIM, RO_D)),
    "flash_loan_end_v2": (r"accounts", (BORROW, RO_B, DEPLIM, RO_D)),
    "serum3_place_order": (r"payer_bank", (BORROW, RO_B, "payer limit")),
    "serum3_place_order_v2": (r"payer_bank", (BORROW, RO_B, "payer limit")),
}
TRANSFER = ("token_conditional_swap_trigger", "token_conditional_swap_trigger_v2", "token_conditional_swap_start")
# not limited: no user-chosen increase of a borrow or deposit against the outside (liquidation, settlement of existing claims, fees)
EXEMPT = {
    "account_buyback_fees_with_mngo": "swap of the user's own deposits with the fee account", "perp_liq_base_or_positive_pnl": "liquidation", "perp_liq_negative_pnl_or_bankruptcy_v2": "liquidation",
    "perp_settle_fees": "settlement", "perp_settle_pnl": "settlement", "admin_perp_withdraw_fees": "admin fees", "admin_token_withdraw_fees": "admin fees",
    "token_liq_with_token": "liquidation", "token_liq_bankruptcy": "liquidation", "liq_token_bankruptcy": "liquidation", "liq_token_with_token": "liquidation",
    "token_force_close_borrows_with_token": "forced close", "serum3_settle_funds_v2": "settling proceeds", "serum3_liq_force_cancel_orders": "liquidation",
    "token_charge_collateral_fees": "fees", "account_close": "leftovers", "token_deregister": "no positions",
    "serum3_close_open_orders": "closing may dust an unused position", "token_conditional_swap_cancel": "closing may dust an unused position",
}


class OpRule(c02.R):
    """Marks: op (a booking happened), ck (a check succeeded), ro (mode), sg (what is known about the amount)."""

    def __init__(self, prog, ix, amts=None):
        c02.R.__init__(self, prog, ix)
        self.D = guards.Desc(self)
        self.x = alg.Alg(self.D)
        self.ops = {}
        self.capped = set()
        self.amts = amts           # amounts found by a first run
        self.known = []
        self.entry = {}
        self.iters = set()
        self.prices = set()
        self.stray = set()
        self.opaque |= {p for p in prog.fns if p.startswith("state::bank::Bank::") and p.split("::")[-1] in ledger.BANKOPS}

    def on_call(self, an, st, fr, name, res, args, site):
        r = c02.R.on_call(self, an, st, fr, name, res, args, site)
        f = str(res or name)
        g = f.split("::")[-1]
        if g in ledger.BANKOPS and (f.startswith("state::bank::Bank::")) and "try_accounts" not in fr.prep.path:
            bank = unprime(self.D(args[0]))
            for pi, ai, sg in ledger.BANKOPS[g]:
                a = alg.scale(self.x.poly(args[ai]), sg)
                self.ops.setdefault(bank, set()).add((alg.key(a), g))
                ro = [m for m in st.marks if m[0] == "ro" and m[1] == "are_deposits_reduce_only"]
                if ro and g == "deposit":
                    for m in ro:
                        self.capped.add((m[3], alg.text(a)))
            return (r if r is not None else st.marks) | {("op", bank, g)}
        return r

    def on_branch(self, an, st, fr, t, val):
        m = c02.R.on_branch(self, an, st, fr, t, val)
        m0 = m if m is not None else st.marks
        if "try_accounts" in fr.prep.path:
            return m
        add = set()
        for k in self.classify(t, val):
            if k[0] in ("ck",):
                k = k + (any(q[0] == "op" and q[1] == k[2] for q in m0),)
            add.add(k)
        return m0 | add if add - m0 else m

    def classify(self, t, val):
        t0, v0 = t, val
        while t.op in ("not", "cast") or t.op == "un" and t.args[0] == "Not":
            if t.op != "cast":
                val = not val
            t = t.args[-1]
        if t.op == "eq":
            a, b = t.args
            if a.op == "disc" and b.op == "int" and a.args[0].op == "call":
                f = str(a.args[0].args[0]).split("::")[-1]
                if f in CHECKS and (b.args[0] == 0) == val:
                    args = a.args[0].args[1]
                    if f == "check_net_borrows":
                        self.prices.add(self.D(args[1]))
                    return [("ck", f, unprime(self.D(args[0])))]
            if boolcall(a) and b.op == "int":
                return [("ro", boolcall(a), unprime(self.D(a.args[1][0])), bool(b.args[0]) == val)]
            z = self.x.poly(a), self.x.poly(b)
            d = alg.add(z[0], alg.scale(z[1], -1))
            if val and self.amts:
                return [("sg", bank, k, q) for bank, k, q in self.signs(d) + self.signs(alg.scale(d, -1))]
            return []
        if boolcall(t):
            return [("ro", boolcall(t), unprime(self.D(t.args[1][0])), val)]
        if t.op == "lt" and self.amts:
            d = alg.add(self.x.poly(t.args[1]), alg.scale(self.x.poly(t.args[0]), -1))
            if not val:
                d = alg.scale(d, -1)
            return [("sg", bank, k, q) for bank, k, q in self.signs(d)] + self.posafter(t, val)
        return []

    def signs(self, d):
        """d >= 0 is known: what does it say about the amount or the balance after booking?"""
        out = []
        for bank, ams in self.amts.items():
            for a, g in ams:
                a = dict(a)
                if alg.key(d) == alg.key(a):
                    out.append((bank, "amt", "up"))
                elif alg.key(d) == alg.key(alg.scale(a, -1)):
                    out.append((bank, "amt", "down"))
                for s in (1, -1):
                    rest = alg.add(alg.scale(d, s), alg.scale(a, -1))       # d = s*(amt + native + k)
                    k = rest.get((), 0)
                    rest = {m: cf for m, cf in rest.items() if m != ()}
                    if len(rest) == 1:
                        (m, cf), = rest.items()
                        if cf == 1 and len(m) == 1 and m[0][1] == 1 and str(m[0][0]).startswith("native(") and str(m[0][0]).rstrip("')").endswith(bank.rstrip("')")):
                            if s == 1 and k <= 0:
                                out.append((bank, "after", "up"))
                            elif s == -1 and -1 <= k <= 0:
                                # d = -(amt + native + k) >= 0: after <= -k
                                out.append((bank, "after", "down"))
        return out

    def posafter(self, t, val):
        """The stored position compared with zero after booking."""
        x, y = t.args
        z = [q for q in (x, y) if q.op == "int" and q.args[0] == 0]
        o = [q for q in (x, y) if q.op != "int"]
        if len(z) == 1 and len(o) == 1 and "indexed_position" in self.D(o[0])[-20:] and havoc(o[0]):
            up = (y is o[0]) == val
            return [("sg", bank, "after", "up" if up else "down") for bank in self.amts]
        return []

    def on_loop(self, an, st, fr, hdr, first):
        if "try_accounts" in fr.prep.path:
            return None
        mine = {m for m in st.marks if m[0] in ("op", "ck", "ro", "sg")}
        e = self.entry.setdefault(hdr, set())
        if first:
            e |= mine
            return None
        new = frozenset(mine - e)
        if any(m[0] == "op" for m in new):
            self.iters.add(new)
        if new:
            return frozenset(m for m in st.marks if m not in new)


CHECKS = ("enforce_max_utilization_on_borrow", "enforce_borrows_lte_deposits", "check_net_borrows", "check_deposit_and_oo_limit")


def unprime(s):
    return s.replace("'", "")


def boolcall(t):
    if t.op == "call":
        f = str(t.args[0]).split("::")[-1]
        if f in ("are_borrows_reduce_only", "are_deposits_reduce_only"):
            return f
    return None


def havoc(t):
    """A value read after the position was changed."""
    return any(x.op in ("hv", "upd") or x.op == "ld" and x.args[2] is not None for x in subterms(t))


def holds(ob, marks, bank):
    ck = {m[1] for m in marks if m[0] == "ck" and m[2] == bank and m[3]}
    sg = {m[2:4] for m in marks if m[0] == "sg" and m[1] == bank}
    ro = {(m[1], m[3]) for m in marks if m[0] == "ro" and m[2] == bank}
    noborrow = ("amt", "up") in sg or ("after", "up") in sg
    nodep = ("amt", "down") in sg or ("after", "down") in sg
    if ob == BORROW:
        return {"enforce_max_utilization_on_borrow", "check_net_borrows"} <= ck or ("enforce_borrows_lte_deposits" in ck and noborrow)
    if ob == "lte":
        return "enforce_borrows_lte_deposits" in ck
    if ob == RO_B:
        return ("are_borrows_reduce_only", False) in ro or noborrow
    if ob == DEPLIM:
        return "check_deposit_and_oo_limit" in ck or nodep
    if ob == "payer limit":
        return "check_deposit_and_oo_limit" in ck or noborrow
    if ob == RO_D:
        return ("are_deposits_reduce_only", False) in ro or nodep
    raise Exception(ob)


def instruction(c, ix):
    P = c.prog
    bank, obs = SPEC[ix]
    r1 = OpRule(P, ix)
    run_entry(P, ix, r1)
    rule = OpRule(P, ix, amts=r1.ops)
    an, oks = run_entry(P, ix, rule)
    out = [("cov", "paths", an.steps), ("cov", "instructions", 1)]
    groups = [frozenset(m for m in s.marks if m[0] in ("op", "ck", "ro", "sg")) for s, _ in oks] + list(rule.iters)
    groups = [g for g in groups if any(m[0] == "op" and m[1] == bank for m in g)]
    out.append(("cov", "booking paths", len(groups)))
    if not groups:
        return out + [("bad", "anchor:" + ix, "%s never books a change on %s (anchor lost)" % (ix, bank), "instruction " + ix)]
    for ob in obs:
        if ob == RO_D and ix.startswith("token_deposit"):
            caps = {a for on, a in rule.capped if on}
            good = caps and all(re.match(r"^min\(\$amount, (ceil\(abs|abs\(floor)\(min\(0, native\([^()]*(\([^()]*\)[^()]*)*\)\)\)\)\)$", a) for a in caps)
            out.append(("ok", "%s:%s" % (ob, ix)) if good else ("bad", "%s:%s" % (ob, ix), "%s in reduce-only mode can deposit more than the borrow (%s)" % (ix, "; ".join(sorted(caps))[:300]), "instruction " + ix))
            continue
        bad = [g for g in groups if not holds(ob, g, bank)]
        out.append(("bad", "%s:%s" % (ob, ix), "%s can book a change on %s without its %s check: %s" % (ix, bank, ob, sorted(map(str, bad[0]))), "instruction " + ix) if bad else ("ok", "%s:%s" % (ob, ix)))
    return out


def transfer(c):
    """checked_transfer_with_fee: each leg respects reduce-only, and risen totals are checked."""
    f = B + "checked_transfer_with_fee"
    ops = ("withdraw_with_fee", "deposit", "check_net_borrows", "check_deposit_and_oo_limit", "are_borrows_reduce_only", "are_deposits_reduce_only")
    r, outs, old, new = logic.formula(c, f, opaque=ops)
    n = 0

    def sign(lits, name, up):
        """name' >= 0 (up) or <= 0"""
        for (k, q), p in lits:
            if k == "gt" and len(q) == 1:
                (m, cf), = q
                if len(m) == 1 and unprime(str(m[0][0])) == name and "'" in str(m[0][0]):
                    if cf > 0 and not p and not up or cf < 0 and not p and up or cf > 0 and p and up or cf < 0 and p and not up:
                        return True
        return False

    def risen(lits, name):
        """None if never compared, else whether the total has risen by more than the rounding unit"""
        for (k, q), p in lits:
            if k != "gt":
                continue
            names = {str(m[0][0]): cf for m, cf in q if len(m) == 1}
            if {unprime(x) for x in names} == {name} and len(names) == 2 and all(m == () or len(m) == 1 for m, cf in q):
                const = dict(q).get((), 0)
                after = [cf for x, cf in names.items() if "'" in x]
                if len(after) == 1 and abs(const) <= Fraction(2, 1 << 48):
                    return p if after[0] > 0 and const <= 0 else None if after[0] > 0 else (True if not p and const >= 0 else False if p else None)
        return None

    def passed(lits, g):
        return any(k == "txt" and q.startswith("disc %s(" % g) and (q.endswith("== 0") and p or q.endswith("== 1") and not p) for (k, q), p in lits)

    def called(lits, g):
        return passed(lits, g)

    def flag(lits, g):
        for (k, q), p in lits:
            if k == "txt" and q.startswith(g + "("):
                return p
        return None
    probs = set()
    for lits, rv, st in outs:
        if not logic.is_ok(rv):
            continue
        n += 1
        if called(lits, "withdraw_with_fee") and not sign(lits, "source.indexed_position", True) and flag(lits, "are_borrows_reduce_only") is not False:
            probs.add("the source can go below zero although new borrows are not allowed")
        if called(lits, "deposit") and not sign(lits, "target.indexed_position", False) and flag(lits, "are_deposits_reduce_only") is not False:
            probs.add("the target can end above zero although deposits are not allowed")
        if called(lits, "withdraw_with_fee") or called(lits, "deposit"):
            if risen(lits, "self.indexed_borrows") is not False and not passed(lits, "check_net_borrows"):
                probs.add("borrows can rise without the net borrow check")
            if risen(lits, "self.indexed_deposits") is not False and not passed(lits, "check_deposit_and_oo_limit"):
                probs.add("deposits can rise without the deposit limit check")
    c.need(not probs, "transfer", "Bank::checked_transfer_with_fee: %s" % "; ".join(sorted(probs)), c.where(f))
    c.floor("transfer paths", n, 8)


LTE = r"^disc enforce_borrows_lte_deposits\(%s'*\) == 0$"
GUARDS = {
    "token_deposit": [("group limit", guards.always, [[r"^group\.deposit_limit_quote <= 0$", r"^group\.deposit_limit_quote == 0$", r"health_assets_and_liabs_stable_assets\(cache\(account\)'*, Init\{\}\)\.0.* <= group\.deposit_limit_quote$"]])],
    "token_withdraw": [("no borrow unless asked for", guards.chg("account"), [[r"^\$allow_borrow$", r" <= native\(account, bank\)$"]]),
                       ("trusted price for a borrow", guards.chg("account"), [[r"^disc check_confidence_and_maybe_staleness\(oracle_state_unchecked\(from_reader\(air\(oracle\)\), bank\.mint_decimals\), bank\.oracle_config'*, Some\{tup\{get\(\)\.unix_timestamp, get\(\)\.slot\}\}\) == 0$", LTE % "bank"],
                                                                           [r"^disc check_net_borrows\(bank'*, oracle_state_unchecked\(from_reader\(air\(oracle\)\), bank\.mint_decimals\)\.price\) == 0$", LTE % "bank"]])],
}
GUARDS["token_deposit_into_existing"] = GUARDS["token_deposit"]
for _ix in ("serum3_place_order", "serum3_place_order_v2"):
    GUARDS[_ix] = [("market not reduce-only", guards.always, [r"^serum_market\.reduce_only != 1$"]),
                   ("receiver deposit limit", guards.always, [r"^disc check_deposit_and_oo_limit\((accounts|bank)\b.*\) == 0$"]),
                   ("receiver accepts deposits", guards.always, [[r"^!are_deposits_reduce_only\((accounts|bank\b)", r"\.balance_spot \+ total_serum3_potential\(cache\(account\)'*, \w+\{\}, .*\)\) < 1$"]]),
                   ("payer price", guards.always, [[r"^disc check_net_borrows\(payer_bank'*, oracle_price\(payer_bank'*, from_reader\(air\(payer_oracle\)\), .*\)\) == 0$", LTE % "payer_bank"]])]


def unlisted(c):
    """An instruction that books user balance changes is either checked here, exempt for a stated reason, or a transfer."""
    P = c.prog
    ops = {B + o for o in ledger.BANKOPS}
    reach = P.reaching(lambda k, n: k == "fn" and n in ops) | ops
    nm = P.names()
    ents = c.entries()
    for ix in ents:
        if ix in SPEC or ix in EXEMPT or ix in TRANSFER or ix.startswith("openbook_v2_"):
            continue
        p = "__private::__global::" + ix
        c.need(p not in reach, "listed:" + ix, "%s books changes in banks but its limits are not listed" % ix, "instruction " + ix)
    for ix in TRANSFER:
        c.need(ix in ents, "listed:" + ix, "instruction %s is no longer exported" % ix)


def check(c):
    c.fn(B + "check_net_borrows")
    defs(c)
    tracker(c)
    tracked(c)
    transfer(c)
    unlisted(c)
    guards.run_guards(c, GUARDS)
    c.cov["instructions"] = 0
    c.pmap(lambda ix: instruction(c, ix), sorted(SPEC))
    c.floor("instructions", c.cov.get("instructions", 0), len(SPEC))
