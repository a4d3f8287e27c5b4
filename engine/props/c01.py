"""Health is enforced around every operation that can lower it."""
import absint as A
from ctx import *
from props.common import *

META = dict(
    title="Operations that can lower an account's health end with a health check",
    statement="Withdrawing, placing perp or spot orders, ending a flash loan, starting or triggering a conditional swap, ending a health region and settling fees succeed only after a health check of the affected account made on state that already includes every position change of the instruction: init health is non-negative or no worse than a health computed before the change (below minus 1000 native units compared rounded up), and the account was not being liquidated. A liquidator, force-closer or conditional-swap taker ends with non-negative init health. Only an open health region, which must itself end with such a check, or making no change lifts this.",
    q=(["inputs", "histories"], "Every instruction argument, market and account state and oracle price."),
    files=["programs/mango-v4/src/instructions/token_withdraw.rs", "programs/mango-v4/src/instructions/perp_place_order.rs", "programs/mango-v4/src/instructions/serum3_place_order.rs",
           "programs/mango-v4/src/instructions/flash_loan.rs", "programs/mango-v4/src/instructions/token_conditional_swap_trigger.rs", "programs/mango-v4/src/state/mango_account.rs"],
    mechanism=[("check_health_pre / check_health_post", "state/mango_account.rs"), ("liqor health check", "instructions/token_liq_with_token.rs and the other liquidation instructions"),
               ("health cache adjustment", "health/cache.rs adjust_token_balance, recompute_perp_info, recompute_serum3_info")],
    technique="typestate dataflow over MIR (pre-check, change, cache sync, post-check protocol)")
LEVEL = "proof"
RULE = ("Typestate per account: pre-check -> position changes (each makes the health cache stale for that bank, perp market or spot market) -> cache sync "
        "-> post-check with the pre-check's own result.  Every successful exit that changed a position must have the post state, or be inside a health region.")

PREPOST = {
    "token_withdraw": "account", "flash_loan_end_v2": "account", "perp_place_order": "account", "perp_place_order_v2": "account", "perp_place_order_pegged": "account",
    "perp_place_order_pegged_v2": "account", "serum3_place_order": "account", "serum3_place_order_v2": "account", "token_conditional_swap_start": "liqee",
    "token_conditional_swap_trigger": "liqee", "token_conditional_swap_trigger_v2": "liqee",
}
STRICT = {  # ix -> (account, health region lifts the check)
    "token_liq_with_token": ("liqor", True), "liq_token_with_token": ("liqor", True), "perp_liq_base_or_positive_pnl": ("liqor", True),
    "perp_liq_negative_pnl_or_bankruptcy_v2": ("liqor", True), "token_liq_bankruptcy": ("liqor", True), "liq_token_bankruptcy": ("liqor", True),
    "token_force_close_borrows_with_token": ("liqor", False), "token_conditional_swap_trigger": ("liqor", False), "token_conditional_swap_trigger_v2": ("liqor", False),
    "perp_settle_fees": ("account", False),
}
NOREGION = {"flash_loan_end_v2", "token_conditional_swap_start", "token_conditional_swap_trigger", "token_conditional_swap_trigger_v2", "health_region_end"}
CHECKS = ("check_health_pre", "check_health_post", "check_health_post_checks_strict", "check_liquidatable")
POSFIELDS = {"@TokenPosition": {"indexed_position"}, "@PerpPosition": {"base_position_lots", "quote_position_native", "long_settled_funding", "short_settled_funding",
             "bids_base_lots", "asks_base_lots", "taker_base_lots", "taker_quote_lots"}}
BANKOPS = ("deposit", "withdraw", "change", "checked_transfer", "deposit_with_dusting", "withdraw_with_fee", "withdraw_without_fee", "withdraw_without_fee_with_dusting",
           "change_without_fee", "change_with_fee", "checked_transfer_with_fee")


def bank_keys(an, st, a, depth=0):
    """The bank(s) a reference may designate."""
    v = a
    if v.op == "alt":
        return set().union(*(bank_keys(an, st, x, depth) for x in v.args))
    r, p = an.deref_val(v)
    if r.op == "obj" and r.args[0].op == "data" or depth > 4:
        o = r.args[0] if r.op == "obj" else None
        if o is not None and not p and o.op == "data" and o.args[0].op == "ld":
            inner = o.args[0]
            if inner.args[0].op == "obj" and inner.args[0].args[0].op == "alt" and not inner.args[1]:
                return set().union(*(bank_keys2(an, st, an.read(st, an.deref_val(x)), depth + 1) for x in inner.args[0].args[0].args))
        return {(r, p)}
    v = an.read(st, (r, p))
    return bank_keys2(an, st, v, depth) if v.op in ("guard", "ref", "alt") else {(r, p)}


def bank_keys2(an, st, v, depth):
    if v.op == "guard":
        return {(T("obj", T("data", v.args[0])), ())}
    if v.op == "alt":
        return set().union(*(bank_keys2(an, st, x, depth) for x in v.args))
    return bank_keys(an, st, v, depth + 1)


class R(InlineRule):
    def __init__(self, prog, ix):
        InlineRule.__init__(self, prog)
        self.ix = ix
        self.opaque |= {p for p in prog.fns if p.startswith("state::mango_account::") and p.split("::")[-1] in CHECKS}

    def frames(self, res):
        return res.startswith("state::mango_account::") and res.split("::")[-1] in CHECKS

    def accts(self, an, st, args):
        out = []
        for a in args:
            an.reach_roots(st, a, out, mut=True)
        return {r.args[0].args[0].args[0] for r, _ in out if r.op == "obj" and r.args[0].op == "dyn" and r.args[0].args[0].op == "acct"}

    def dirty(self, m, accts, what):
        for a in accts:
            m |= {("dirty", a, what), ("chg", a)}
            m -= {("post", a), ("strict", a)}
        return m

    def on_call(self, an, st, fr, name, res, args, site):
        if "try_accounts" in fr.prep.path:
            return None
        m = set(st.marks)
        last = res.split("::")[-1]
        if res.startswith("state::bank::Bank::") and last in BANKOPS:
            acc = self.accts(an, st, args[1:])
            if acc:
                for k in bank_keys(an, st, args[0]):
                    self.dirty(m, acc, ("bank",) + k)
        elif last == "withdraw_loan_origination_fee":
            # charged besides the transfers: only an adjustment by the fee itself accounts for it
            self.dirty(m, self.accts(an, st, args[1:]), ("lof",))
        elif res.startswith(("state::orderbook", "<state::orderbook")) and not last.startswith("log"):
            acc = self.accts(an, st, args)
            if acc:
                self.dirty(m, acc, ("perp",))
        elif name.startswith("solana_program::program::invoke"):
            for a in self.known:
                if ("loaded", a) in m or True:
                    self.dirty(m, [a], ("serum",))
        elif last == "update_potential_serum_tokens" and self.ix in PREPOST:
            # the bank's scaled weights depend on it
            for k in bank_keys(an, st, args[0]):
                self.dirty(m, [PREPOST[self.ix]], ("bank",) + k)
        elif last == "adjust_token_balance":
            ks = [("bank",) + k for k in bank_keys(an, st, args[1])]
            if len(ks) == 1:
                m = {x for x in m if not (isinstance(x, tuple) and x[0] == "dirty" and x[2] == ks[0])}
            if any(x.op == "call" and str(x.args[0]).endswith("withdraw_loan_origination_fee") for x in subterms(an.argval(st, args[2]))):
                m = {x for x in m if not (isinstance(x, tuple) and x[0] == "dirty" and x[2] == ("lof",))}
            if self.backwards(an, st, args[2]):
                m.add(("backwards",))
        elif last == "recompute_perp_info":
            m = {x for x in m if not (isinstance(x, tuple) and x[0] == "dirty" and x[2] == ("perp",))}
        elif last == "recompute_serum3_info":
            m = {x for x in m if not (isinstance(x, tuple) and x[0] == "dirty" and x[2] == ("serum",))}
        elif res.startswith("health::") and (last.startswith("new_health_cache") or last == "compute_health"):
            ro = []
            an.reach_roots(st, args[0], ro)
            acc = {r.args[0].args[0].args[0] for r, _ in ro if r.op == "obj" and r.args[0].op == "dyn" and r.args[0].args[0].op == "acct"}
            m = {x for x in m if not (isinstance(x, tuple) and x[0] == "dirty" and x[1] in acc)}
        elif self.frames(res):
            acc = self.accts(an, st, args[:1])
            if last == "check_health_post":
                for a in acc:
                    self.post(an, st, m, a, args)
            elif last == "check_health_post_checks_strict":
                for a in acc:
                    if ("nobankborrow" in m):
                        m.add(("post", a))
        m = frozenset(m)
        return m if m != st.marks else None

    def post(self, an, st, m, a, args):
        if any(isinstance(x, tuple) and x[0] == "dirty" and x[1] == a for x in m):
            m.add(("stale", a))
            return
        pre = an.argval(st, args[2])
        if self.ix == "health_region_end":
            b = pre
            while b.op in ("num", "cast", "into"):
                b = b.args[-1]
            if nf(b) == data(a, "health_region_begin_init_health"):
                m.add(("post", a))
        elif pre_result(pre) and ("pre", a) in m:
            m.add(("post", a))

    def backwards(self, an, st, t):
        """An account change handed over as before - after."""
        t = an.argval(st, t)
        if t.op == "bin" and t.args[0] == "Sub":
            x, y = t.args[1], t.args[2]
            hx, hy = changed(x), changed(y)
            return hy and not hx
        return False

    def on_ret(self, an, st, fr, name, res, args, ret, site):
        last = res.split("::")[-1]
        if self.frames(res) and last == "check_health_pre":
            return st.marks | {("precall", a) for a in self.accts(an, st, args[:1])}

    def on_branch(self, an, st, fr, t, val):
        m = set(st.marks)
        if t.op == "eq" and t.args[0].op == "disc" and t.args[1].op == "int" and val == (t.args[1].args[0] == 0) and t.args[0].args[0].op == "call" and str(t.args[0].args[0].args[0]).endswith("check_health_pre"):
            m |= {("pre", x[1]) for x in m if isinstance(x, tuple) and x[0] == "precall"}
        if t.op == "eq":
            for x, y in (t.args, t.args[::-1]):
                n = nf(x)
                if n and n[0] == "data" and n[-1] == "in_health_region" and y.op == "int" and (val and y.args[0] == 1 or not val and y.args[0] == 0) and isinstance(n[1], str):
                    m.add(("region", n[1]))
        if t.op == "lt" and nz(t.args[1]) and not val:
            # !(compute_health(acct, Init) < 0)
            h = t.args[0]
            if h.op == "fld" and h.args[0].op == "call" and str(h.args[0].args[0]).endswith("::compute_health"):
                cargs = h.args[0].args[1]
                if A.variant_of(cargs[1]) == "Init":
                    acc = {x.args[0].args[0].args[0] for x in subterms(cargs[0]) if x.op == "obj" and x.args[0].op == "dyn" and x.args[0].args[0].op == "acct"}
                    for a in acc:
                        if not any(isinstance(x, tuple) and x[0] == "dirty" and x[1] == a for x in m):
                            m.add(("strict", a))
        # the withdrawn amount does not exceed the deposit: not a borrow
        if t.op == "lt" and not val and self.ix == "token_withdraw" and mentions(t.args[0], "indexed_position") and not ix_data(t.args[0]) and ix_data(t.args[1]):
            m.add("nobankborrow")
        m = frozenset(m)
        return m if m != st.marks else None

    def on_write(self, an, st, fr, place, v):
        root, path = place
        if path[-1:] == ("health_region_begin_init_health",) and self.ix == "health_region_begin":
            # what the end check compares with: never below the health computed at the start
            return st.marks | {"begin" if any(x.op == "call" and str(x.args[0]).endswith("::ceil") and pre_result(x.args[1][0]) for x in subterms(v)) else "lowbegin"}
        if root.args[0].op != "dyn" or root.args[0].args[0].op != "acct":
            return None
        a = root.args[0].args[0].args[0]
        if self.ix == "perp_settle_fees":  # applying accrued funding is not a settlement; the bank transfer is
            return None
        for i, e in enumerate(path):
            if e in POSFIELDS and (i + 1 < len(path) and path[i + 1] in POSFIELDS[e]):
                if v.op in ("int", "const") or v.op == "lit":
                    return None
                m = set(st.marks)
                self.dirty(m, [a], ("perp",) if e == "@PerpPosition" else ("token",))
                return frozenset(m)


def mentions(t, field):
    return any(x.op == "ld" and x.args[1] and x.args[1][-1] == field for x in subterms(t))


def nz(t):
    while t.op in ("num", "cast", "into"):
        t = t.args[-1]
    return t.op == "int" and t.args[0] == 0 or t.op == "const" and str(t.args[0]).endswith("ZERO")


def changed(t):
    return any(x.op == "hv" or x.op == "ld" and x.args[2] is not None for x in subterms(t))


def pre_result(t):
    if t.op == "alt":
        return all(pre_result(x) for x in t.args)
    return t.op == "fld" and t.args[0].op == "call" and str(t.args[0].args[0]).endswith("::check_health_pre")


MA = "state::mango_account::<impl state::dynamic_account::DynamicAccount<Header, Fixed, Dynamic>>::"


def definitions(c):
    """What the check functions themselves establish whenever they succeed."""
    from logic import V, fn
    import logic, alg

    def succeeds_only(name, dnf, text, opaque=("health",)):
        r, outs, old, new = logic.formula(c, MA + name, opaque)
        oks = [(ls, rv) for ls, rv, st in outs if logic.is_ok(rv)]
        c.need(oks, "def:%s-live" % name, "%s never succeeds" % name, c.where(MA + name))
        for ls, rv in oks:
            if not c.need(logic.implied(ls, dnf), "def:" + name, "%s succeeds where %s: %s" % (name, logic.show_dnf(r, [ls])[:300], text), c.where(MA + name)):
                return
        return r, oks

    def post_ok(post, pre):
        return [(post >= 0,), (post >= pre,), (post < -1000, fn("ceil", post) >= fn("ceil", pre))]
    H, L = V("health(health_cache, Init{})"), V("health(health_cache, LiquidationEnd{})")
    post, pre = V("post_init_health"), V("pre_init_health")
    bad = "init health may be negative and lower than before"
    succeeds_only("check_health_post_checks", post_ok(post, pre), bad)
    succeeds_only("check_health_post", post_ok(H, pre), bad)
    succeeds_only("check_health_post_checks_strict", [(post >= 0,)], "init health may be negative")
    flag = V("self.fixed.being_liquidated").eq(1)
    out = [((flag[0], not flag[1]),), (H > -1,), (L > -1,)]
    got = succeeds_only("check_health_pre", out, "the account may still be in liquidation")
    out = [((flag[0], not flag[1]),), (pre > -1,), (L > -1,)]
    succeeds_only("check_health_pre_checks", out, "the account may still be in liquidation")
    # the value handed to the post check is the init health before the change
    for ls, rv in got[1] if got else ():
        c.need(alg.key(got[0].x.poly(logic.inner(rv))) == alg.key(H.p), "def:pre-value", "check_health_pre does not return the init health of the cache it was given", c.where(MA + "check_health_pre"))


def check(c):
    P = c.prog
    ents = c.entries()
    definitions(c)
    todo = sorted(set(PREPOST) | set(STRICT) | {"health_region_begin", "health_region_end"})

    def one(ix):
        r = R(P, ix)
        r.known = [PREPOST[ix]] if ix.startswith("serum3_place") else []
        an, oks = run_entry(P, ix, r)
        out = [("cov", "paths", an.steps), ("cov", "instructions", 1)]
        if not oks:
            return out + [("bad", "live:" + ix, "%s has no successful exit" % ix, "")]
        chg = set()
        for s, _ in oks:
            m = s.marks
            chg |= {x[1] for x in m if isinstance(x, tuple) and x[0] == "chg"}
            if ("backwards",) in m:
                return out + [("bad", "sign:" + ix, "%s hands the health cache a balance change with the wrong sign" % ix, "instruction " + ix)]
            if ix in PREPOST:
                a = PREPOST[ix]
                if ("chg", a) in m and not (("region", a) in m and ix not in NOREGION):
                    if ("post", a) not in m:
                        why = "with a health cache that misses a change" if ("stale", a) in m or any(isinstance(x, tuple) and x[0] == "dirty" and x[1] == a for x in m) else "without a passing post health check"
                        return out + [("bad", "post:" + ix, "%s can change `%s` and succeed %s" % (ix, a, why), "instruction " + ix)]
                    if ("pre", a) not in m:
                        return out + [("bad", "pre:" + ix, "%s can succeed without the pre health check of `%s`" % (ix, a), "instruction " + ix)]
            if ix in STRICT:
                a, reg = STRICT[ix]
                if ("chg", a) in m and not (reg and ("region", a) in m) and ("strict", a) not in m:
                    return out + [("bad", "strict:" + ix, "%s can change `%s` and succeed without establishing that its init health is non-negative" % (ix, a), "instruction " + ix)]
            if ix == "health_region_end" and ("post", "account") not in m:
                return out + [("bad", "post:" + ix, "a health region can end without a passing health check", ix)]
            if ix == "health_region_begin" and ("lowbegin" in m or "begin" not in m):
                return out + [("bad", "beginhealth:" + ix, "a health region can begin with a stored health that is not the pre health rounded up", ix)]
            if ix == "health_region_begin" and ("pre", "account") not in m:
                return out + [("bad", "pre:" + ix, "a health region can begin without the pre health check", ix)]
        want = ({PREPOST[ix]} if ix in PREPOST else set()) | ({STRICT[ix][0]} if ix in STRICT else set())
        for a in want - chg:
            out.append(("bad", "anchor:" + ix, "no position change of `%s` found in %s (anchor lost)" % (a, ix), ix))
        return out + [("ok", k + ix) for k in ("post:", "pre:", "strict:")]
    c.pmap(one, todo)
    c.floor("instructions", c.cov.get("instructions", 0), len(todo))
