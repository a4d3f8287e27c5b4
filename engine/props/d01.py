"""Oracle prices: which feed they come from, and that staleness and confidence are checked before they are used."""
import re
from ctx import *
from terms import T
import absint as A
import alg, guards, rounds, txscan

META = dict(
    title="Prices come only from oracles that pass the staleness and confidence checks",
    statement="A bank's or perp market's price is that of the oracle account recorded for it, and is returned only if the oracle's deviation is at most conf_filter times its price and, when a current time is given, its last update is no older than the configured number of slots unless that is negative (and, for feeds with a publish time, no older than 450 ms per slot); a bank falls back only when the recorded oracle fails one of these checks, only to the recorded fallback oracle, and under the same checks. Every instruction that reads such a price gives the current clock, except where listings only seed the stable price or where the same instruction also obtains its health prices with the clock. Health computations always use the current clock. Prices read without a check are used only for statistics and logs, and in withdrawals for the net borrow limit after the check passed. A feed's price and deviation are its reported values scaled by the difference of decimals, and negative prices of real feeds are refused; pool prices use only the fixed USDC and SOL feeds.",
    q=(["inputs"], "Every oracle account content, configuration, time and instruction."),
    files=["programs/mango-v4/src/state/oracle.rs", "programs/mango-v4/src/state/bank.rs", "programs/mango-v4/src/state/perp_market.rs", "programs/mango-v4/src/health/account_retriever.rs"],
    mechanism=[("check_staleness, check_confidence, oracle_state_unchecked", "state/oracle.rs"), ("Bank::oracle_price", "state/bank.rs"), ("PerpMarket::oracle_state", "state/perp_market.rs"),
               ("account retrievers", "health/account_retriever.rs")],
    technique="exact path conditions and values over MIR; argument tracking at every price read of every instruction")
LEVEL = "proof"
RULE = ("The success condition and the returned value of the checks and price functions are computed from MIR as DNF over polynomial literals and compared with the expected formulas; "
        "for every instruction each reached price read is enumerated with its time argument, and terms of unchecked prices are tracked into calls.")

O = "state::oracle::"
ST = O + "OracleState::"
AR = "health::account_retriever::"
CHECK = "check_confidence_and_maybe_staleness"
# no time given: listings seed the stable price
LISTING = {"perp_create_market", "perp_edit_market", "token_edit", "token_register", "token_register_trustless"}
# no time given here, but the same instruction obtains its health prices with the clock
HEALTH = {"perp_liq_base_or_positive_pnl", "perp_settle_fees", "perp_settle_pnl", "serum3_place_order", "serum3_place_order_v2",
          "perp_place_order", "perp_place_order_v2", "perp_place_order_pegged", "perp_place_order_pegged_v2"}
UNCHECKED = {"token_deposit", "token_deposit_into_existing", "token_withdraw", "token_force_withdraw"}
ACTS = {"new_order", "cpi_place_order", "place_order", "record_settle", "record_liquidation_base_change", "change_base_and_quote_positions", "record_trade", "record_liquidation_quote_change"}
READ = ("oracle_price", "oracle_state")
RAW = ("oracle_state_unchecked", "fallback_oracle_state_unchecked")
CTORS = ("new_fixed_order_account_retriever", "new_fixed_order_account_retriever_with_optional_banks", "new_with_staleness")


def okwhen(r, outs):
    """When a Result function succeeds; a returned opaque call succeeds when it is Ok."""
    import logic
    out = []
    for m, rv, st in outs:
        if rv.op == "call":
            out.append(m | {logic.txt("disc %s == 0" % r.D(rv))})
        elif logic.is_ok(rv):
            out.append(m)
    return out


def conds(o, cfg, ts, slot):
    import logic
    V, fn, txt = logic.V, logic.fn, logic.txt
    m = V(cfg + ".max_staleness_slots")
    off = m < 0
    slots = V(slot) <= V("saturating_add(%s.last_update_slot, %s.max_staleness_slots)" % (o, cfg))
    timed = txt("disc %s.last_update_time == 1" % o)
    untimed = (timed[0], not timed[1])
    times = 1000 * V(o + ".last_update_time") >= V("saturating_sub((1000 * %s), (450 * %s.max_staleness_slots))" % (ts, cfg))
    stale = [{off}, {slots, untimed}, {slots, timed, times}]
    conf = V(o + ".deviation") <= V(cfg + ".conf_filter") * V(o + ".price")
    return stale, conf


def formulas(c):
    import logic
    txt, V = logic.txt, logic.V

    def cmp(path, opaque, want, key):
        r, outs, old, new = logic.formula(c, path, opaque)
        got = okwhen(r, outs)
        want = [frozenset(x) for x in want]
        c.cov["formulas"] = c.cov.get("formulas", 0) + 1
        c.need(outs and logic.equivalent(got, want), "def:" + key, "%s succeeds when %s, expected %s" % (path.split("::")[-1], logic.show_dnf(r, got)[:1500], logic.show_dnf(r, want)[:1500]), c.where(path))
        return r, outs
    stale, conf = conds("self", "config", "now_ts", "now_slot")
    cmp(ST + "check_staleness", (), stale, "staleness")
    cmp(ST + "check_confidence", (), [{conf}], "confidence")
    stale, conf = conds("self", "config", "now.0", "now.1")
    given = txt("disc now == 1")
    cmp(ST + CHECK, (), [{conf, (given[0], not given[1])}] + [x | {conf, given} for x in stale], "both")
    # perp markets
    key = V("self.oracle").eq(V("key(oracle_acc_infos.oracle)"))
    raw = "oracle_state_unchecked(oracle_acc_infos, self.base_decimals)"
    p = "state::perp_market::PerpMarket::oracle_state"
    chk = "disc %s(%%s, self.oracle_config, now) == 0" % CHECK
    r, outs = cmp(p, (CHECK, "oracle_log_context") + RAW, [{key, txt("disc %s == 0" % raw), txt(chk % raw)}], "perp")
    c.need(all(r.D(logic.inner(rv)) == raw for m, rv, st in outs if logic.is_ok(rv)), "value:perp", "PerpMarket::oracle_state does not return the state of its oracle", c.where(p))
    p = "state::perp_market::PerpMarket::oracle_price"
    call = "oracle_state(self, oracle_acc_infos, now)"
    r, outs = cmp(p, ("oracle_state",), [{txt("disc %s == 0" % call)}], "perp-price")
    c.need(all(r.D(logic.inner(rv)) == call + ".price" for m, rv, st in outs if logic.is_ok(rv)), "value:perp-price", "PerpMarket::oracle_price does not return the price of the checked state", c.where(p))
    # banks
    p = "state::bank::Bank::oracle_price"
    raw = "oracle_state_unchecked(oracle_acc_infos, self.mint_decimals)"
    fb = "fallback_" + raw
    err = txt("is_oracle_error(%s(%s, self.oracle_config, now))" % (CHECK, raw))
    has = txt("disc oracle_acc_infos.fallback_opt == 1")
    no = lambda l: (l[0], not l[1])
    base = {key, txt("disc %s == 0" % raw)}
    fine, fbfine = txt(chk % raw), txt(chk % fb)
    fbkey = V("self.fallback_oracle").eq(V("key(oracle_acc_infos.fallback_opt)"))
    back = base | {err, has, fbkey, txt("disc %s == 0" % fb), fbfine}
    r, outs = cmp(p, (CHECK, "oracle_log_context", "is_oracle_error") + RAW, [base | {fine, no(err)}, base | {fine, err, no(has)}, back], "bank")
    bad = None
    for m, rv, st in outs:
        if logic.is_ok(rv):
            v = r.D(logic.inner(rv))
            ls = set(m)
            if not (v == raw + ".price" and fine in ls or v == fb + ".price" and {err, fbfine, fbkey} <= ls):
                bad = v
    c.need(bad is None, "value:bank", "Bank::oracle_price returns %s without this state having been checked (or a fallback while the recorded oracle is fine)" % bad, c.where(p))
    # which errors allow the fallback
    p = next((f for f in c.prog.fns if f.endswith("IsAnchorErrorWithCode>::is_oracle_error")), None)
    if c.need(p, "anchor:is_oracle_error", "is_oracle_error not found"):
        r, outs, old, new = logic.formula(c, p)
        e, a = txt("disc self == 1"), txt("disc self.Err.0 == 0")
        code = V("self.Err.0.AnchorError.0.error_code_number")
        got = logic.when(r, outs)
        want = [frozenset({e, a, code.eq(V(x + "{}"))}) for x in ("OracleConfidence", "OracleStale")]
        c.need(logic.equivalent(got, want), "def:is_oracle_error", "an error counts as an oracle error when %s" % logic.show_dnf(r, got)[:600], c.where(p))
    cfg = O + "OracleConfigParams::to_oracle_config"
    r, outs, old, new = logic.formula(c, cfg)
    c.need(outs and all(alg.text(r.x.poly(get(rv, "conf_filter"))) == "self.conf_filter" for m, rv, st in outs), "config:conf", "the confidence filter is not stored as given", c.where(cfg))


def get(rv, name):
    import logic
    rv = logic.inner(rv)
    return rv.args[2][rv.args[1].index(name)] if rv.op == "agg" and name in rv.args[1] else T("int", 0)


def summands(e):
    """The signed summands of a sum's text, nested parentheses included."""
    while e.startswith("(") and closing(e, 0) == len(e) - 1:
        e = e[1:-1]
    m = re.match(r"cast\(i\d+, (.*)\)$", e)
    if m and closing(e, e.index("(")) == len(e) - 1:
        return summands(m.group(1))
    depth, cut = 0, []
    for i, ch in enumerate(e):
        depth += ch in "([{"
        depth -= ch in ")]}"
        if depth == 0 and e[i:i + 3] in (" + ", " - "):
            cut.append(i)
    if not cut:
        return [e] if not e.startswith("-") else [neg(x) for x in summands(e[1:])]
    out = summands(e[:cut[0]])
    for a, b in zip(cut, cut[1:] + [len(e)]):
        xs = summands(e[a + 3:b])
        out += xs if e[a + 1] == "+" else [neg(x) for x in xs]
    return out


def neg(x):
    return x[1:] if x.startswith("-") else "-" + x


def closing(e, i):
    d = 0
    for j in range(i, len(e)):
        d += e[j] in "([{"
        d -= e[j] in ")]}"
        if d == 0:
            return j
    return -1


def scaled(r, t, feed, exp):
    """t = feed * power_of_ten(exp)"""
    ps = {x for x in subterms(t) if x.op == "call" and str(x.args[0]).endswith("power_of_ten")}
    if len(ps) != 1:
        return False
    p = ps.pop()
    return sorted(summands(alg.text(r.x.poly(p.args[1][0])))) == sorted(exp) and alg.key(r.x.poly(t)) == alg.key(alg.mul(feed, r.x.poly(p)))


def feeds(c):
    """The values taken from each kind of feed."""
    import logic
    V = logic.V

    def feed(path, opaque, table, sub=None):
        r, outs, old, new = logic.formula(c, path, opaque)
        seen = set()
        for m, rv, st in outs:
            if not logic.is_ok(rv):
                continue
            rv = logic.inner(rv)
            kind = alg.text(r.x.poly(get(rv, "oracle_type"))) if rv.op == "agg" else r.D(rv).split("(")[0]
            sh = logic.show_dnf(r, [m])
            for k, f in table.items():
                if k.split("/")[0] == kind:
                    seen.add(k)
                    e = f(r, rv, m, sh)
                    c.need(e is None, "feed:%s" % k, "the %s feed's %s" % (kind.strip("{}"), e), c.where(path))
            if kind not in {k.split("/")[0] for k in table}:
                c.bad("feed:" + kind, "unexpected kind of feed %s" % kind, c.where(path))
        c.need(seen == set(table), "feeds:" + path.split("::")[-1], "no value read for %s" % sorted(set(table) - seen), c.where(path))
        c.cov["feeds"] = c.cov.get("feeds", 0) + len(seen)

    def values(price, dev, slot, exp, guard=True, time="None{}", current=False):
        def f(r, rv, m, sh):
            src = "acc_infos.fallback_opt" if "use_fallback" in sh and "not use_fallback" not in sh else "acc_infos.oracle"
            sub = lambda s: s.replace("SRC", src)
            pr = r.x.poly(get(rv, "price"))
            texts = [sub(x) for x in (price if isinstance(price, tuple) else (price,))]
            if exp is not None:
                if not any(scaled(r, get(rv, "price"), V(x).p, exp) for x in texts):
                    return "price is %s" % alg.text(pr)[:300]
                i = [scaled(r, get(rv, "price"), V(x).p, exp) for x in texts].index(True)
                d = dev[i] if isinstance(dev, tuple) else dev
                dp = V(sub(d)).p if isinstance(d, str) else d(sub)
                if not scaled(r, get(rv, "deviation"), dp, exp):
                    return "deviation is %s" % alg.text(r.x.poly(get(rv, "deviation")))[:300]
            else:
                i = 0
                if alg.text(pr) != texts[0]:
                    return "price is %s" % alg.text(pr)[:300]
            s = slot[i] if isinstance(slot, tuple) else slot
            if alg.text(r.x.poly(get(rv, "last_update_slot"))) != sub(s):
                return "update slot is %s" % r.D(get(rv, "last_update_slot"))[:200]
            if guard and not logic.implied(frozenset(m), [{V(1) * logic.V(pr) >= 0}]):
                return "negative prices are accepted"
            if current and i == 0 and not logic.implied(frozenset(m), [{V(acc + "agg.status").eq(V("Trading{}"))}]):
                return "current price is used although it is not trading"
            tt = r.D(get(rv, "last_update_time"))
            if tt != sub(time):
                return "publish time is %s" % tt
            return None
        return f

    def clmm(kind, load):
        def f(r, rv, m, sh):
            src = "acc_infos.fallback_opt" if "use_fallback" in sh and "not use_fallback" not in sh else "acc_infos.oracle"
            pool = "%s(%s)" % (load, src)
            q = "quote_state_unchecked(%s, acc_infos)" % pool
            if alg.key(r.x.poly(get(rv, "price"))) != alg.key((V("get_clmm_price(%s)" % pool) * V(q + ".price")).p):
                return "price is %s" % r.D(get(rv, "price"))[:300]
            for n in ("deviation", "last_update_slot"):
                if r.D(get(rv, n)) != q + "." + n:
                    return "%s is %s" % (n, r.D(get(rv, n))[:200])
        return f

    def other(name):
        def f(r, rv, m, sh):
            src = "acc_infos.fallback_opt" if "use_fallback" in sh and "not use_fallback" not in sh else "acc_infos.oracle"
            return None if r.D(rv) == "%s(%s, base_decimals)" % (name, src) else "state is %s" % r.D(rv)[:200]
        return f

    def stub(r, rv, m, sh):
        src = "acc_infos.fallback_opt" if "use_fallback" in sh and "not use_fallback" not in sh else "acc_infos.oracle"
        d = V(src + ".deviation").eq(0) in m
        s = V(src + ".last_update_slot").eq(0) in m
        if r.D(get(rv, "price")) != src + ".price":
            return "price is %s" % r.D(get(rv, "price"))
        if not d and r.D(get(rv, "deviation")) != src + ".deviation":
            return "deviation is %s" % r.D(get(rv, "deviation"))
        if not s and r.D(get(rv, "last_update_slot")) != src + ".last_update_slot":
            return "update slot is %s" % r.D(get(rv, "last_update_slot"))
    tens = ["-base_decimals", "6"]
    agg = "data(SRC).AggregatorAccountData"
    pull = "data(SRC).PullFeedAccountData"
    v1 = "deserialize(data(SRC)).result."
    feed(O + "oracle_state_unchecked_inner", ("get_pyth_state", "get_pyth_on_demand_state", "power_of_ten", "determine_oracle_type", "load_orca_pool_state", "load_raydium_pool_state",
                                              "get_clmm_price", "quote_state_unchecked"), {
        "SwitchboardV2{}": values("try_into(f64, get_result(%s))" % agg, "try_into(f64, %s.latest_confirmed_round.std_deviation)" % agg, agg + ".latest_confirmed_round.round_open_slot", tens),
        "SwitchboardOnDemand{}": values("try_into(f64, value(%s))" % pull, "try_into(f64, std_dev(%s))" % pull, pull + ".result.min_slot", tens),
        "SwitchboardV1{}": values(v1 + "result", lambda sub: (V(sub(v1 + "max_response")) - V(sub(v1 + "min_response"))).p, v1 + "round_open_slot", tens),
        "OrcaCLMM{}": clmm("OrcaCLMM", "load_orca_pool_state"), "RaydiumCLMM{}": clmm("RaydiumCLMM", "load_raydium_pool_state"),
        "get_pyth_state": other("get_pyth_state"), "get_pyth_on_demand_state": other("get_pyth_on_demand_state"), "Stub{}": stub})
    acc = "load_price_account(data(acc_info))."
    feed(O + "get_pyth_state", ("power_of_ten",), {
        "Pyth{}": values((acc + "agg.price", acc + "prev_price"), (acc + "agg.conf", acc + "prev_conf"), (acc + "agg.pub_slot", acc + "prev_slot"), tens + [acc + "expo"], current=True)})
    msg = "$price_message."
    feed(O + "get_pyth_on_demand_state", ("power_of_ten",), {
        "PythV2{}": values(msg + "price", msg + "conf", "$posted_slot", tens + [msg + "exponent"], time="Some{$price_message.publish_time}")})
    # only fully verified updates
    p = O + "get_pyth_on_demand_state"
    r, outs, old, new = logic.formula(c, p, ("power_of_ten",))
    full = V("$verification_level").eq(V("Full{}"))
    c.need(all(full in m for m, rv, st in outs if logic.is_ok(rv)), "verified", "partially verified price updates are accepted", c.where(p))
    for f, flag in (("oracle_state_unchecked", 0), ("fallback_oracle_state_unchecked", 1)):
        r, outs, old, new = logic.formula(c, O + f, ("oracle_state_unchecked_inner",))
        c.need(outs and all(r.D(rv) == "oracle_state_unchecked_inner(acc_infos, base_decimals, %d)" % flag for m, rv, st in outs), "which:" + f, "%s does not read the %s" % (f, ("oracle", "fallback")[flag]), c.where(O + f))


class CD(guards.Desc):
    """Constants by module and name."""

    def go(self, t, d):
        if t.op == "const":
            return "::".join(str(t.args[0]).split("::")[-2:])
        if t.op in ("lit", "static"):
            return str(t.args[-1]).replace("static:", "")
        return guards.Desc.go(self, t, d)


PROGRAMS = {"SwitchboardV1": ("switchboard_v1_devnet_oracle::ID", "switchboard_v2_mainnet_oracle::ID"),
            "SwitchboardOnDemand": ("switchboard_on_demand_devnet_oracle::ID", "switchboard_on_demand_mainnet_oracle::ID"),
            "OrcaCLMM": ("orca_mainnet_whirlpool::ID",), "RaydiumCLMM": ("raydium_mainnet::ID",), "PythV2": ("pyth_solana_receiver_sdk::ID",)}


def kinds(c):
    """What an account must be to be read as each kind of feed, and which feed a pool is quoted in."""
    import logic
    V, txt = logic.V, logic.txt
    p = O + "determine_oracle_type"
    r, outs, old, new = logic.formula(c, p, desc=CD)
    seen = set()
    for m, rv, st in outs:
        if not logic.is_ok(rv):
            continue
        k = r.D(logic.inner(rv)).replace("{}", "")
        seen.add(k)
        s = logic.show_dnf(r, [m])
        if k in PROGRAMS:
            good = any(re.search(r"(^|[( ])(?<!not )(%s == owner\(acc_info\)|owner\(acc_info\) == %s)" % (x, x), s) for x in PROGRAMS[k])
        elif k == "Pyth":
            good = re.search(r"(?<!not )from_le_bytes\(.*data\(acc_info\).*== 2712847316", s)
        else:
            good = V("data(acc_info)").eq(V("discr(StubOracle)" if k == "Stub" else "arr{217, 230, 65, 101, 201, 162, 27, 125}")) in m
        c.need(good, "kind:" + k, "an account is read as a %s feed when %s" % (k, s[:600]), c.where(p))
    c.need(seen == set(PROGRAMS) | {"Pyth", "Stub", "SwitchboardV2"}, "kinds", "kinds of feeds: %s" % sorted(seen), c.where(p))
    p = c.find_fn("CLMMPoolState::quote_state_unchecked")
    r, outs, old, new = logic.formula(c, p, ("get_pyth_state",), desc=CD)
    a, b, usd, sol = V("self.token_mint_a"), V("self.token_mint_b"), V("usdc_mint_mainnet::ID"), V("sol_mint_mainnet::ID")
    no = lambda l: (l[0], not l[1])
    for feed, dec, mints in (("usdc", 6, [{a.eq(usd)}, {no(a.eq(usd)), b.eq(usd)}]),
                             ("sol", 9, [{a.eq(sol), no(a.eq(usd)), no(b.eq(usd))}, {no(a.eq(usd)), no(b.eq(usd)), no(a.eq(sol)), b.eq(sol)}])):
        call = "get_pyth_state(acc_infos.%s_opt, %d)" % (feed, dec)
        want = [frozenset(x | {txt("disc acc_infos.%s_opt == 1" % feed), txt("disc %s == 0" % call)}) for x in mints]
        got = [m for m, rv, st in outs if logic.is_ok(rv) and r.D(logic.inner(rv)) == call]
        c.need(got and logic.equivalent(got, want), "quote:" + feed, "a pool is quoted by the %s feed when %s" % (feed, logic.show_dnf(r, got)[:900]), c.where(p))
        outs = [o for o in outs if not (logic.is_ok(o[1]) and r.D(logic.inner(o[1])) == call)]
    c.need(not any(logic.is_ok(rv) for m, rv, st in outs), "quote:other", "a pool is quoted by something other than the USDC or SOL feed", c.where(p))


class Uses(InlineRule):
    def __init__(self, prog, skip=()):
        InlineRule.__init__(self, prog)
        self.D = txscan.Desc(self)
        self.over = {}
        self.reads, self.ctors, self.leaks = set(), set(), set()
        self.opaque |= {p for p in prog.fns if p.split("::")[-1] in READ + RAW + (CHECK, "oracle_log_context") or "log" in p.split("::")[-1] and p.split("::")[-1] != "log"}
        self.opaque -= set(skip)

    def arg(self, an, st, v):
        for _ in range(3):
            v = an.full_deref(st, v)
        return v

    def clock(self, t):
        """Some((unix time, slot)) of the current clock."""
        d = self.D(t)
        return bool(re.match(r"^(Some\{)?tup\{(\w+\()?[^{}]*unix_timestamp\)?, [^{}]*\.slot\)?\}\}?$", d)) and is_now(t)

    def on_call(self, an, st, fr, name, res, args, site):
        self.an = an
        f = str(res).split("::")[-1]
        out = st.marks | {"acts"} if f in ACTS and res in an.prog.fns else st.marks
        if res in an.prog.fns and f in READ:
            t = self.arg(an, st, args[-1])
            self.reads.add((f, "clock" if self.clock(t) else "none" if A.variant_of(t) == "None" else "self" if re.match(r"^self(\.banks_and_oracles)?\.(now|staleness_slot)$", self.D(t)) else self.D(t)[:120], fr.prep.path))
            if self.clock(t):
                out = out | {"priced"}
        elif res in an.prog.fns and f in RAW:
            self.reads.add((f, "raw", fr.prep.path))
        elif res in an.prog.fns and str(res).startswith(AR) and (f in CTORS or f == "new"):
            ok = f == "new" or self.clock(self.arg(an, st, args[-1] if f == "new_with_staleness" else args[2]))
            self.ctors.add((f, ok))
            if ok:
                out = out | {"health"}
        elif res in an.prog.fns and not str(res).startswith("logs::") and f != "with_context":
            for a in args:
                v = self.arg(an, st, a) if a.op == "ref" else a
                if v.op in ("agg", "upd", "ref", "alt"):     # things that merely hold one
                    continue
                us = {x for x in subterms(v) if x.op == "call" and str(x.args[0]).endswith("::oracle_state_unchecked")}
                for u in us:
                    checked = any(str(x.args[0]).endswith(CHECK) and self.clock(self.arg(an, st, x.args[1][-1])) and u in set(subterms(x)) for x in succeeded(st))
                    if not checked and f not in (CHECK, "oracle_log_context"):
                        self.leaks.add((f, fr.prep.path))
        return out if out is not st.marks else None


    def on_branch(self, an, st, fr, t, val):
        if any(x.op in ("ld", "fld") and "in_health_region" in str(x.args[1]) for x in subterms(t)) and re.search(r"in_health_region == 1\) == 1$|in_health_region == 1$|in_health_region != 0$", guards.atom(self.D, t, val)):
            return st.marks | {"region"}


def succeeded(st):
    """Calls whose result is known to be Ok."""
    for k, v in st.facts.items():
        if k.op == "eq" and v == ("is", 1) and k.args[1].op == "int" and k.args[1].args[0] == 0:
            k = k.args[0]
        elif v != ("is", 0) and not (v[0] == "not" and 1 in v[1]):
            continue
        if k.op == "disc" and k.args[0].op == "call":
            yield k.args[0]


def instruction(c, ix):
    r = Uses(c.prog)
    an, oks = run_entry(c.prog, ix, r)
    w = "instruction " + ix
    yield ("cov", "price reads", len(r.reads))
    yield ("cov", "retrievers", len(r.ctors))

    def need(cond, key, msg):
        return ("ok", "%s:%s" % (key, ix)) if cond else ("bad", "%s:%s" % (key, ix), msg, w)
    for f, now, path in sorted(r.reads):
        fn = path.split("::")[-1]
        if now == "raw":
            yield need(ix in UNCHECKED, "unchecked", "%s reads a price without checking it, in %s" % (ix, fn))
        elif AR in path:
            continue                                # given by the retriever, see retrievers()
        elif now == "none":
            yield need(ix in LISTING or ix in HEALTH, "untimed", "%s uses a price without checking its age, in %s" % (ix, fn))
        else:
            yield need(now == "clock", "clock", "%s checks a price's age against %s, in %s" % (ix, now, fn))
    for f, ok in sorted(r.ctors):
        yield need(ok, "health-clock", "%s computes health with prices whose age is not checked against the clock (%s)" % (ix, f))
    for f, path in sorted(r.leaks):
        yield need(False, "leak", "%s hands an unchecked price to %s in %s" % (ix, f, path.split("::")[-1]))
    if ix in HEALTH:
        # an account in a health region is checked at the region's start and end
        bad = [s for s, _ in oks if "acts" in s.marks and not s.marks & {"health", "region"} and any(x[1] == "none" for x in r.reads)]
        yield need(oks and any("acts" in s.marks for s, _ in oks) and not bad, "aged", "%s can take effect without any of its prices' age being checked" % ix)
    if ix == "token_deposit":
        yield need(not opened(c, ix), "open", "token_deposit can open a token position while the oracle is stale or unconfident")


def opened(c, ix):
    """Token positions opened without a checked price."""
    bad = []

    class R(Uses):
        def on_call(self, an, st, fr, name, res, args, site):
            m = Uses.on_call(self, an, st, fr, name, res, args, site)
            if str(res).split("::")[-1] == "ensure_token_position":
                fine = any(str(x.args[0]).endswith("Bank::oracle_price") for x in succeeded(st))
                if not fine or "priced" not in st.marks:
                    bad.append(fr.prep.path)
            return m
    r = R(c.prog)
    r.opaque |= {p for p in c.prog.fns if p.endswith("::ensure_token_position")}
    run_entry(c.prog, ix, r)
    return bad


def retrievers(c):
    """The retrievers give their own time to every price read, and are made with the time they are given."""
    import logic
    n = 0
    for p in sorted(c.prog.fns):
        if not p.startswith((AR, "<" + AR)) or "{" in p or "::test" in p:
            continue
        if not any(b[1] and b[1][0] == "call" and b[1][1][0] == "k" and str(b[1][1][1].get("res") or b[1][1][1].get("fn")).split("::")[-1] in READ for b in c.prog.fns[p]["bbs"]):
            continue
        r, an, outs = run_fn(c, p)
        for f, now, path in r.reads:
            n += 1
            c.need(now == "self", "retriever:" + p.split("::")[-1], "%s checks prices' age against %s" % (p.split("::")[-1], now), c.where(p))
    c.floor("retriever price reads", n, 5)
    p = AR + "new_fixed_order_account_retriever_inner"
    r, outs, old, new = logic.formula(c, p)
    c.need(outs and all(r.D(get(rv, "now")) == "Some{now}" for m, rv, st in outs if logic.is_ok(rv)), "made:fixed", "the fixed order retriever does not use the time it was given", c.where(p))
    feeds_of(c, p, {"usdc_oracle_index": "pyth_mainnet_usdc_oracle::ID", "sol_oracle_index": "pyth_mainnet_sol_oracle::ID"}, None)
    p = c.find_fn("ScanningAccountRetriever::<'a, 'info>::new_with_staleness")
    feeds_of(c, p, {"usd_oracle_index": "pyth_mainnet_usdc_oracle::ID", "sol_oracle_index": "pyth_mainnet_sol_oracle::ID"}, "staleness_slot")
    p = c.find_fn("ScanningAccountRetriever::<'a, 'info>::new")
    r, an, outs = run_fn(c, p)
    c.need(r.ctors == {("new_with_staleness", True)}, "made:scanning", "the scanning retriever does not use the current clock", c.where(p))


def run_fn(c, p):
    import summ
    r = Uses(c.prog)
    r.opaque.discard(p)
    an = A.Analyzer(c.prog, r)
    f = c.prog.fns[p]
    outs = an.run(p, [T("arg", n) for n in summ.arg_names(f)])
    return r, an, outs


class Found(rounds.RoundRule):
    """What find/position look for."""

    def __init__(self, prog):
        rounds.RoundRule.__init__(self, prog)
        self.names = txscan.Desc(self)
        self.conds = {}

    def on_find(self, an, fr, st, it, f, b):
        s = T("site", fr.fid, b)
        out = rounds.RoundRule.on_find(self, an, fr, st, it, f, b)
        for s1, v in out:
            self.conds.setdefault(s, []).append({guards.atom(self.names, k, w) if not (isinstance(w, tuple) and w[0] == "is") else "%s is %s" % (self.names(k), w[1])
                                                 for k, w in s1.facts.items() if k not in st.facts})
        return out


def feeds_of(c, p, want, stale):
    import summ
    r = Found(c.prog)
    r.opaque.discard(p)
    an = A.Analyzer(c.prog, r)
    outs = an.run(p, [T("arg", n) for n in summ.arg_names(c.prog.fns[p])])
    seen = {}
    for st, rv in outs:
        for f in sorted(want):
            for v, vecs in variants(an, st, rv, f):
                n = A.variant_of(v)
                if n != "None":
                    i = v.args[2][0] if v.op == "agg" and v.args[2] else v
                    cs = r.conds.get(i.args[1], []) if i.op == "idxof" else []
                    over = r.over.get(i.args[1], set()) if i.op == "idxof" else set()
                    good = cs and all(any(want[f] in x and ".key" in x and "==" in x and x.endswith("is 1") for x in fs) for fs in cs) and len(over) == 1 and any("(iter(%s)," % next(iter(over)) in x for x in vecs)
                    seen.setdefault(f, []).append(bool(good))
    for f in sorted(want):
        c.need(seen.get(f) and all(seen[f]), "quote-feed:%s:%s" % (p.split("::")[-1], f), "%s does not point at the account of the %s feed among the accounts kept" % (f, want[f]), c.where(p))
    if stale:
        vals = {r.D(v) for st, rv in outs for v, _ in variants(an, st, rv, stale)}
        c.need(vals == {stale}, "made:" + stale, "the scanning retriever stores %s as its time" % sorted(vals), c.where(p))


def variants(an, st, rv, field):
    """(value, texts of the account lists beside it) wherever an aggregate with this field occurs in the result."""
    out, todo, seen = [], [rv], set()
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        t = an.full_deref(st, t) if t.op == "ref" else t
        if t.op == "agg":
            if field in t.args[1]:
                v = t.args[2][t.args[1].index(field)]
                vs = [v]
                while any(x.op == "alt" for x in vs):
                    vs = [y for x in vs for y in (list(x.args) if x.op == "alt" else [x])]
                vecs = {an.rule.D(x) for n, x in zip(t.args[1], t.args[2]) if n in ("ais", "fallback_oracles")}
                out += [(x, vecs) for x in vs]
            todo += list(t.args[2])
        elif t.op == "alt":
            todo += list(t.args)
    return out


def check(c):
    formulas(c)
    feeds(c)
    kinds(c)
    retrievers(c)
    c.pmap(lambda ix: instruction(c, ix), c.entries())
    c.floor("price reads", c.cov.get("price reads", 0), 25)
    c.floor("retrievers", c.cov.get("retrievers", 0), 10)
    c.floor("formulas", c.cov.get("formulas", 0), 6)
