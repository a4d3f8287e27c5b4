"""Account health is the sum over every position."""
import re
from fractions import Fraction
from ctx import *
import alg, logic, summ, iters
from iters import Loops, canon, root
from logic import V, txt
from terms import T, Term

META = dict(
    title="Account health counts every token, serum and perp position once",
    statement="The health cache holds one entry per active token position (bank weights, prices and native balance, plus the free funds of its serum markets), serum market and perp market; a position is left out only where skipping is allowed and its balance is nonnegative, or a serum market's tokens are missing. Health is the sum of each token's contribution (spot balance plus the perps settling in it) and each serum market's; the asset/liability split differs by the same sum; the settleable amount ignores negative perps; equity values everything at the oracle price of its own token. In-place updates of the cache adjust exactly the entries of the changed position with the same formulas.",
    q=(["inputs"], "Every account, number and order of positions, bank, market and health type."),
    files=["programs/mango-v4/src/health/cache.rs"],
    mechanism=[("HealthCache::health, health_sum, effective_token_balances, compute_serum3_reservations, health_assets_and_liabs, assets_and_liabs, perp_max_settle, total_serum3_potential, adjust_token_balance, recompute_*", "health/cache.rs"),
               ("new_health_cache_impl", "health/cache.rs")],
    technique="per-iteration loop summaries over MIR (what each iteration adds, stores and pushes, under which conditions), compared as polynomials with the required contributions; loops must run to the end of the whole collection")
LEVEL = "proof"
RULE = ("For every loop of the aggregation functions: it runs over the whole collection to its end, and on every path through one iteration the additions to each accumulator equal the required contribution of the case the path's conditions select; accumulators start at zero.")

H = "health::cache::"
C = H + "HealthCache::"
INIT, MAINT, LIQ = "disc health_type == 0", "disc health_type == 1", "disc health_type == 2"
EACH = "[each]"
TI, SI, PI = "self.token_infos", "self.serum3_infos", "self.perp_infos"
VALUATION = ("health_contribution", "compute_serum3_reservations", "effective_token_balances_internal", "health_unsettled_pnl", "asset_weighted_price", "liab_weighted_price",
             "all_reserved_as_base", "all_reserved_as_quote", "token_info_index", "spot_amount_taken_for_health_zero")


def opaque(*keep):
    return tuple(f for f in VALUATION if f not in keep)


def acc(L, t, nm):
    """The accumulator whose final value is t."""
    r = root(t)
    L.c.need(r is not None, "acc:%s.%s" % (L.short, nm), "%s does not return an accumulated %s" % (L.short, nm), L.c.where(L.path))
    if r is not None:
        L.role(r, nm)
        L.starts_zero(nm, t)
    return r


def only(L, text, same=()):
    """The loop over the collection `text` (or over the indices of one of the same length)."""
    ks = [k for k in L.r.over if L.over(k)[0] & ({text} | set(same))]
    L.c.need(len(ks) == 1, "loop:%s.%s" % (L.short, text.split(".")[-1]), "%s has %d loops over %s" % (L.short, len(ks), text), L.c.where(L.path))
    return ks[0] if len(ks) == 1 else None


def oks(L):
    return [logic.inner(rv) for ls, evs, rv, st in L.outs if logic.is_ok(rv)]


def etb(ht, flag):
    return "effective_token_balances_internal(self, %s, %s)" % (ht, flag)


def csr(ht):
    return "compute_serum3_reservations(self, %s)" % ht


def serum_contribution(ht, e):
    return V("health_contribution(%s%s, %s, %s, %s, %s.0, %s.1%s)" % (SI, EACH, ht, TI, e, csr(ht), csr(ht), EACH))


def token_contribution(ht, e):
    return V("health_contribution(%s%s, %s, %s%s.spot_and_perp)" % (TI, EACH, ht, e, EACH))


def summed(c, fn, ht, flag, nm="health", value=None):
    """health = sum of token contributions + sum of serum contributions, with these effective balances."""
    L = Loops(c, C + fn, opaque())
    e = etb(ht, flag)
    tok, ser = only(L, TI), only(L, SI)
    rs = {root(t) for t in (value(L) if value else oks(L))}
    if not c.need(len(rs) == 1 and None not in rs, "acc:%s.%s" % (fn, nm), "%s does not use one accumulated health" % fn, c.where(C + fn)):
        return
    for t in (value(L) if value else oks(L)):
        acc(L, t, nm)
    if tok is not None:
        L.check("tokens", tok, [(frozenset(), {("add", nm, ""): token_contribution(ht, e)})], [TI, e])
    if ser is not None:
        L.check("serum", ser, [(frozenset(), {("add", nm, ""): serum_contribution(ht, e)})], [SI, csr(ht) + ".1"])
    L.exits("all")
    L.all_done("all")
    return L


def health(c):
    summed(c, "health", "health_type", 0)
    # the ratio and the leverage are derived from the sums
    f = C + "health_ratio"
    r, outs, old, new = logic.formula(c, f, ("health_assets_and_liabs",), indexed=True)
    a, l = (V("health_assets_and_liabs(self, health_type, 0).%d" % i) for i in (0, 1))
    n, bad = logic.cases(r, outs, [(frozenset([l <= 0]), None), (frozenset([l > 0]), 100 * (a - l) / l)])
    c.need(bad is None, "ratio", "health_ratio %s" % bad, c.where(f))


def settle_max(c):
    fn = "perp_max_settle"
    q = {}

    def value(L):
        """First argument of the amount computed from the health."""
        out = []
        for t in oks(L):
            for x in subterms(t):
                if x.op == "call" and str(x.args[0]).split("::")[-1] == "spot_amount_taken_for_health_zero":
                    q["call"] = x
                    out.append(x.args[1][0])
        return out
    ht = "Maint{}"
    L = summed(c, fn, ht, 1, "health", value)
    if L and "call" in q:
        a = [canon(L.r.D(x)) for x in q["call"].args[1]]
        i = "[token_info_index(self, settle_token_index)]"
        want = ["", etb(ht, 1) + i + ".spot_and_perp", "asset_weighted_price(%s%s, %s)" % (TI, i, ht), "liab_weighted_price(%s%s, %s)" % (TI, i, ht)]
        a[1:] = [x.replace(".idx(token_info_index(self, settle_token_index))", i) for x in a[1:]]
        c.need(a[1:] == want[1:], "settle:args", "perp_max_settle measures %s instead of %s" % (a[1:], want[1:]), c.where(C + fn))


def balances(c):
    fn = "effective_token_balances_internal"
    L = Loops(c, C + fn, opaque(fn))
    size = "from_elem(TokenBalance{default()}, len(%s))" % TI
    perp, tok = only(L, PI), only(L, TI, [size])
    vecs = {r for k in L.r.iters for ls, evs in L.r.iters[k] for kind, r, p, t in evs}
    rv = [t for t in oks(L)]
    c.need(len(vecs) == 1 and all(base(L, t) == size for t in rv) and rv, "start:%s" % fn, "%s does not return one vector of zeroed balances per token" % fn, c.where(C + fn))
    for r in vecs:
        L.role(r, "out")
    pnl = V("health_unsettled_pnl(%s%s, health_type)" % (PI, EACH))
    i = "[token_info_index(self, %s%s.settle_token_index)]" % (PI, EACH)
    ign = txt("ignore_negative_perp")
    if perp is not None:
        to = ("add", "out", i + ".spot_and_perp")
        L.check("perps", perp, [([pnl > 0], {to: pnl}), ([pnl <= 0, (ign[0], False)], {to: pnl}), ([pnl <= 0, ign], {})], [PI])
    if tok is not None:
        L.check("tokens", tok, [((), {("add", "out", EACH + ".spot_and_perp"): V("%s%s.balance_spot" % (TI, EACH))})], [TI, size])
    L.exits("all")
    L.all_done("all")


def base(L, t):
    while t.op == "upd":
        t = t.args[0]
    return canon(L.r.D(t)).rstrip("'")


def reservations(c):
    fn = "compute_serum3_reservations"
    L = Loops(c, C + fn, opaque(fn))
    ser = only(L, SI)
    s = SI + EACH
    args = "%s, health_type, %s[%s.quote_info_index], %s[%s.base_info_index]" % (s, TI, s, TI, s)
    ab, aq = "all_reserved_as_base(%s)" % args, "all_reserved_as_quote(%s)" % args
    size = "from_elem(TokenMaxReserved{default()}, len(%s))" % TI
    for t in oks(L):
        c.need(t.op == "agg" and len(t.args[2]) == 2 and base(L, t.args[2][0]) == size, "start:" + fn, "%s does not start from zeroed reservations of each token" % fn, c.where(C + fn))
    pushed = set()
    for k in L.r.iters:
        for ls, evs in L.r.iters[k]:
            for kind, r, p, t in evs:
                L.role(r, "list" if kind == "push" else "max")
    if ser is not None:
        L.check("serum", ser, [((), {
            ("add", "max", "[%s.base_info_index].max_serum_reserved" % s): V(ab),
            ("add", "max", "[%s.quote_info_index].max_serum_reserved" % s): V(aq),
            ("push", "list", ""): ("Serum3Reserved{%s, %s}" % (ab, aq),)})], [SI])
    L.exits("all")
    L.all_done("all")


def potential(c):
    fn = "total_serum3_potential"
    L = Loops(c, C + fn, opaque(fn))
    ser = only(L, SI)
    s = SI + EACH
    args = "%s, health_type, %s[%s.quote_info_index], %s[%s.base_info_index]" % (s, TI, s, TI, s)
    tgt = V("token_info_index(self, token_index)")
    q, b = tgt.p, None
    isq, isb = V(s + ".quote_info_index").eq(tgt), V(s + ".base_info_index").eq(tgt)
    for t in oks(L):
        r = root(t) if t.op == "phi" else t
        L.role(r, "total")
    if ser is not None:
        to = ("add", "total", "")
        L.check("serum", ser, [([isq], {to: V("all_reserved_as_quote(%s)" % args)}), ([(isq[0], False), isb], {to: V("all_reserved_as_base(%s)" % args)}), ([(isq[0], False), (isb[0], False)], {})], [SI])
    L.exits("all")
    L.all_done("all")


def equity(c):
    fn = "assets_and_liabs"
    L = Loops(c, C + fn, opaque())
    tok, ser, perp = only(L, TI), only(L, SI), only(L, PI)
    for t in oks(L):
        if c.need(t.op == "agg" and len(t.args[2]) == 2, "acc:" + fn, "%s does not return assets and liabilities" % fn, c.where(C + fn)):
            acc(L, t.args[2][0], "assets")
            acc(L, t.args[2][1], "liabs")
    A, B = ("add", "assets", ""), ("add", "liabs", "")
    bal = V("%s%s.balance_spot" % (TI, EACH))
    v = bal * V("%s%s.prices.oracle" % (TI, EACH))
    if tok is not None:
        L.check("tokens", tok, [([bal < 0], {B: -v}), ([bal >= 0], {A: v})], [TI])
    s = SI + EACH
    if ser is not None:
        L.check("serum", ser, [((), {A: V(s + ".reserved_base") * V("%s[%s.base_info_index].prices.oracle" % (TI, s)) + V(s + ".reserved_quote") * V("%s[%s.quote_info_index].prices.oracle" % (TI, s))})], [SI])
    p = PI + EACH
    px = V("%s[token_info_index(self, %s.settle_token_index)].prices.oracle" % (TI, p))
    q = V(p + ".quote") * px
    b = V(p + ".base_lots") * V(p + ".base_lot_size") * V(p + ".base_prices.oracle") * px
    want = []
    for qs in (True, False):
        for bs in (True, False):
            w = {}
            for neg, x in ((qs, q), (bs, b)):
                k = B if neg else A
                w[k] = w.get(k, V(0)) + (-x if neg else x)
            want.append(([V(p + ".quote") < 0 if qs else V(p + ".quote") >= 0, b < 0 if bs else b >= 0], w))
    if perp is not None:
        L.check("perps", perp, want, [PI])
    L.exits("all")
    L.all_done("all")
    f = C + "leverage"
    r, outs, old, new = logic.formula(c, f, ("assets_and_liabs",), indexed=True)
    a, l = (V("assets_and_liabs(self).%d" % i) for i in (0, 1))
    n = 0
    for ls, rv, st in outs:
        p = V(r.x.poly(rv))
        n += 1
        es = [Fraction(int(m[0]), int(m[1] or 1)) for m in re.findall(r"\b(\d+)(?:/(\d+))?\b", alg.text(p.p))]  # whatever positive floor keeps the denominator from vanishing
        c.need(any(alg.key(p.p) == alg.key((l / logic.vmax(a - l, V(e))).p) for e in es if e > 0), "leverage", "leverage is %s" % alg.text(p.p), c.where(f))
    c.need(n, "leverage-path", "leverage has no path", c.where(f))


def lookup(c):
    """Index lookups find the entry of exactly the wanted token or market."""
    for fn, elem, arg, coll in (("find_token_info_index", "token_index", "token_index", "infos"), ("HealthCache::perp_info_index", "perp_market_index", "perp_market_index", PI)):
        path = H + fn
        cl = [x for x in summ.closures_of(c, path)]
        good = 0
        for x in cl:
            if c.prog.fns[x]["locals"][0] != "bool":
                continue
            r, outs, old, new = logic.formula(c, x, indexed=True)
            got = logic.when(r, outs)
            txts = logic.show_dnf(r, got)
            good += len(got) == 1 and len(list(got)[0]) == 1 and all(b[0] == "eq" and v and len(b[1]) == 2 and any("." + elem in str(m) for m in b[1]) for b, v in list(got)[0])
        c.need(good == 1, "lookup:" + fn, "%s does not look for the entry with the wanted %s" % (fn, elem), c.where(path))


def split(c):
    """health_assets_and_liabs: assets - liabs grows by the contribution of each token's effective balance and each serum market."""
    fn = "health_assets_and_liabs"
    L = Loops(c, C + fn, opaque())
    c.cov["loops"] = c.cov.get("loops", 0) + 2
    w = c.where(C + fn)
    tok, perp, ser = only(L, TI), only(L, PI), only(L, SI)
    for t in oks(L):
        if c.need(t.op == "agg" and len(t.args[2]) == 2, "acc:" + fn, "%s does not return assets and liabilities" % fn, w):
            acc(L, t.args[2][0], "assets")
            acc(L, t.args[2][1], "liabs")
    if None in (tok, perp, ser):
        return
    # the token's own deposits and borrows, filled by the loop over perp markets
    inner = sorted({r for ls, evs in L.r.iters[perp] for kind, r, p, t in evs}, key=lambda r: r.n)
    pnl = V("health_unsettled_pnl(%s%s, health_type)" % (PI, EACH))
    if not c.need(len(inner) == 2, "loop:%s.perps" % fn, "%s collects perp contributions in %d places" % (fn, len(inner)), w):
        return
    same = V("%s%s.settle_token_index" % (PI, EACH)).eq(V("%s%s.token_index" % (TI, EACH)))
    pos = {r for ls, evs in L.r.iters[perp] for kind, r, p, t in evs if (pnl > 0) in iters.lits(ls)}
    c.need(len(pos) == 1, "loop:%s.perps-positive" % fn, "%s does not separate positive from negative perp contributions" % fn, w)
    for r in inner:
        L.role(r, "own assets" if r in pos else "own liabs")
    A, B = ("add", "own assets", ""), ("add", "own liabs", "")
    L.check("perps", perp, [([(same[0], False)], {}), ([same, pnl > 0], {A: pnl}), ([same, pnl <= 0], {B: -pnl})], [PI])
    finals = {}
    for t in L.r.init:
        if t.args[1] in inner and t.args[2] == () and t.args[0].args == perp:
            finals.setdefault(t.args[1], set()).add(t)
    for r in inner:
        L.ren.update({L.r.D(t): L.roles[r] for t in finals.get(r, ())})
    a, l = V("own assets"), V("own liabs")
    bal = V("%s%s.balance_spot" % (TI, EACH))
    aw, lw = (V("%s_weighted_price(%s%s, health_type)" % (k, TI, EACH)) for k in ("asset", "liab"))
    n = 0
    bad = None
    src, part = L.over(tok)
    if part or src != {TI}:
        bad = "runs over %s" % sorted(src | part)
    for ls, evs in L.r.iters[tok]:
        ls = iters.lits(ls, L.ren)
        got = L.totals(evs)
        g = lambda k: V(got.get(k, {}))
        d = g(("add", "assets", "")) - g(("add", "liabs", ""))
        both = logic.settle(ls)
        if both is None:
            continue
        for sign, wt in (("pos", aw), ("neg", lw)):
            x = logic.settle(both | {a >= l if sign == "pos" else a < l})
            if x is None:
                continue
            n += 1
            want = (a - l) * wt
            if alg.key(logic.resolve(d.p, x)) != alg.key(logic.resolve(want.p, x)) and alg.key(logic.tied(d.p, x)) != alg.key(logic.tied(want.p, x)):
                bad = bad or "adds %s to assets - liabs instead of %s where %s" % (alg.text(d.p)[:200], alg.text(want.p)[:200], logic.show_dnf(L.r, [x])[:300])
        spot = g(A) - g(B)
        if alg.key(logic.resolve(spot.p, both)) != alg.key(logic.resolve(bal.p, both)) and alg.key(logic.tied(spot.p, both)) != alg.key(logic.tied(bal.p, both)):
            bad = bad or "counts a spot balance of %s" % alg.text(spot.p)[:200]
    # the token's own sums restart for every token
    for r in inner:
        for t in finals.get(r, ()):
            for v in L.r.init[t]:
                p = iters.poly(L.r.x.poly(v))
                if p and alg.key(p) not in (alg.key(bal.p), alg.key((-bal).p)):
                    bad = bad or "starts a token's sums from %s" % alg.text(p)[:100]
    L.done.add(tok)
    c.need(bad is None and n, "loop:%s.tokens" % fn, "the loop over tokens in %s %s" % (fn, bad or "never runs"), w)
    e = etb("health_type", 0)
    sc = serum_contribution("health_type", e)
    L.check("serum", ser, [([sc > 0], {("add", "assets", ""): sc}), ([sc <= 0], {("add", "liabs", ""): -sc})], [SI, csr("health_type") + ".1"])
    L.exits("all")
    L.all_done("all")


# what each entry of the cache must hold: field -> text
POS, SER, PER = "POS", "SER", "PER"


def build(c):
    fn = H + "new_health_cache_impl"
    L = Loops(c, fn, ("native", "maint_weights", "scaled_init_asset_weight", "scaled_init_liab_weight", "stable_price", "liab", "asset", "new", "find_token_info_index", "is_oracle_error",
                      "allows_asset_liquidation", "active_token_positions", "active_serum3_orders", "active_perp_positions", "available_banks"))
    w = c.where(fn)

    def nm(s):
        s = re.sub(r"item\(iter\((active_\w+\(account\))\), site\(\)\)", r"item(\1, site())", canon(s))
        for k, n in (("token_positions", POS), ("serum3_orders", SER), ("perp_positions", PER)):
            s = s.replace("item(active_%s(account), site())" % k, n).replace("idxof(active_%s(account), site())" % k, "I")
        return s
    ks = {n: [k for k in L.r.over if "active_%s(account)" % t in L.over(k)[0]] for n, t in ((POS, "token_positions"), (SER, "serum3_orders"), (PER, "perp_positions"))}
    for n, k in ks.items():
        c.need(len(k) == 1, "build:" + n, "new_health_cache_impl has %d loops over the account's active %s" % (len(k), {POS: "token positions", SER: "serum orders", PER: "perp positions"}[n]), w)
        for x in k:
            s, p = L.over(x)
            L.done.add(x)
            c.need(not p and len(s) == 1, "build:%s-all" % n, "new_health_cache_impl leaves out positions (%s)" % sorted(p | s), w)
    if any(len(k) != 1 for k in ks.values()):
        return
    skip = txt("allow_skipping_banks")
    has = txt("contains(available_banks(retriever), POS.token_index)")
    err = txt("is_oracle_error(bank_and_oracle(retriever, account.fixed.group, I, POS.token_index))")

    def ln(ls):
        out = set()
        for b, v in ls:
            if b[0] == "txt":
                out.add((("txt", nm(b[1])), v))
            else:
                q = {}
                for m, cf in dict(b[1]).items():
                    q[tuple(sorted(((nm(a) if isinstance(a, str) else a), e) for a, e in m))] = cf
                out.add(logic.pos(q, v) if b[0] == "gt" else logic.zero(q, v))
        return out

    def pushes(evs):
        return [t for kind, r, p, t in evs if kind == "push"]
    lists = {}
    # token positions
    seen = [0, 0]
    neg = V("POS.indexed_position") < 0
    n = 0
    for ls, evs in L.r.iters.get(ks[POS][0], ()):
        ls = ln(ls)
        ps = pushes(evs)
        n += 1
        if not ps:
            seen[0] += 1
            ok = skip in ls and (neg[0], False) in ls and ((has[0], False) in ls or err in ls)
            c.need(ok, "build:token-skip", "a token position is left out of the health cache where %s" % logic.show_dnf(L.r, [ls])[:400], w)
        else:
            seen[1] += 1
            c.need(len(ps) == 1, "build:token-once", "a token position is entered %d times" % len(ps), w)
            for kind, r, p, t in evs:
                if kind == "push":
                    lists.setdefault("token_infos", set()).add(r)
            entry(c, L, ps[0], nm, TOKEN, "token", w)
        extra = [e for e in evs if e[0] != "push" and (e[1].op != "cell" or e[2])]
        c.need(not extra, "build:token-extra", "entering a token position also changes %s" % [(e[0], e[2], e[3][:100]) for e in extra], w)
    c.need(seen[0] >= 2 and seen[1] >= 1, "build:token-paths", "new_health_cache_impl has %d skipping and %d entering paths for token positions" % tuple(seen), w)
    # serum markets
    seen = [0, 0]
    oo = "serum_oo(retriever, I, SER.open_orders)"
    bi, qi = ("find_token_info_index(it, SER.%s_token_index)" % k for k in ("base", "quote"))
    for ls, evs in L.r.iters.get(ks[SER][0], ()):
        ls = ln(ls)
        ps = pushes(evs)
        n += 1
        found = [txt("disc %s == 0" % x) for x in (bi, qi)]
        if not ps:
            seen[0] += 1
            gone = any((f[0], False) in ls or txt("disc %s == 1" % x) in ls for f, x in zip(found, (bi, qi)))
            c.need(gone and skip in ls and not [e for e in evs if e[1].op != "cell" or e[2]], "build:serum-skip", "a serum market is left out of the health cache where %s" % logic.show_dnf(L.r, [ls])[:400], w)
        else:
            seen[1] += 1
            c.need([nm(t) for t in ps] == ["new(SER, %s, %s, %s)" % (oo, bi, qi)], "build:serum", "a serum market is entered as %s" % [nm(t)[:300] for t in ps], w)
            adds = {}
            for kind, r, p, t in evs:
                if kind == "push":
                    lists.setdefault("serum3_infos", set()).add(r)
                elif kind == "add" and r in lists.get("token_infos", ()):
                    q = {nm(alg.text(dict([x]))): 1 for x in L.r.vals[t.split(" again")[0]].items()}
                    adds.setdefault(nm(p), []).append(nm(t))
                elif r.op != "cell" or p:
                    adds.setdefault("?" + nm(p), []).append(nm(t))
            want = {"[%s].balance_spot" % bi: [oo + ".native_coin_free"], "[%s].balance_spot" % qi: [oo + ".native_pc_free"]}
            c.need(adds == want, "build:serum-free", "a serum market's free funds are counted as %s instead of %s" % (str(adds)[:300], want), w)
    c.need(seen[0] >= 2 and seen[1] >= 1, "build:serum-paths", "new_health_cache_impl has %d skipping and %d entering paths for serum markets" % tuple(seen), w)
    # perp markets
    seen = 0
    pm = "perp_market_and_oracle_price(retriever, account.fixed.group, I, PER.market_index)"
    for ls, evs in L.r.iters.get(ks[PER][0], ()):
        ps = pushes(evs)
        n += 1
        seen += 1
        got = [nm(t) for t in ps]
        c.need(got == ["new(PER, %s.0, Prices{%s.1, stable_price(%s.0)})" % (pm, pm, pm)], "build:perp", "a perp position is entered as %s" % [x[:400] for x in got], w)
        for kind, r, p, t in evs:
            if kind == "push":
                lists.setdefault("perp_infos", set()).add(r)
    c.need(seen, "build:perp-paths", "no perp position is ever entered", w)
    # the lists become the cache
    k = 0
    for ls, evs, rv, st in L.outs:
        v = logic.inner(rv)
        if not logic.is_ok(rv) or v.op != "agg":
            continue
        k += 1
        for f in ("token_infos", "serum3_infos", "perp_infos"):
            x = v.args[2][v.args[1].index(f)] if f in v.args[1] else None
            c.need(x is not None and len(lists.get(f, ())) == 1, "build:%s-list" % f, "the cache's %s is not the list of the entries made" % f, w)
            c.need(x is not None and holds(x, lists.get(f, ())), "build:%s-result" % f, "the cache's %s is %s" % (f, canon(L.r.D(x))[:100] if x is not None else None), w)
    c.need(k, "build:exit", "new_health_cache_impl never succeeds", w)
    L.exits("all")
    L.all_done("all")
    c.cov["loops"] = c.cov.get("loops", 0) + 3
    c.cov["loop cases compared"] = c.cov.get("loop cases compared", 0) + n
    # who may skip
    for f, flag in (("new_health_cache", 0), ("new_health_cache_skipping_missing_banks_and_bad_oracles", 1)):
        r, outs, old, new = logic.formula(c, H + f, ("new_health_cache_impl",), indexed=True)
        c.need(outs and all(r.D(rv) == "new_health_cache_impl(account, retriever, now_ts, %d)" % flag for ls, rv, st in outs), "build:" + f, "%s returns %s" % (f, [r.D(rv)[:120] for ls, rv, st in outs][:2]), c.where(H + f))


BANK, PX = "bank(POS.token_index)", "price(POS.token_index)"
INITLIAB = "liab(Prices{%s, stable_price(%s)}, Init{})" % (PX, BANK)
TOKEN = {
    "token_index": BANK + ".token_index", "maint_asset_weight": "maint_weights(%s, now_ts).0" % BANK, "maint_liab_weight": "maint_weights(%s, now_ts).1" % BANK,
    "init_asset_weight": BANK + ".init_asset_weight", "init_liab_weight": BANK + ".init_liab_weight",
    "init_scaled_asset_weight": "scaled_init_asset_weight(%s, %s)" % (BANK, INITLIAB), "init_scaled_liab_weight": "scaled_init_liab_weight(%s, %s)" % (BANK, INITLIAB),
    "prices": "Prices{%s, stable_price(%s)}" % (PX, BANK), "balance_spot": "native(POS, %s)" % BANK, "allow_asset_liquidation": "allows_asset_liquidation(%s)" % BANK,
}


def holds(x, roots):
    """The vector x is the local the entries were pushed to."""
    for y in subterms(x):
        if y.op == "phi" and y.args[1] in roots:
            return True
        if y.op in ("hv", "vec"):
            return True
    return False


def entry(c, L, text, nm, want, what, w):
    v = L.r.vals[text.split(" again")[0]]
    ok = c.need(v.op == "agg" and set(want) <= set(v.args[1]), "build:%s-entry" % what, "a %s entry lacks fields: %s" % (what, nm(text)[:200]), w)
    if ok:
        for f, x in want.items():
            g = nm(L.r.D(v.args[2][v.args[1].index(f)]))
            c.need(g == x, "build:%s.%s" % (what, f), "a %s entry's %s is %s instead of %s" % (what, f, g[:300], x), w)


def adjust(c):
    """In-place updates of the cache."""
    fn = C + "adjust_token_balance"
    r, outs, old, new = logic.formula(c, fn, ("token_info_index", "scaled_init_asset_weight", "scaled_init_liab_weight", "liab"), indexed=True)
    w = c.where(fn)
    W = writes(c, fn, ("token_info_index", "scaled_init_asset_weight", "scaled_init_liab_weight", "liab"))
    i = "self.token_infos[token_info_index(self, bank.token_index)]."
    got = {k: v for k, v in W.items()}
    lp = "liab(%sprices, Init{})" % i
    want = {i + "init_scaled_asset_weight": "scaled_init_asset_weight(bank, %s)" % lp, i + "init_scaled_liab_weight": "scaled_init_liab_weight(bank, %s)" % lp,
            i + "balance_spot": alg.text((V("change") + V(i + "balance_spot")).p)}
    differ(c, "adjust_token_balance", got, want, w)
    fn = C + "recompute_serum3_info"
    W = writes(c, fn, ("new",))
    s = [k[: k.index("]") + 1] for k in W if k.startswith("self.serum3_infos[")]
    e = s[0] if s else "self.serum3_infos[?]"
    want = {
        "self.token_infos[%s.base_info_index].balance_spot" % e: alg.text((V("free_base_change") + V("self.token_infos[%s.base_info_index].balance_spot" % e)).p),
        "self.token_infos[%s.quote_info_index].balance_spot" % e: alg.text((V("free_quote_change") + V("self.token_infos[%s.quote_info_index].balance_spot" % e)).p),
        e: "new(serum_account, open_orders, %s.base_info_index, %s.quote_info_index)" % (e, e)}
    differ(c, "recompute_serum3_info", W, want, c.where(fn))


def differ(c, key, got, want, w):
    for k in sorted(set(got) | set(want)):
        c.need(got.get(k) == want.get(k), "adjust:%s.%s" % (key, re.sub(r"\[.*\]", "[]", k)), "%s sets %s to %s instead of %s" % (key, k[:150], got.get(k, "nothing")[:250], want.get(k, "nothing")[:250]), w)


def writes(c, fn, opaque):
    """Additions and stores on the successful paths: place -> value."""
    L = Loops(c, fn, opaque)
    out = {}
    n = 0
    for ls, evs, rv, st in L.outs:
        if not logic.is_ok(rv):
            continue
        n += 1
        got = {}
        for kind, r, p, t in evs:
            if r.op == "cell" and not p:
                continue
            k = canon(L.r.D.root(r, 0) + p if r.op == "obj" else "local" + p)
            v = L.r.vals[t.split(" again")[0]]
            if kind == "add":
                v = (V(k) + V(iters.poly(v))).p if (k, "add") not in got else None
            got[k] = alg.text(iters.poly(v)) if v is not None else "twice"
        for k, v in got.items():
            if out.setdefault(k, v) != v:
                out[k] = "one of " + v
        if n > 1 and set(got) != set(out):
            out["?"] = "places that not every path updates"
    c.cov["in-place updates"] = c.cov.get("in-place updates", 0) + len(out)
    return out


def check(c):
    health(c)
    settle_max(c)
    balances(c)
    reservations(c)
    potential(c)
    equity(c)
    split(c)
    build(c)
    adjust(c)
    lookup(c)
    c.floor("loops", c.cov.get("loops", 0), 17)
