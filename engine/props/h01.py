"""Life of the position slots of an account."""
import re
from ctx import *
import alg, amounts, models, rounds, summ
from terms import T

META = dict(
    title="Account slots are found by exactly their index and freed only when unused",
    statement="Looking up a token, serum or perp position, an order slot or a conditional swap of an account gives a slot of that account's own list that is active for exactly the requested index, market or id, otherwise an error; the "
              "free-slot functions give an unused slot. ensure_token_position, ensure_perp_position and create_serum3_orders return the existing position or reset an unused slot completely (create_serum3_orders refuses a second one for a "
              "market). A new perp position and a new serum open orders account keep their settle token, respectively base and quote token positions, in use, each counted once and released once when they are freed. A token slot is freed "
              "only with a use count of zero; perp_deactivate_position frees a perp position only after its funding was settled and with base, quote, open order and in-flight lots all zero; serum3_close_open_orders frees the slot only for "
              "the recorded open orders account, after the dex closed it. account_close succeeds only for an account that is not being liquidated and has no active token, serum or perp position; only testing groups can force it.",
    q=(["inputs", "histories"], "Every account, index and slot content, whatever sequence of opening and closing positions came before."),
    files=["programs/mango-v4/src/state/mango_account.rs", "programs/mango-v4/src/state/mango_account_components.rs", "programs/mango-v4/src/instructions/perp_deactivate_position.rs",
           "programs/mango-v4/src/instructions/serum3_create_open_orders.rs", "programs/mango-v4/src/instructions/serum3_close_open_orders.rs", "programs/mango-v4/src/instructions/account_close.rs"],
    mechanism=[("token_position, serum3_orders, perp_position and the other lookups of DynamicAccount", "state/mango_account.rs"), ("ensure_token_position, ensure_perp_position, deactivate_*", "state/mango_account.rs"),
               ("perp_deactivate_position", "instructions/perp_deactivate_position.rs"), ("serum3_close_open_orders", "instructions/serum3_close_open_orders.rs"), ("account_close", "instructions/account_close.rs")],
    technique="complete effect tables of the slot functions over MIR dataflow, with the conditions the found element is known to satisfy")
LEVEL = "other"
RULE = ("Every successful exit of a slot function returns a slot of the account's own list that is known to satisfy the defined predicate and changes exactly the defined fields; the closing instructions' exits satisfy the defined "
        "conditions and make exactly the defined calls; account_close completes no round over a list with an active element.")

ACC = "DynamicAccount<Header, Fixed, Dynamic>>::"
BY_RAW = {"token": "token_position_mut_by_raw_index", "serum3": "serum3_orders_mut_by_raw_index", "perp": "perp_position_mut_by_raw_index", "perp_oo": "perp_order_mut_by_raw_index", "token_conditional_swap": "token_conditional_swap_mut_by_index"}
UNCHECKED = {"token": "token_position_by_raw_index_unchecked", "serum3": "serum3_orders_by_raw_index_unchecked", "perp": "perp_position_by_raw_index_unchecked", "perp_oo": "perp_order_by_raw_index_unchecked",
             "token_conditional_swap": "token_conditional_swap_by_index_unchecked"}
ALL = {"token": "all_token_positions", "serum3": "all_serum3_orders", "perp": "all_perp_positions", "perp_oo": "all_perp_orders", "token_conditional_swap": "all_token_conditional_swaps"}
SLOTS = set(BY_RAW.values()) | set(UNCHECKED.values())
FIELD = {"token": "token_index", "serum3": "market_index", "perp": "market_index", "perp_oo": "market"}


def neg(l):
    return (l[0], not l[1])


def active_for(kind, x):
    """The literal `the slot is active for x`."""
    import logic
    return logic.V("slot(%s).%s" % (kind, FIELD[kind])).eq(logic.V(x))


def follow(an, fr, st, it, f, b, how):
    s = T("site", fr.fid, b)
    it = an.full_deref(st, it)
    for s1, v in models.elements(an, fr, st.copy(), it, s):
        if v is None:
            continue
        if how == "find":
            cell = T("cell", "fnd%d" % fr.fid, s)
            s1.mem[cell] = {(): v}
            arg = T("ref", cell, (), 0)
        else:
            arg = v
        for s2, y in (an.call_value(fr, s1, f, [arg], ("each", b)) or ()):
            yield s2, y, v


def on_find(an, fr, st, it, f, b):
    """find/position: the closure holds for the element found."""
    out = []
    for s2, y, v in follow(an, fr, st, it, f, b, "find"):
        out += [(s3, v) for s3 in ([s2] if y.op == "int" and y.args[0] else [] if y.op == "int" else an.branch_states(s2.copy(), fr, y, True))]
    return out


def on_find_map(an, fr, st, it, f, b):
    return [(s, y) for s, y, v in follow(an, fr, st, it, f, b, "map") if A.variant_of(y) != "None"]


ITEM = re.compile(r"(item|idxof)\((?:iter\()?map\(Range\{0, self\.header\.(\w+)_count\}, \{closure#\d+\}\{self\}\)\)?, site\(\)\)")


def plain(s):
    """The element of a list, and the slot at its index, by one name."""
    s = ITEM.sub(lambda m: "%s(%s)" % ("slot" if m.group(1) == "item" else "index", m.group(2)), s)
    for k, f in list(BY_RAW.items()) + list(UNCHECKED.items()):
        s = s.replace("%s(self, index(%s))" % (f, k), "slot(%s)" % k)
    return s.replace("'", "")


def fold(c, chg):
    """A field written after its whole struct is a field of the struct."""
    for k in [k for k, v in chg.items() if re.match(r"^\w+\{", v)]:
        n, _, inner = chg[k][:-1].partition("{")
        a = [x for p, x in c.prog.adts.items() if p.endswith("::" + n)]
        if len(a) != 1:
            continue
        names, vals, d = [x[0] for x in a[0]["variants"][0][2]], [""], 0
        for ch in inner:
            d += ch in "({["
            d -= ch in ")}]"
            if ch == "," and d == 0:
                vals.append("")
            else:
                vals[-1] += ch
        vals = [x.strip() for x in vals]
        if len(names) == len(vals):
            for i, x in enumerate(names):
                if k + "." + x in chg:
                    vals[i] = chg.pop(k + "." + x)
            chg[k] = "%s{%s}" % (n, ", ".join("%s: %s" % y for y in zip(names, vals)))
    return chg


def fresh(**set_):
    """A test for a struct that is all zero but for the named fields."""
    def f(v):
        x = dict(y.split(": ", 1) for y in re.sub(r"^\w+\{(.*)\}$", r"\1", v).split(", ") if ": " in y)
        return all(x.pop(k, None) == w for k, w in set_.items()) and x and all(w in ("0", "default()", "rep(0)", "0.0") for w in x.values())
    return f


def run(c, f, opaque=(), watch=()):
    """[(literals, result, calls, changes)] of the successful exits."""
    import exact, logic
    p = f if "::instructions::" in f else c.find_fn(f)
    o = SLOTS | set(opaque)
    r = exact.rule(c, o, o, watch=watch, drop=("disc checked_", "disc serialize", "disc write_all"))
    r.on_find, r.on_find_map = on_find, on_find_map
    an, outs = r.run_fn(c, p)
    out = []
    rn = lambda k: tuple(sorted(((tuple((plain(v), e) for v, e in m), q) for m, q in k), key=str))
    for s, rv in outs:
        l = amounts.lits(s.marks)
        if is_err(rv) or logic.refuted(l):
            continue
        L = frozenset(logic.zero(dict(rn(a[1])), v) if a[0] == "eq" else ((a[0], plain(a[1]) if a[0] == "txt" else rn(a[1])), v) for a, v in l)
        # results and options have two variants
        L |= {logic.txt(a[1][:-1] + str(1 - int(a[1][-1]))) for a, v in L if a[0] == "txt" and not v and re.match(r"disc (serum3_orders|token_position|token_position_mut|perp_position_mut)\(.* == [01]$", a[1])}
        if not logic.consistent(L) or logic.refuted(L):
            continue
        out.append((L, plain(r.D(rv)), [(g, tuple(plain(x) for x in a)) for g, a, k in exact.did(s.marks)], fold(c, {plain(k): plain(alg.text(v)) for k, v in exact.changes(an, r, s).items()})))
    return p, r, out


def show(r, L):
    import logic
    return logic.show_dnf(r, [L])[:400]


def lookups(c):
    import logic
    V, txt = logic.V, logic.txt

    def look(f, kind, conds, none=False):
        p, r, outs = run(c, ACC + f)
        S, I = "slot(%s)" % kind, "index(%s)" % kind
        n = 0
        for L, t, did, chg in outs:
            if none and t == "None{}":
                continue
            n += 1
            inner = re.sub(r"^(Ok|Some)\{(.*)\}$", r"\2", t)
            parts = re.sub(r"^tup\{(.*)\}$", r"\1", inner).split(", ")
            c.need(all(x in (S, I) for x in parts), "result:" + f, lambda: "%s gives %s" % (f, t[:300]), c.where(p))
            c.need(any(all(x in L for x in alt) for alt in conds(S)), "found:" + f, lambda: "%s gives a slot where %s" % (f, show(r, L)), c.where(p))
            c.need(not chg, "effect:" + f, lambda: "%s changes %s" % (f, sorted(chg)), c.where(p))
        c.need(n, "exits:" + f, "%s has no successful path" % f, c.where(p))
        c.cov["lookups"] = c.cov.get("lookups", 0) + 1
        return outs
    tok = lambda S: [[active_for("token", "token_index")]]
    mk = lambda S: [[V(S + ".market_index").eq(V("market_index"))]]
    for f in ("token_position_and_raw_index", "token_position", "token_position_mut"):
        look(f, "token", tok)
    for f in ("serum3_orders", "serum3_orders_mut"):
        look(f, "serum3", mk)
    for f in ("perp_position", "perp_position_mut"):
        look(f, "perp", mk)
    conf = lambda S: V(S + ".is_configured").eq(V(1))
    look("token_conditional_swap_by_id", "token_conditional_swap", lambda S: [[conf(S), V(S + ".id").eq(V("id"))]])
    look("token_conditional_swap_free_index", "token_conditional_swap", lambda S: [[neg(conf(S))]])
    look("perp_next_order_slot", "perp_oo", lambda S: [[V(S + ".market").eq(V(65535))]])
    look("perp_find_order_with_client_order_id", "perp_oo", lambda S: [[active_for("perp_oo", "market_index"), V(S + ".client_id").eq(V("client_order_id"))]], True)
    look("perp_find_order_with_order_id", "perp_oo", lambda S: [[active_for("perp_oo", "market_index"), V(S + ".id").eq(V("order_id"))]], True)
    # the lists are what the count says, by index
    for k, f in ALL.items():
        p = c.find_fn(ACC + f)
        cs = [q for q in summ.closures_of(c, p) if c.fn(q)["argc"] == 2]
        got = []
        for q in cs:
            import exact
            r = exact.rule(c, SLOTS, SLOTS)
            an, outs = r.run_fn(c, q)
            got += [r.D(rv) for s, rv in outs]
        c.need(got and all(re.match(r"^%s\(.*, (i|arg\w*|\w+)\)$" % UNCHECKED[k], g) for g in got), "list:" + f, "%s lists %s" % (f, got[:3]), c.where(p))
    return


def effects(c):
    import exact, logic
    V, txt = logic.V, logic.txt
    # the predicates themselves
    H = lambda f, want: exact.holds(c, c.find_fn(f), want)
    ne = lambda x, n: V(x).ne(V(n))
    H("TokenPosition::is_active", [[ne("self.token_index", 65535)]])
    H("TokenPosition::is_active_for_token", [[V("self.token_index").eq(V("token_index"))]])
    H("TokenPosition::is_in_use", [[V("self.in_use_count") > V(0)]])
    for t in ("Serum3Orders", "PerpPosition"):
        H(t + "::is_active", [[ne("self.market_index", 65535)]])
        H(t + "::is_active_for_market", [[V("self.market_index").eq(V("market_index"))]])
    n = "self.in_use_count"
    exact.check(c, c.find_fn("TokenPosition::increment_in_use"), [((), {n: V(n) + V(1)})], ok=lambda rv: not is_err(rv))
    p, r, outs = run(c, "TokenPosition::decrement_in_use")
    for L, t, did, chg in outs:
        v = chg.get(n, n)
        c.need(set(chg) <= {n} and (v == "saturating_sub(%s, 1)" % n or v.startswith("max(") and sorted(v[4:-1].split(", ")) == ["-1 + " + n, "0"] or v == "-1 + " + n and (V(n) > V(0)) in L or v in (n, "0") and V(n).eq(V(0)) in L), "release",
               lambda: "decrement_in_use makes the use count %s where %s" % (v, show(r, L)), c.where(p))
    ws = writers(c.prog, {"in_use_count"})["in_use_count"]
    names = {x[0].split("::")[-1] for x in ws}
    c.need({"increment_in_use", "decrement_in_use"} <= names, "writers:anchor", "in_use_count is written by %s" % sorted(names), "program")
    c.need(names <= {"increment_in_use", "decrement_in_use"}, "writers:in_use_count", "in_use_count is also written by %s" % sorted(names - {"increment_in_use", "decrement_in_use"}), "program")

    WATCH = ("increment_in_use", "decrement_in_use", "dust_if_possible", "deactivate_token_position_and_log")

    def table(f, cases, opaque=()):
        """{name: (literals that tell it, literals it needs, changes, calls, result)}; every exit is exactly one of the cases."""
        p, r, outs = run(c, ACC + f, set(opaque) | set(WATCH), WATCH)
        seen = set()
        for L, t, did, chg in outs:
            hit = [k for k, x in cases.items() if all(any(z in L for z in (y if isinstance(y, list) else [y])) for y in x[0])]
            if len(hit) != 1:
                c.bad("case:" + f, "%s succeeds where %s" % (f, show(r, L)), c.where(p))
                continue
            k = hit[0]
            seen.add(k)
            _, eff, calls, res = cases[k]
            c.need(set(chg) == set(eff) and all(eff[x](chg[x]) if callable(eff[x]) else chg[x] == eff[x] for x in eff), "effect:%s:%s" % (f, k), lambda: "%s (%s) makes %s" % (f, k, "; ".join("%s = %s" % x for x in sorted(chg.items()))[:700] or "no change"), c.where(p))
            c.need(sorted(did) == sorted(calls), "calls:%s:%s" % (f, k), lambda: "%s (%s) calls %s" % (f, k, did), c.where(p))
            c.need(res is None or t.startswith(res), "result:%s:%s" % (f, k), lambda: "%s (%s) gives %s" % (f, k, t[:300]), c.where(p))
        for k in set(cases) - seen:
            c.bad("case:%s:%s" % (f, k), "%s has no successful path for `%s`" % (f, k), c.where(p))
        c.cov["slot functions"] = c.cov.get("slot functions", 0) + 1

    raw = "token_position_mut_by_raw_index(self, raw_index)"
    unused = [V(raw + ".in_use_count").eq(V(0)), neg(V(raw + ".in_use_count") > V(0))]
    for f in ("deactivate_token_position", "deactivate_token_position_and_log"):
        table(f, dict(unused=((unused,), {raw + ".token_index": "65535"}, [], None)))
    S = "slot(token)"
    table("ensure_token_position", dict(
        existing=((active_for("token", "token_index"),), {}, [], "Ok{tup{slot(token), index(token), "),
        new=((neg(active_for("token", "token_index")), active_for("token", 65535)), {S: fresh(token_index="token_index")}, [], "Ok{tup{slot(token), index(token), ")))
    S = "slot(serum3)"
    none = txt("disc serum3_orders(self, market_index) == 1")
    table("create_serum3_orders", dict(new=((active_for("serum3", 65535), none), {S: fresh(market_index="market_index", base_token_index="65535", quote_token_index="65535")}, [], "Ok{slot(serum3)}")), ["serum3_orders"])
    table("deactivate_serum3_orders", dict(found=((active_for("serum3", "market_index"),), {S + ".market_index": "65535"}, [], None)))
    S, tp = "slot(perp)", "ensure_token_position(self, settle_token_index)"
    own = active_for("perp", "perp_market_index")
    table("ensure_perp_position", dict(existing=((own,), {}, [], "Ok{tup{slot(perp), index(perp)"),
                                       new=((active_for("perp", 65535),), {S: fresh(market_index="perp_market_index")}, [("increment_in_use", (tp + ".0",))], "Ok{tup{slot(perp), index(perp)")), ["ensure_token_position"])
    P, tp = "perp_position_mut(self, perp_market_index)", "token_position_mut(self, settle_token_index)"
    for f in ("deactivate_perp_position", "deactivate_perp_position_and_log"):
        table(f, dict(found=((), {P + ".market_index": "65535"}, [("decrement_in_use", (tp + ".0",))], None)), ["perp_position_mut", "token_position_mut"])
    tp = "token_position_mut(self, bank.token_index)"
    dust = "dust_if_possible(bank, %s.0, now_ts)" % tp
    less = [("decrement_in_use", (tp + ".0",)), ("dust_if_possible", ("bank", tp + ".0", "now_ts"))]
    table("token_decrement_dust_deactivate", {"gone": ((txt("disc %s == 1" % tp),), {}, [], None), "kept": ((txt(dust),), {}, less, None),
                                              "freed": ((neg(txt(dust)),), {}, less + [("deactivate_token_position_and_log", ("self", tp + ".1", "mango_account_pubkey"))], None)}, ["token_position_mut"])


def instructions(c):
    import logic
    from props import t01
    V, txt = logic.V, logic.txt
    opaque = ("load_full_mut is_owner_or_delegate settle_funding perp_position_mut create_serum3_orders ensure_token_position token_position_mut increment_in_use decrement_in_use deactivate_serum3_orders deactivate_perp_position_and_log "
              "serum3_orders being_liquidated is_testing is_active call").split()
    watch = "increment_in_use decrement_in_use settle_funding deactivate_serum3_orders deactivate_perp_position_and_log create_serum3_orders call".split()

    def ix(f, need, calls, eff=None):
        path = c.find_fn("instructions::%s::%s" % (f, f))
        r, an, outs = t01.exits(c, path, opaque=opaque, watch=watch)
        c.need(outs, "exits:" + f, "%s has no successful path" % f, c.where(path))
        for l, t, got, chg in outs:
            say = lambda: "%s makes the calls %s" % (f, "; ".join("%s(%s)" % (g, ", ".join(a)) for g, a, k in got)[:900])
            for k, x in need.items():
                c.need(x in l, "need:%s:%s" % (f, k), lambda: "%s succeeds without knowing %s" % (f, logic.show_dnf(r, [frozenset([x])])[:200]), c.where(path))
            did = sorted((g, a) for g, a, k in got if g != "call")
            c.need(did == sorted(calls), "calls:" + f, say, c.where(path))
            for k, v in (eff or {}).items():
                c.need(dict(chg).get(k) == alg.key(V(v).p), "effect:%s:%s" % (f, k.split(".")[-1]), "%s does not make %s %s" % (f, k, v), c.where(path))
            c.cov["closing exits"] = c.cov.get("closing exits", 0) + 1
        return outs, path, r
    m = "perp_market.perp_market_index"
    P = "perp_position_mut(account, %s)" % m
    ix("perp_deactivate_position", {k: V(P + "." + k).eq(V(0)) for k in "base_position_lots quote_position_native bids_base_lots asks_base_lots taker_base_lots taker_quote_lots".split()},
       [("deactivate_perp_position_and_log", ("account", m, "perp_market.settle_token_index", "key(account)")), ("settle_funding", (P, "perp_market"))])
    s = "serum_market"
    o = "create_serum3_orders(account, %s.market_index)" % s
    e = "ensure_token_position(account, %s.%s_token_index).0"
    ix("serum3_create_open_orders", {}, [("create_serum3_orders", ("account", s + ".market_index"))] + [("increment_in_use", (e % (s, k),)) for k in ("base", "quote")],
       {o + ".open_orders": "key(open_orders)", o + ".base_token_index": s + ".base_token_index", o + ".quote_token_index": s + ".quote_token_index"})
    e = "token_position_mut(account, %s.%s_token_index).0"
    outs, path, r = ix("serum3_close_open_orders", {"open orders": V("serum3_orders(account, %s.market_index).open_orders" % s).eq(V("key(open_orders)"))},
                       [("deactivate_serum3_orders", ("account", s + ".market_index"))] + [("decrement_in_use", (e % (s, k),)) for k in ("base", "quote")])
    for l, t, got, chg in outs:
        call = [a for g, a, k in got if g == "call"]
        c.need(len(call) == 1 and "CloseOpenOrders{" in call[0][0] and "open_orders" in call[0][0] and any("call(" in a[1] and "CloseOpenOrders" in a[1] and a[1].endswith(" == 0") and v for a, v in l if a[0] == "txt"), "closed-by-dex",
               lambda: "serum3_close_open_orders calls %s" % call, c.where(path))


def funded(c):
    """The quote position that is found to be zero is the one after settling the funding."""
    import exact
    o = set("load_full_mut is_owner_or_delegate settle_funding perp_position_mut deactivate_perp_position_and_log".split())
    p = c.find_fn("instructions::perp_deactivate_position::perp_deactivate_position")
    r = exact.rule(c, o, o - {"settle_funding"})
    an, outs = r.run_fn(c, p)
    for s, rv in outs:
        if not is_err(rv):
            good = any(a[0] == "eq" and v and [k for m, q in a[1] for k, e in m if k.endswith("quote_position_native'")] and len(a[1]) == 1 for a, v in amounts.lits(s.marks))
            c.need(good, "funding:perp_deactivate_position", "perp_deactivate_position does not look at the quote position after settling the funding", c.where(p))


class Closing(rounds.RoundRule):
    """Also ("none", collection, predicate): no element satisfies it."""

    def on_branch(self, an, st, fr, t, val):
        x = t.args[0] if t.op == "eq" and t.args[1].op == "int" and t.args[1].args[0] == 0 and val else None
        call = lambda y, f: y.op == "call" and str(y.args[0]).endswith("::" + f)
        if x is not None and call(x, "count") and call(x.args[1][0], "filter"):
            it, f = x.args[1][0].args[1]
            try:
                return st.marks | {("none", self.D(it), frozenset(summ.run_pred(self.c, f, T("arg", "it"))))}
            except summ.Undecided:
                pass
        return rounds.RoundRule.on_branch(self, an, st, fr, t, val)


def closing(c):
    """Where an account is closed, every round over its lists sees an element that is not active."""
    path = c.find_fn("instructions::account_close::account_close")
    r = Closing(c.prog, SLOTS | {"is_testing", "being_liquidated", "load_full_mut", "load_full"})
    r.c = c
    r.keep = ("is_active", r"\bmarket_index\b", r"\btoken_index\b")
    r.hold = ("being_liquidated", "is_testing", "force_close")
    an = A.Analyzer(c.prog, r, 200000)
    outs = an.run(path, [T("arg", n) for n in summ.arg_names(c.fn(path))])
    w = c.where(path)
    n = 0
    for s, rv in outs:
        if is_err(rv):
            continue
        h = {re.sub(r"ctx\.accounts\.", "", x[1]) for x in s.marks if x[0] == "h"}
        if {"force_close", "is_testing(group)"} <= h:
            continue
        n += 1
        c.need("!being_liquidated(account)" in h, "close:liquidation", "account_close succeeds for an account that may be in liquidation (where %s)" % " and ".join(sorted(h)), w)
        done = [x[1] for x in s.marks if x[0] == "done" and x[1] not in r.partial]
        for k in ("token", "serum3", "perp"):
            mine = [x for x in done if r.over.get(x) and all(re.search(r"\.%s_count\b" % k, o) for o in r.over[x])]
            good = [x for x in mine if r.rounds.get(x) and all(any(re.match(r"^item\.%s == 65535$" % FIELD[k], y) for y in f) for f in r.rounds[x])]
            none = {x[1:] for x in s.marks if x[0] == "none"}
            good = good or any(re.search(r"\.%s_count\b" % k, x) and d == frozenset([frozenset(["it.%s != 65535" % FIELD[k]])]) for x, d in none)
            c.need(good, "close:" + k, "account_close succeeds without having seen that no %s position is active (where %s)" % (k, " and ".join(sorted(h))), w)
    c.need(n, "close:anchor", "account_close has no path that is not forced", w)
    c.cov["closing exits"] = c.cov.get("closing exits", 0) + n


def check(c):
    for f in (lookups, effects, instructions, funded, closing):
        f(c)
    c.floor("lookups", c.cov.get("lookups", 0), 12)
    c.floor("slot functions", c.cov.get("slot functions", 0), 9)
