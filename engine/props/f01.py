"""Matching of perp orders."""
from ctx import *
import guards
from terms import T, Term

META = dict(
    title="A perp order fills only valid opposing orders within its limit, for exact lots",
    statement="Matching a new perp order walks the opposing side's orders and fills exactly min(lots still wanted, the maker order's lots, quote lots left / the maker's price) at the maker order's price, only while the maker order is valid "
              "(not expired, its oracle peg within its peg limit and a representable price) and its price is within the order's limit, at most `limit` times, and never for a post-only order. Every fill queues one fill event with the maker's order id, slot, owner and fee and the taker's key and fee, "
              "lowers what the order still wants in base and quote lots by exactly the fill, and removes the maker order exactly when it is used up, else lowers its quantity by the fill. Own orders are filled without fees (DecrementTake), cancelled with an out event (CancelProvide), or fail the "
              "call (AbortTransaction). The taker's lots and taker fees on everything but own orders are booked at once, an immediate-or-cancel order also pays the penalty. The rest, min(base lots, quote lots / price), is posted only for fixed and oracle-pegged orders, when nothing matchable was left out "
              "because of post-only or the limit, when the price is within the market's oracle price band, and on a full book only if better than the worst order, which it replaces; every order dropped from the book queues an out event with its quantity, and the posted order is recorded in the account. "
              "Price comparisons, peg prices, expiry, order ids and the order in which two candidate orders rank follow their definitions.",
    q=(["inputs"], "Every book content, order, account and market state; that the tree iterator itself yields a side's orders best first is not part of it."),
    files=["programs/mango-v4/src/state/orderbook/book.rs", "programs/mango-v4/src/state/orderbook/order.rs", "programs/mango-v4/src/state/orderbook/order_type.rs", "programs/mango-v4/src/state/orderbook/bookside_iterator.rs",
           "programs/mango-v4/src/state/orderbook/nodes.rs", "programs/mango-v4/src/state/orderbook/queue.rs"],
    mechanism=[("Orderbook::new_order", "state/orderbook/book.rs"), ("apply_fees, apply_penalty", "state/orderbook/book.rs"), ("Side, Order", "state/orderbook/order.rs"), ("rank_orders, oracle_pegged_price", "state/orderbook/bookside_iterator.rs")],
    technique="symbolic per-iteration summaries of the matching loop over MIR dataflow, compared with the defined transitions")
LEVEL = "other"
RULE = ("Every iteration of the matching loop, every way it ends, every event, fee, posting and book change is reduced to polynomials with min/max and call facts over named state and must be one of the defined transitions; "
        "the functions these use must have exactly the defined results and effects.")

OPAQUE = set("""new iter_all_including_invalid is_valid is_price_within_limit apply_fees apply_penalty add_taker_trade native_price_to_lot is_post_only post_target price gen_order_id
needs_penalty_fee insert_leaf remove_by_key remove_one_expired remove_worst is_full is_price_better inside_price_limit lot_to_native_price perp_next_order_slot add_perp_order emit_stack
perp_position_mut node_mut bookside_mut invert_side peg_limit from_leaf_node push_back as_leaf_mut""".split())
KEEP = ("is_valid", "is_price_within_limit", "is_post_only", "owner", "self_trade_behavior", "phi", "post_target", "is_full", "inside_price_limit", "is_price_better", "needs_penalty_fee", "remove_one_expired",
        "remove_worst", "order.max")
WATCH = ("new", "push_back", "push", "remove_by_key", "remove_worst", "remove_one_expired", "add_taker_trade", "apply_fees", "apply_penalty", "insert_leaf", "add_perp_order", "as_leaf_mut")
PUSH = ("std::vec::Vec::<T, A>::push",)


def new_order(c):
    import logic, amounts, alg, matching
    V, vmin, txt = logic.V, logic.vmin, logic.txt
    path = c.find_fn("Orderbook::<'a>::new_order")
    w = c.where(path)

    class Book(matching.LoopCalls):
        pre = ("state::oracle::", "health::", "logs::", "<state::orderbook") + tuple("state::orderbook::" + x for x in ("bookside", "nodes", "ordertree", "queue", "order::", "order_type::"))
        fields = ("quantity",)

        def __init__(self, before):
            matching.LoopCalls.__init__(self, c.prog, OPAQUE, OPAQUE, keep=KEEP, ext=PUSH, watch=WATCH, before=before)
            self.ends = set()
            self.targets = {(p.args[1], p.args[2]) for p, vs in before.start.items() for v, x in vs if self.D(v) == "post_target(order)"} if before else set()

        def on_loop(self, an, st, fr, hdr, first):
            matching.LoopCalls.on_loop(self, an, st, fr, hdr, first)
            if any(p.args[0] is hdr and self.D(v) == "order.max_base_lots" for p, vs in self.start.items() for v, x in vs):
                return frozenset()
            if first and ("over",) not in st.marks:
                self.ends |= {(an.read(st, x), frozenset(st.marks)) for x in self.targets}
            return st.marks | {("over",)} if first else frozenset([("over",)])

    r, an, outs = matching.loop_calls(c, path, Book)
    name = lambda p: r.D(p)
    memo = {}

    def refuted(l):
        if l not in memo:
            memo[l] = logic.refuted(l)
        return memo[l]

    def known(l, x):
        return x in l or logic.implied(l, [[x]])

    # the matching loop and what it carries
    def carried(text):
        return {p for p, vs in r.start.items() if {r.D(v) for v, m in vs} == {text}}
    heads = {p.args[0] for p in carried("order.max_base_lots")}
    if len(heads) != 1 or len(carried("order.max_quote_lots")) != 1:
        return c.bad("anchor:loop", "no loop over opposing orders that counts down the order's base and quote lots", w)
    hdr = next(iter(heads))
    one = lambda text: [p for p in carried(text) if p.args[0] is hdr]
    b, q, lim = ((one(x) + [None])[0] for x in ("order.max_base_lots", "order.max_quote_lots", "limit"))
    if lim is None:
        return c.bad("anchor:limit", "the matching loop does not count down the limit", w)
    B, Q, L = V(name(b)), V(name(q)), V(name(lim))
    zeros = [p for p in one("0")]
    it = "found()"
    price, qty = V(it + ".price_lots"), V(it + ".node.quantity")
    m = vmin(B, qty, Q * over(price))
    PR = "price(order, now_ts, native_price_to_lot(perp_market, oracle_price), self)"
    within = txt("is_price_within_limit(order.side, %s.price_lots, %s.0)" % (it, PR))
    valid = txt("is_valid(%s)" % it)
    post_only = txt("is_post_only(order)")
    no = lambda x: (x[0], not x[1])
    own = V("mango_account_pk").eq(V(it + ".node.owner"))
    beh = lambda n: txt("disc order.self_trade_behavior == %d" % n)
    opp = "bookside_mut(self, invert_side(order.side))"
    mine = "bookside_mut(self, order.side)"
    out_ev = lambda side, node: "cast(from_leaf_node(%s, now_ts, event_queue.header.seq_num, %s))" % (side, node)

    # fills
    names = ["order.side", None, it + ".node.owner_slot", "now_ts", "event_queue.header.seq_num", it + ".node.owner", it + ".node.key", it + ".node.client_order_id", "perp_market.maker_fee", it + ".node.timestamp",
             "mango_account_pk", "order.client_order_id", "perp_market.taker_fee", it + ".price_lots", None]
    fills = 0
    for vs, marks in sorted(r.raw.get("new", ()), key=str):
        l = amounts.lits(marks)
        if len(vs) != 15 or refuted(l):
            continue
        fills += 1
        d = [r.D(v) for v in vs]
        self_trade = known(l, own)
        c.need(self_trade or known(l, no(own)), "fill:self", "a fill event is made without telling whether the order is the taker's own", w)
        for i, x in enumerate(names):
            x = "0" if self_trade and i in (8, 12) else x
            c.need(x is None or d[i] == x, "fill:arg:%d" % i, "argument %d of a fill event is %s, expected %s%s" % (i, d[i][:200], x, " (self trade)" if self_trade else ""), w)
        c.need(amounts.eqv(alg.key(r.x.poly(vs[14])), m, l), "fill:quantity", "a fill is for %s lots, expected the least of what the order still wants, the maker's quantity and what the quote lots pay" % d[14][:300], w)
        c.need(truth(r, vs[1], l, (qty - m).eq(0)), "fill:out", "the maker-out flag of a fill is %s" % d[1][:300], w)
        for k, x in (("valid", valid), ("limit", within), ("post", no(post_only)), ("base", B.ne(0)), ("count", L.ne(0)), ("quote", (Q * over(price)).ne(0))):
            c.need(known(l, x), "fill:fact:" + k, "a fill is made without the condition: %s" % logic.show_dnf(r, [[x]]), w)
        c.need(not self_trade or known(l, beh(0)), "fill:behaviour", "the taker's own order is filled although the order does not say DecrementTake", w)
    c.floor("fills", fills, 2)

    # one iteration of matching
    removed = changed = None
    kinds = {}
    for vals, marks in sorted(r.turns.get(hdr, ()), key=str):
        l = amounts.lits(marks)
        if refuted(l):
            continue
        nxt = dict(vals)
        done = matching.did(marks)
        new = [a for f, a in done if f == "new" and isinstance(a, tuple) and len(a) == 15]
        events = sorted(a[1] for f, a in done if f == "push_back" and isinstance(a, tuple))
        pushes = {a for f, a in done if f == "push" and isinstance(a, tuple)}
        P = lambda p: V(r.x.poly(nxt.get(p, p)))
        same = lambda p, v: amounts.eqv(alg.key(P(p).p), v, l)
        self_trade = known(l, own)
        kind = "fill" if new else "skip" if known(l, no(valid)) else "cancel" if self_trade else "other"
        kinds[kind] = kinds.get(kind, 0) + 1
        if kind == "fill":
            c.need(len(new) == 1 and events == ["cast(new(%s))" % ", ".join(new[0])], "turn:fill:event", "a fill queues %s" % [e[:200] for e in events], w)
            c.need(same(b, B - m) and same(q, Q - m * price), "turn:fill:rest", "after a fill the order wants %s base and %s quote lots" % (r.D(nxt.get(b, b))[:200], r.D(nxt.get(q, q))[:200]), w)
            c.need(same(lim, L - V(1)), "turn:fill:count", "a fill leaves the limit at %s" % r.D(nxt.get(lim, lim))[:200], w)
            gone = known(l, (qty - m).eq(0))
            stays = known(l, (qty - m).ne(0))
            c.need(gone or stays, "turn:fill:out", "a fill does not tell whether the maker's order is used up", w)
            for a in pushes:
                if "%s.handle.order_tree, %s.node.key" % (it, it) in a[1]:
                    c.need(gone and removed in (None, a[0]), "turn:fill:delete", "a maker's order with quantity left is deleted", w)
                    removed = a[0]
                elif it + ".handle" in a[1]:
                    c.need(stays and changed in (None, a[0]), "turn:fill:change", "a used up order is kept", w)
                    changed = a[0]
            c.need(len(pushes) == 1, "turn:fill:list", "a fill puts %s on the lists of changes" % sorted(str(a)[:200] for a in pushes), w)
        else:
            c.need(same(b, B) and same(q, Q), "turn:%s:rest" % kind, "the lots the order wants change without a fill: %s, %s" % (r.D(nxt.get(b, b))[:200], r.D(nxt.get(q, q))[:200]), w)
            c.need(kind != "other", "turn:other", "a valid order is passed over where %s" % logic.show_dnf(r, [l])[:400], w)
            c.need(kind != "cancel" or known(l, beh(1)), "turn:cancel", "the taker's own order is cancelled although the order does not say CancelProvide", w)
            c.need((kind, bool(pushes)) != ("cancel", False), "turn:cancel:delete", "CancelProvide does not delete the own order", w)
            for a in pushes:
                c.need("%s.handle.order_tree, %s.node.key" % (it, it) in a[1] and removed in (None, a[0]), "turn:%s:delete" % kind, "%s is put on a list of changes without a fill" % str(a)[:200], w)
                removed = a[0]
            c.need(len(events) == len(pushes) and all(e == out_ev("invert_side(order.side)", it + ".node") for e in events), "turn:%s:event" % kind, "an order that is dropped queues %s" % [e[:200] for e in events], w)
        dec = [p for p in zeros if kind == "fill" and same(p, V(name(p)) + m * price)]
        keep_ = [p for p in zeros if same(p, V(name(p)))]
        zeros = [p for p in zeros if p in (dec if kind == "fill" and self_trade else keep_) or (kind == "skip")]
    for k in ("fill", "skip", "cancel"):
        c.need(kinds.get(k), "turns:" + k, "no iteration of the matching loop ends as %s" % k, w)
    D = [p for p in zeros]
    # what is known once matching ends
    dt = "; ".join(name(p) for p in D)
    tb, tq = V("order.max_base_lots") - B, V("order.max_quote_lots") - Q
    takes = 0
    want = ["perp_position_mut(mango_account, perp_market.perp_market_index)", "order.side"]
    for vs, marks in sorted(r.raw.get("add_taker_trade", ()), key=str):
        takes += 1
        c.need([r.D(v) for v in vs[:2]] == want and len(vs) == 4 and amounts.eqv(alg.key(r.x.poly(vs[2])), tb) and amounts.eqv(alg.key(r.x.poly(vs[3])), tq),
               "taker:trade", "the taker's trade is recorded as %s" % ", ".join(r.D(v)[:150] for v in vs), w)
    c.floor("taker trades", takes, 1)
    fees = 0
    for vs, marks in sorted(r.raw.get("apply_fees", ()), key=str):
        fees += 1
        c.need([r.D(v) for v in vs[:2]] == ["perp_market", "mango_account"] and any(amounts.eqv(alg.key(r.x.poly(vs[2])), tq - V(name(p))) for p in D), "taker:fees", "taker fees are charged on %s, expected the quote lots matched less those of the taker's own orders" % r.D(vs[2])[:200], w)
    c.floor("fees", fees, 1)
    target = [p for p, vs in r.start.items() if any(r.D(v) == "post_target(order)" for v, m_ in vs)]
    entries = 0
    for v, marks in sorted(r.ends, key=str):
        l = amounts.lits(marks)
        if refuted(l):
            continue
        t = r.D(v)
        entries += 1
        c.need(t in ("None{}", "post_target(order)"), "post:target", "the tree to post to becomes %s" % t[:200], w)
        if t != "None{}":
            c.need(within not in l or known(l, no(post_only)), "post:only", "a post-only order that would match is still posted", w)
            c.need(within not in l or known(l, L.ne(0)), "post:count", "an order whose matching stopped at the limit is still posted", w)
        c.need(within not in l or known(l, post_only) or known(l, L.eq(0)) or known(l, (Q * over(price)).eq(0)), "post:early", "matching ends at an order that could be matched, where %s" % logic.show_dnf(r, [l])[:300], w)
        c.need(no(valid) not in l, "post:invalid", "matching ends at an invalid order", w)
        c.need(not (known(l, own) and known(l, beh(2))), "post:abort", "AbortTransaction does not fail on the taker's own order", w)
        fs = {f for f, a in matching.did(marks)}
        c.need({"add_taker_trade", "apply_fees"} <= fs or known(l, tb <= 0) and known(l, tq <= 0), "taker:missing", "matched lots are not recorded or charged where %s" % logic.show_dnf(r, [l])[:300], w)
    c.floor("ends of matching", entries, 4)
    for p, vs in r.start.items():
        if p.args[0] is hdr:
            for v, marks in vs:
                l = amounts.lits(marks)
                pen = "apply_penalty" in {f for f, a in matching.did(marks)}
                n_ = txt("needs_penalty_fee(order)")
                c.need(refuted(l) or (n_ if pen else no(n_)) in l, "penalty", "the fee penalty is %s where %s" % ("applied" if pen else "not applied", logic.show_dnf(r, [l])[:200]), w)
    # the lists of changes are worked off
    lists = {}
    for h, ts in r.turns.items():
        if h is hdr:
            continue
        for vals, marks in ts:
            for f, a in matching.did(marks):
                if isinstance(a, tuple) and f in ("remove_by_key", "as_leaf_mut"):
                    lists.setdefault(f, set()).add((h, a))
    for f, ts in lists.items():
        for h, a in ts:
            for vals, marks in r.turns[h]:
                c.need(refuted(amounts.lits(marks)) or (f, a) in matching.did(marks), "list:" + f, "an entry of a list of changes is passed over", w)
    rem = {a for h, a in lists.get("remove_by_key", ())}
    src = iters(r, removed)
    c.need(rem and all(a[0] == opp and a[1].endswith(".0") and a[2] == a[1][:-2] + ".1" and a[1][:-2] in src for a in rem), "list:remove", "orders removed after matching: %s" % sorted(map(str, rem))[:2], w)
    chg = {a for h, a in lists.get("as_leaf_mut", ())}
    srcc = iters(r, changed)
    c.need(chg and all(a[0].startswith("node_mut(%s, " % opp) and a[0][len("node_mut(%s, " % opp):].replace(".0.node)", "") in srcc for a in chg), "list:change", "orders changed after matching: %s" % sorted(map(str, chg))[:2], w)
    writes = {(root, r.D(v)) for root, f, v, marks in r.writes}
    c.need(writes and all(v.endswith(".1") and v[:-2] in srcc and root.strip("'").startswith("as_leaf_mut(") or v.endswith(".quantity") for root, v in writes), "list:quantity", "quantities written: %s" % sorted(str(x)[:200] for x in writes)[:3], w)
    quant = {a[1] for vals, marks in r.turns.get(hdr, ()) for f, a in matching.did(marks) if f == "push" and isinstance(a, tuple) and a[0] == changed}
    for vs, marks in r.raw.get("push", ()):
        if r.D(vs[0]) == changed:
            v = vs[1]
            c.need(v.op == "agg" and r.D(v.args[2][0]) == it + ".handle" and amounts.eqv(alg.key(r.x.poly(v.args[2][1])), qty - m, amounts.lits(marks)), "list:rest", "a partly filled order is left with %s" % r.D(v)[:300], w)

    # posting the rest
    pt = [name(p) for p in target]
    rest = vmin(B, Q * over(V(PR + ".0")))
    posts = 0
    leaf = ["perp_next_order_slot(mango_account)", "gen_order_id(perp_market, order.side, %s.1)" % PR, "mango_account_pk", None, "now_ts", "Limit{}", "order.time_in_force", "peg_limit(order)", "order.client_order_id"]
    made = set()
    for vs, marks in sorted(r.raw.get("new", ()), key=str):
        l = amounts.lits(marks)
        if len(vs) == 15 or refuted(l) or not vs:
            continue
        if len(vs) != 9:
            continue
        d = [r.D(v) for v in vs]
        made.add("new(%s)" % ", ".join(d))
        for i, x in enumerate(leaf):
            c.need(x is None or d[i] == x, "post:arg:%d" % i, "argument %d of the posted order is %s, expected %s" % (i, d[i][:200], x), w)
        c.need(amounts.eqv(alg.key(r.x.poly(vs[3])), rest, l), "post:quantity", "an order is posted for %s lots" % d[3][:300], w)
    for vs, marks in sorted(r.raw.get("insert_leaf", ()), key=str):
        l = amounts.lits(marks)
        if refuted(l):
            continue
        posts += 1
        d = [r.D(v) for v in vs]
        c.need(d[0] == mine and d[1].split(".")[0] in pt and d[2] in made, "post:insert", "an order is put on the book as insert_leaf(%s)" % ", ".join(x[:150] for x in d), w)
        facts = [("target", [txt("disc %s == 1" % x) for x in pt]), ("quantity", [rest > 0]), ("price", [txt("inside_price_limit(perp_market, order.side, lot_to_native_price(perp_market, %s.0), oracle_price)" % PR)])]
        for k, xs in facts:
            c.need(any(known(l, x) for x in xs), "post:fact:" + k, "an order is posted without the condition on its %s" % k, w)
        full = txt("is_full(%s)" % mine)
        dd = matching.did(marks)
        worst = "remove_worst(%s, now_ts, native_price_to_lot(perp_market, oracle_price))" % mine
        if no(full) not in l:
            c.need(("remove_worst", tuple(split(worst))) in dd and known(l, txt("is_price_better(order.side, %s.0, %s.1)" % (PR, worst))), "post:full", "an order is posted on a full book without being better than the worst order, which it replaces: %s" % logic.show_dnf(r, [l])[-400:], w)
        for f in ("remove_worst", "remove_one_expired"):
            for g, a in dd:
                if g == f and isinstance(a, tuple):
                    t = "%s(%s)" % (f, ", ".join(a))
                    gone = f == "remove_worst" or txt("disc %s == 1" % t) in l
                    node = t + (".0" if f == "remove_worst" else "")
                    c.need(not gone or ("push_back", ("event_queue", out_ev("order.side", node))) in dd, "post:out:" + f, "an order dropped from the book to make room queues no out event", w)
    c.floor("posts", posts, 2)
    oks = 0
    for s, rv in outs:
        if is_err(rv):
            continue
        l = amounts.lits(s.marks)
        if refuted(l):
            continue
        oks += 1
        dd = matching.did(s.marks)
        ins = [a for f, a in dd if f == "insert_leaf" and isinstance(a, tuple)]
        add = [a for f, a in dd if f == "add_perp_order" and isinstance(a, tuple)]
        t = r.D(rv)
        c.need(len(ins) == len(add) and all(a[:3] == ("mango_account", "perp_market.perp_market_index", "order.side") and a[3:] == i[1:] for a, i in zip(add, ins)), "post:account", "an order posted as %s is recorded in the account as %s" % (ins and ins[0][:2], add and add[0][:4]), w)
        c.need(t == ("Ok{Some{gen_order_id(perp_market, order.side, %s.1)}}" % PR if ins else "Ok{None{}}"), "post:result", "the order id %s is returned where the order was %sposted" % (t[:200], "" if ins else "not "), w)
    c.floor("successful exits", oks, 2)
    return fills + posts + entries


class iters(object):
    """Names for an element of a list."""

    def __init__(self, r, vec):
        self.names, self.vec = elements(r, vec), vec

    def __contains__(self, t):
        import re
        return t in self.names or t.startswith(str(self.vec)) and re.fullmatch(r"\.idx\(each\(site\(\d+, \d+\)\)\)", t[len(self.vec):]) is not None


def elements(r, vec):
    return {"item(iter(%s))" % vec} | {"item(%s)" % r.D(p) for p, vs in r.start.items() if {r.D(v) for v, m in vs} == {"iter(%s)" % vec}}


def truth(r, t, l, x):
    import logic
    if t.op == "int":
        return logic.implied(l, [[x if t.args[0] else (x[0], not x[1])]])
    y = r.lit(r.x, t, True)
    no = lambda a: (a[0], not a[1])
    return y == x or logic.implied(frozenset(l) | {y}, [[x]]) and logic.implied(frozenset(l) | {no(y)}, [[no(x)]])


def split(call):
    """The arguments of a rendered call."""
    s = call[call.index("(") + 1:-1]
    out, d, k = [], 0, 0
    for i, ch in enumerate(s):
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        elif ch == "," and d == 0:
            out.append(s[k:i].strip())
            k = i + 1
    return out + [s[k:].strip()]


def over(x):
    from props import e01
    return e01.over(x)


def enum(c, name):
    for p, a in c.prog.adts.items():
        if p.split("::")[-1] == name:
            return {v[0]: int(v[1]) for v in a["variants"]}


ENUMS = dict(Side=dict(Bid=0, Ask=1), BookSideOrderTree=dict(Fixed=0, OraclePegged=1), OrderParams=dict(Market=0, ImmediateOrCancel=1, Fixed=2, OraclePegged=3),
             PostOrderType=dict(Limit=0, PostOnly=2, PostOnlySlide=4), OrderState=dict(Valid=0, Invalid=1, Skipped=2), SelfTradeBehavior=dict(DecrementTake=0, CancelProvide=1, AbortTransaction=2))


def pieces(c):
    """What the matching steps are made of."""
    import logic, exact
    V, txt, vmin, vmax, fn = logic.V, logic.txt, logic.vmin, logic.vmax, logic.fn
    for e, want in ENUMS.items():
        got = enum(c, e)
        c.need(got == want, "enum:" + e, "the variants of %s are %s" % (e, got), c.where(c.find_fn("Orderbook::<'a>::new_order")))
    bid, ask = txt("disc self == 0"), txt("disc self == 1")
    no = lambda x: (x[0], not x[1])
    H = lambda f, want: exact.holds(c, c.find_fn(f), want)
    X = lambda f, want, **kw: exact.check(c, c.find_fn(f), want, ok=lambda rv: not is_err(rv), **kw)
    X("Side::invert_side", [([bid], {}, None, "Ask{}"), ([ask], {}, None, "Bid{}")])
    better = lambda a, b: [[bid, V(a) > V(b)], [ask, V(a) < V(b)]]
    H("Side::is_price_better", better("lhs", "rhs"))
    H("Side::is_price_data_better", better("lhs", "rhs"))
    H("Side::is_price_within_limit", [[bid, V("price") <= V("limit")], [ask, V("price") >= V("limit")]])
    s0, s1 = txt("disc side == 0"), txt("disc side == 1")
    X("order::market_order_limit_for_side", [([s0], {}, None, "9223372036854775807"), ([s1], {}, None, V(1))])
    X("post_only_slide_limit", [([s0], {}, None, vmin(V("limit"), V("best_other_side") - 1)), ([s1], {}, None, vmax(V("limit"), V("best_other_side") + 1))])
    par = lambda n: txt("disc self.params == %d" % n)
    typ = lambda k, n: txt("disc self.params.%s.order_type == %d" % (k, n))
    H("Order::is_post_only", [[par(n), typ(k, t)] for n, k in ((2, "Fixed"), (3, "OraclePegged")) for t in (2, 4)])
    H("Order::needs_penalty_fee", [[par(1)]])
    X("Order::post_target", [([par(2)], {}, None, "Some{Fixed{}}"), ([par(3)], {}, None, "Some{OraclePegged{}}"), ([no(par(2)), no(par(3))], {}, None, "None{}")])
    X("Order::peg_limit", [([par(3)], {}, None, V("self.params.OraclePegged.peg_limit")), ([no(par(3))], {}, None, V(-1))])
    H("BookSideIterItem::<'a>::is_valid", [[txt("disc self.state == 0")]])
    tif = V("self.time_in_force")
    H("LeafNode::is_expired", [[tif > 0, V("now_ts") >= tif + V("self.timestamp")]])
    inside = [[s0, V("native_price") <= V("oracle_price") * V("self.maint_base_liab_weight")], [s1, V("native_price") >= V("oracle_price") * V("self.maint_base_asset_weight")]]
    H("PerpMarket::inside_price_limit", inside)
    bl, ql = V("self.base_lot_size"), V("self.quote_lot_size")
    X("PerpMarket::lot_to_native_price", [([], {}, None, V("price") * ql * over(bl))])
    X("PerpMarket::native_price_to_lot", [([], {}, None, fn("floor", V("price") * bl * over(ql)))])
    item = lambda p, tree, price, state: "BookSideIterItem{BookSideOrderHandle{%s.0, %s{}}, %s.1, %s, %s}" % (p, tree, p, price, state)
    exp = lambda p: txt("is_expired(%s.1, now_ts)" % p)
    X("fixed_to_result", [([exp("fixed")], {}, None, item("fixed", "Fixed", "fixed_price_lots(price_data(fixed.1))", "Invalid{}")), ([no(exp("fixed"))], {}, None, item("fixed", "Fixed", "fixed_price_lots(price_data(fixed.1))", "Valid{}"))],
      opaque=("is_expired", "fixed_price_lots", "price_data"))
    X("oracle_pegged_to_result", [([exp("pegged")], {}, None, item("pegged", "OraclePegged", "pegged.2", "Invalid{}")), ([no(exp("pegged"))], {}, None, item("pegged", "OraclePegged", "pegged.2", "pegged.3"))], opaque=("is_expired",))
    pp = "saturating_add(oracle_price_lots, oracle_pegged_price_offset(price_data(node)))"
    fits = txt("contains(Range{1, 9223372036854775807}, %s)" % pp)
    pb = txt("is_price_better(side, %s, node.peg_limit)" % pp)
    peg = V("node.peg_limit")
    X("bookside_iterator::oracle_pegged_price", [([fits, peg.ne(-1), pb], {}, None, "tup{Invalid{}, %s}" % pp), ([fits, peg.eq(-1)], {}, None, "tup{Valid{}, %s}" % pp), ([fits, peg.ne(-1), no(pb)], {}, None, "tup{Valid{}, %s}" % pp),
                                                 ([no(fits)], {}, None, "tup{Skipped{}, (1 Max %s)}" % pp)], opaque=("is_price_better", "oracle_pegged_price_offset", "price_data"))
    fill = c.find_fn("FillEvent::new")
    X("OutEvent::from_leaf_node", [([], {}, None, None)])
    named(c, "FillEvent::new", dict({x: x for x in "taker_side maker_out maker_slot timestamp seq_num maker maker_timestamp taker taker_client_order_id maker_order_id price quantity maker_client_order_id".split()}, maker_fee="to_num(maker_fee)", taker_fee="to_num(taker_fee)"))
    named(c, "OutEvent::from_leaf_node", dict(side="side", owner_slot="node.owner_slot", timestamp="timestamp", seq_num="seq_num", owner="node.owner", quantity="node.quantity", order_id="node.key"))
    named(c, "LeafNode::new", {x: x for x in "owner_slot order_type time_in_force key owner quantity timestamp peg_limit client_order_id".split()})
    # which order comes first: price, then age
    d1 = lambda x, n=1: txt("disc %s == %d" % (x, n))
    okey = "key_for_fixed_price(oracle_pegged.1.key, oracle_pegged_price(oracle_price_lots, oracle_pegged.1, side).1)"
    bx = txt("((%s < fixed.1.key) BitXor return_worse)" % okey)
    ax = txt("((fixed.1.key < %s) BitXor return_worse)" % okey)
    F = "Some{fixed_to_result(fixed, now_ts)}"
    O = "Some{oracle_pegged_to_result(tup{oracle_pegged.0, oracle_pegged.1, oracle_pegged_price(oracle_price_lots, oracle_pegged.1, side).1, oracle_pegged_price(oracle_price_lots, oracle_pegged.1, side).0}, now_ts)}"
    both = [d1("fixed"), d1("oracle_pegged")]
    X("rank_orders", [(both + [s0, bx], {}, None, F), (both + [no(s0), ax], {}, None, F), (both + [s0, no(bx)], {}, None, O), (both + [no(s0), no(ax)], {}, None, O), ([d1("fixed"), d1("oracle_pegged", 0)], {}, None, F),
                      ([d1("fixed", 0), d1("oracle_pegged")], {}, None, O), ([d1("fixed", 0), d1("oracle_pegged", 0)], {}, None, "None{}")], opaque=("oracle_pegged_price", "key_for_fixed_price", "fixed_to_result", "oracle_pegged_to_result"))
    sn = V("self.seq_num") + 1
    newk = lambda n: "new_node_key(side, price_data, %s)" % n
    X("PerpMarket::gen_order_id", [([], {"self.seq_num": sn}, None, newk("(1 + self.seq_num)"))], opaque=("new_node_key",))
    X("new_node_key", [([s0], {}, None, "(!(seq_num) BitOr (price_data Shl 64))"), ([no(s0)], {}, None, "((price_data Shl 64) BitOr seq_num)")])
    X("fixed_price_data", [([V("price_lots") >= 1], {}, None, V("price_lots"))])
    X("key_for_fixed_price", [([], {}, None, "((fixed_price_data(price_lots) Shl 64) BitOr key)")], opaque=("fixed_price_data",))
    X("LeafNode::price_data", [([], {}, None, "(self.key Shr 64)")])
    X("fixed_price_lots", [([], {}, None, V("price_data"))])
    half = "((18446744073709551615 / 2) + 1)"
    X("oracle_pegged_price_data", [([], {}, None, "wrapping_add(price_offset_lots, %s)" % half)])
    X("oracle_pegged_price_offset", [([], {}, None, "wrapping_sub(price_data, %s)" % half)])
    # fees
    P = "perp_position_mut(account, market.perp_market_index)"
    qn = V("market.quote_lot_size") * V("quote_lots")
    mf, tf = qn * V("market.maker_fee"), qn * V("market.taker_fee")
    dao = "account.fixed.buyback_fees_accrued_current"
    X("book::apply_fees", [([V("quote_lots") >= 0, tf >= 0], {"market.fees_accrued": V("market.fees_accrued") + tf + mf, P + ".taker_volume": V(P + ".taker_volume") + fn("floor", tf)},
                            [("accrue_buyback_fees", ("account.fixed", fn("floor", vmax(0, tf + vmin(0, mf))))), ("record_trading_fee", (P, tf))], tf)],
      opaque=("perp_position_mut",), framed=("perp_position_mut", "record_trading_fee", "accrue_buyback_fees"), watch=("record_trading_fee", "accrue_buyback_fees"))
    pen = V("market.fee_penalty")
    X("book::apply_penalty", [([], {"market.fees_accrued": V("market.fees_accrued") + pen}, [("accrue_buyback_fees", ("account.fixed", fn("floor", pen))), ("record_trading_fee", (P, pen))], pen)],
      opaque=("perp_position_mut",), framed=("perp_position_mut", "record_trading_fee", "accrue_buyback_fees"), watch=("record_trading_fee", "accrue_buyback_fees"))


def named(c, f, want):
    """The fields of the record a constructor returns."""
    import logic
    p = c.find_fn(f)
    r, outs, old, new = logic.formula(c, p, indexed=True)
    w = c.where(p)
    for l, rv, st in outs:
        v = logic.inner(rv)
        if v.op != "agg" or not v.args[1]:
            c.bad("record:" + f, "%s returns %s" % (f, r.D(v)[:200]), w)
            continue
        got = dict(zip(v.args[1], (r.D(x) for x in v.args[2])))
        for k, x in want.items():
            c.need(got.get(k) == x, "record:%s.%s" % (f, k), "%s sets %s to %s, expected %s" % (f, k, got.get(k), x), w)
    c.need(outs, "record:" + f, "%s returns nothing" % f, w)


def check(c):
    n = new_order(c)
    pieces(c)
    c.floor("obligations", n or 0, 8)
