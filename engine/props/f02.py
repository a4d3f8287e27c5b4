"""Accounting of perp orders, fills and cancels on the accounts that own them."""
import re
from ctx import *
import alg, amounts, matching, models
from terms import T

META = dict(
    title="Every perp order, fill and cancel is accounted for exactly once on its owner",
    statement="Placing an order adds its lots to the owner's open bids or asks and writes market, side, tree, order id, client id and quantity to the order's slot. Each queued fill event is executed exactly once, on the accounts whose keys the event names: "
              "the maker's position trades the fill's base lots and quote lots (bids buy, asks sell; price * quantity) against the side opposite the taker's, pays |quote| * maker fee, lowers its open lots on that side by the filled lots, and its slot's quantity "
              "by the same (not below zero; cleared when the event says the order is used up) only if the slot still holds that order for this market; the taker's position trades the same amounts the other way and its in-flight lots go down by exactly these. "
              "An out event lowers the owner's open lots by the event's quantity and clears the slot only if it still holds that order. perp_consume_events pops an event exactly when it executed it (in testing groups also when an account is no longer the "
              "program's), and stops, keeping the event, when an account is missing. Cancelling removes the account's own order of that slot from the book, frees exactly the lots that were on the book (none when it was already gone), and clears the slot; an order "
              "owned by another account or slot is refused; cancel-all cancels every active order of the market on the requested side, up to the limit. The event queue is first in, first out and never overwrites an unread event.",
    q=(["inputs", "histories"], "Every account, market, book, event and event queue content, whatever order places, cancels and consumes are interleaved in."),
    files=["programs/mango-v4/src/state/mango_account.rs", "programs/mango-v4/src/state/mango_account_components.rs", "programs/mango-v4/src/state/orderbook/queue.rs", "programs/mango-v4/src/state/orderbook/book.rs",
           "programs/mango-v4/src/instructions/perp_consume_events.rs"],
    mechanism=[("add_perp_order, remove_perp_order, execute_perp_maker, execute_perp_taker, execute_perp_out_event", "state/mango_account.rs"), ("perp_consume_events", "instructions/perp_consume_events.rs"),
               ("Orderbook::cancel_order_by_slot, cancel_order_by_id, cancel_all_orders", "state/orderbook/book.rs"), ("EventQueue", "state/orderbook/queue.rs")],
    technique="complete effect tables of the accounting functions and per-iteration summaries of the consume and cancel loops over MIR dataflow")
LEVEL = "other"
RULE = ("Every successful exit of the accounting functions must change exactly the defined places to the defined values and make exactly the defined calls; every iteration of the consume and cancel loops must be one of the defined "
        "transitions, on accounts whose keys are known to be the ones the event names.")

ACC = "DynamicAccount<Header, Fixed, Dynamic>>::"
FRAMED = set("""perp_position_mut perp_order_mut_by_raw_index perp_order_by_raw_index record_trade settle_funding record_trading_fee expire_buyback_fees accrue_buyback_fees adjust_maker_lots base_quote_change taker_side invert_side
is_active_for_market maker_out clear remove_taker_trade fixed_mut""".split())
CALLS = "record_trade settle_funding record_trading_fee expire_buyback_fees accrue_buyback_fees adjust_maker_lots clear remove_taker_trade".split()


def tables(c):
    import exact, logic
    V, fn, vmax = logic.V, logic.fn, logic.vmax
    X = lambda f, want, **kw: exact.check(c, c.find_fn(f), want, **kw)
    one = lambda eff, calls=None: [((), eff, calls)]
    eq0 = lambda x: V(x).eq(V(0))

    A = lambda f, want, **kw: exact.check(c, c.find_fn(ACC + f), want, framed=FRAMED, watch=CALLS, **kw)
    P = "perp_position_mut(self, perp_market_index)"
    OO = "perp_order_mut_by_raw_index(self, order.owner_slot)"
    rows = []
    for s, sn in enumerate(("Bid", "Ask")):
        for t, tn in enumerate(("Fixed", "OraclePegged")):
            rows.append(((disc("side", s), disc("order_tree", t)), {OO + ".market": V("perp_market_index"), OO + ".side_and_tree": "%s%s{}" % (sn, tn), OO + ".id": V("order.key"), OO + ".client_id": V("order.client_order_id"),
                                                                  OO + ".quantity": V("order.quantity")}, [("adjust_maker_lots", (P, "side", V("order.quantity")))]))
    A("add_perp_order", rows)

    oo = "perp_order_by_raw_index(self, slot)"
    p = "perp_position_mut(self, %s.market)" % oo
    A("remove_perp_order", [((V(oo + ".side_and_tree").eq(V(k)), V(oo + ".market").ne(V(65535))), {}, [("adjust_maker_lots", (p, side, -V("quantity"))), ("clear", ("perp_order_mut_by_raw_index(self, slot)",))])
                            for k, side in ((0, "Bid{}"), (1, "Ask{}"), (2, "Bid{}"), (3, "Ask{}"))])

    OO = "perp_order_mut_by_raw_index(self, slot)"
    act, same, old = logic.txt("is_active_for_market(%s, perp_market_index)" % OO), V("order_id").eq(V(OO + ".id")), eq0("order_id")
    neg = lambda l: (l[0], not l[1])
    less = [("adjust_maker_lots", (P, "side", -V("quantity")))]
    clear = lambda o: [("clear", (o,))]
    A("execute_perp_out_event", [((act, old), {}, less + clear(OO)), ((act, neg(old), same), {}, less + clear(OO)), ((neg(act),), {}, less), ((act, neg(old), neg(same)), {}, less)])

    base, quote = ("base_quote_change(fill, %s)." % "taker_side(fill)" + x for x in "01")
    lot = V("perp_market.quote_lot_size")
    A("execute_perp_taker", [((), {P + ".taker_volume": V(P + ".taker_volume") + fn("abs", V(quote) * lot)}, [("settle_funding", (P, "perp_market")), ("remove_taker_trade", (P, V(base), V(quote))), ("record_trade", (P, "perp_market", V(base), V(quote) * lot))],
                              None)])

    side = "invert_side(taker_side(fill))"
    base, quote = ("base_quote_change(fill, %s)." % side + x for x in "01")
    native = V(quote) * lot
    fees = fn("abs", native) * V("fill.maker_fee")
    OO = "perp_order_mut_by_raw_index(self, fill.maker_slot)"
    act, same, old, out = logic.txt("is_active_for_market(%s, perp_market_index)" % OO), V("fill.maker_order_id").eq(V(OO + ".id")), eq0("fill.maker_order_id"), logic.txt("maker_out(fill)")
    rows = []
    for pay in ((fees > V(0)), neg(fees > V(0))):
        calls = [("settle_funding", (P, "perp_market")), ("record_trading_fee", (P, fees)), ("record_trade", (P, "perp_market", V(base), native)), ("adjust_maker_lots", (P, side, -fn("abs", V(base))))]
        if pay[1]:
            calls += [("expire_buyback_fees", (None, None, "group.buyback_fees_expiry_interval")), ("accrue_buyback_fees", (None, None))]
        vol = {P + ".maker_volume": V(P + ".maker_volume") + fn("abs", native)}
        less = dict(vol, **{OO + ".quantity": vmax(V(OO + ".quantity") - fn("abs", V(base)), V(0))})
        for own in ((act, old), (act, neg(old), same)):
            rows += [((pay, out) + own, less, calls + clear(OO)), ((pay, neg(out)) + own, less, calls)]
        rows += [((pay, neg(act)), vol, calls), ((pay, act, neg(old), neg(same)), vol, calls)]
    A("execute_perp_maker", rows)

    # what these calls do
    P = "PerpPosition::"
    F = lambda f, want, **kw: X(f, want, ok=lambda rv: not is_err(rv), **kw)
    bid, ask = (disc("side", 0),), (disc("side", 1),)
    add = lambda f, x: {"self." + f: V("self." + f) + x}
    F(P + "adjust_maker_lots", [(bid, add("bids_base_lots", V("base_lots"))), (ask, add("asks_base_lots", V("base_lots")))])
    F(P + "add_taker_trade", [(bid, dict(add("taker_base_lots", V("base_lots")), **add("taker_quote_lots", -V("quote_lots")))), (ask, dict(add("taker_base_lots", -V("base_lots")), **add("taker_quote_lots", V("quote_lots"))))])
    F(P + "remove_taker_trade", one(dict(add("taker_base_lots", -V("base_change")), **add("taker_quote_lots", -V("quote_change")))))
    F("PerpOpenOrder::clear", one({"self.market": V(65535), "self.side_and_tree": "BidFixed{}", "self.id": V(0), "self.client_id": V(0), "self.quantity": V(0)}))
    exact.holds(c, c.find_fn("PerpOpenOrder::is_active_for_market"), [[V("self.market").eq(V("perp_market_index"))]])
    exact.holds(c, c.find_fn("FillEvent::maker_out"), [[V("self.maker_out").eq(V(1))]])
    for f, k, r in (("FillEvent::taker_side", "fill", "self.taker_side"), ("OutEvent::side", "out", "self.side")):
        p = c.find_fn(f)
        rr, an, outs = exact.check(c, p, [((), {})], ok=lambda rv: not is_err(rv))
        c.need(all(alg.text(rr.x.poly(rv)) == r or re.search(r"\b%s\)$" % re.escape(r), rr.D(rv)) for s, rv in outs), "event-side:" + k, "%s gives %s" % (f, [rr.D(rv)[:100] for s, rv in outs]), c.where(p))
    p = c.find_fn("FillEvent::base_quote_change")
    rr, an, outs = exact.check(c, p, [(bid, {}), (ask, {})], ok=lambda rv: True)
    for s, rv in outs:
        sgn = 1 if disc("side", 0) in amounts.lits(s.marks) else -1
        v = [rr.x.poly(x) for x in rv.args[2]] if rv.op == "agg" else []
        c.need(len(v) == 2 and v[0] == (V("self.quantity") * sgn).p and v[1] == (V("self.quantity") * V("self.price") * -sgn).p, "fill-amounts",
               lambda: "a fill changes (base, quote) by %s for %s" % ([alg.text(x) for x in v], "bids" if sgn > 0 else "asks"), c.where(p))

    # the event queue
    Q = "EventQueue::"
    n, h, cnt = "len(self.buf)", "self.header.head", "self.header.count"
    full, empty = V(cnt).eq(V(n)), V(cnt).eq(V(0))
    F(Q + "pop_front", [((neg(empty),), {cnt: V(cnt) - V(1), h: fn("Rem", V(h) + V(1), V(n))}, None, "Ok{self.buf[self.header.head]}")])
    F(Q + "peek_front", [((empty,), {}, None, "None{}"), ((neg(empty),), {}, None, "Some{self.buf[self.header.head]}")])
    q = c.find_fn(Q + "push_back")
    r = exact.rule(c, (), ())
    an, outs = r.run_fn(c, q)
    got = [exact.changes(an, r, s) for s, rv in outs if not is_err(rv)]
    slots = {k for g in got for k in g if k.startswith("self.buf[")}
    good = {"self.buf[((%s + %s) Rem %s)]" % (a, b, n) for a, b in ((h, cnt), (cnt, h))}
    c.need(got and slots <= good and len(slots) == 1, "queue-slot", "push_back writes %s" % sorted(slots), c.where(q))
    for s_ in slots:
        F(Q + "push_back", [((neg(full),), {s_: V("value"), cnt: V(cnt) + V(1), "self.header.seq_num": V("self.header.seq_num") + V(1)})])


def disc(x, n):
    """The literal the rules use for `x is its nth variant` """
    import logic
    return logic.txt("disc %s == %d" % (x, n))


def same(a, b):
    import logic
    return logic.V(a).eq(logic.V(b))


OPQ = set("execute_perp_maker execute_perp_taker execute_perp_out_event peek_front pop_front is_testing side emit_stack emit_perp_balances perp_position load_full_mut".split())
EXEC = ("execute_perp_maker", "execute_perp_taker", "execute_perp_out_event", "pop_front")


def consume(c):
    import logic
    path = c.find_fn("perp_consume_events::perp_consume_events")
    w = c.where(path)

    class Desc(matching.PDesc):
        def path(self, path):
            out = ""
            for p in path:
                if isinstance(p, T.__class__) or hasattr(p, "op"):
                    if p.op == "idx" and p.args[0].op == "each":
                        out += "[acc%d]" % self.rule.acc(p.args[0].args[0])
                    continue
                out += matching.PDesc.path(self, (p,))
            return out

        def go(self, t, d):
            if t.op == "item" and len(t.args) > 1:
                return "acc%d" % self.rule.acc(t.args[1])
            if t.op == "fld" and hasattr(t.args[1], "op") and t.args[1].op == "idx":
                return self(t.args[0], d + 1) + self.path((t.args[1],))
            return matching.PDesc.go(self, t, d)

    class Rule(matching.LoopCalls):
        pre = ("state::orderbook", "<state::orderbook", "logs::")

        def __init__(self, before):
            matching.LoopCalls.__init__(self, c.prog, OPQ, OPQ - {"pop_front"}, keep=("acc", "is_testing", "event_type", "maker", "peek_front"), watch=EXEC, before=before)
            self.D = Desc(self)
            self.x = alg.Alg(self.D)
            self.x.prog = c.prog
            self.accs = {}

        def acc(self, site):
            return self.accs.setdefault(site, len(self.accs))

        def on_find(self, an, fr, st, it, f, b):
            s = T("site", fr.fid, b)
            out = []
            for s1, v in models.elements(an, fr, st.copy(), it, s):
                if v is None:
                    continue
                cell = T("cell", "fnd%d" % fr.fid, s)
                s1.mem[cell] = {(): v}
                for s2, y in (an.call_value(fr, s1, f, [T("ref", cell, (), 0)], ("each", b)) or ()):
                    out += [(s3, v) for s3 in ([s2] if y.op == "int" and y.args[0] else [] if y.op == "int" else an.branch_states(s2.copy(), fr, y, True))]
            return out
    r, an, outs = matching.loop_calls(c, path, Rule)
    plain = lambda s: s.replace("'", "")
    accs = lambda s: set(re.findall(r"([\w.]*\[acc\d+\])", s))
    shape, n, seen = {}, 0, set()
    for vs, m in {(x[0], x[1]) for ts in r.turns.values() for x in ts}:
        L = {(l[0] if l[0][0] != "txt" else ("txt", plain(l[0][1])), l[1]) for l in amounts.lits(m)}
        # a result and what it holds read alike: Ok of the second variant is "== 0" and "== 1"
        if any(l[0][0] == "txt" and l[1] and re.search(r"event_type\)* == [12]$", l[0][1]) for l in L):
            L = {l for l in L if not (l[0][0] == "txt" and re.search(r"event_type\)* == 0$", l[0][1]))}
        if logic.refuted(frozenset(L)):
            continue
        n += 1
        say = lambda: "%s, where %s" % ("; ".join("%s(%s)" % (x[1], ", ".join(a[:120] for a in x[2])) for x in sorted(m, key=str) if x[0] == "did" and len(x) > 3)[:700], logic.show_dnf(r, [frozenset(L)])[:600])
        calls = {}
        for x in m:
            if x[0] == "did" and len(x) > 3:
                calls.setdefault(x[1], []).append(tuple(plain(a) for a in x[2]))
        text = {(plain(alg.text(dict(l[0][1]))) if l[0][0] in ("eq", "gt") else l[0][1], l[1], l[0][0]) for l in L}

        eqs = {frozenset(x.strip().lstrip("-") for x in t.split(" + ")) for t, pos, op in text if op == "eq" and pos}

        def key_is(acc, what):
            """The account is the one the event names."""
            return any(frozenset((k + ".key", what)) in eqs for k in accs(acc))
        E = None
        if "execute_perp_maker" in calls:
            E = calls["execute_perp_maker"][0][3]
        elif "execute_perp_out_event" in calls:
            E = re.sub(r"\.owner_slot$", "", calls["execute_perp_out_event"][0][3])
        c.need(E is None or re.search(r"\bpeek_front\(ctx\.accounts\.event_queue\)", E), "event", lambda: "what is executed is not the event at the front of the queue: " + say(), w)
        base = ("ctx.accounts.perp_market.perp_market_index", "ctx.accounts.perp_market")
        pops = len(calls.get("pop_front", ()))
        c.need(pops == 1 and calls["pop_front"][0] == ("ctx.accounts.event_queue",), "pop-once", lambda: "an event is popped %d times: %s" % (pops, say()), w)
        c.need(all(len(calls[f]) == 1 for f in calls), "execute-once", lambda: "an event is executed more than once: " + say(), w)
        kinds = {f for f in calls if f != "pop_front"}
        is_out = any(pos and op not in ("eq", "gt") and re.search(r"event_type\)* == 1\b", t) for t, pos, op in text)
        is_liq = any(pos and op not in ("eq", "gt") and re.search(r"event_type\)* == 2\b", t) for t, pos, op in text) or \
            (not kinds and any(not pos and re.search(r"event_type\)* == 1\b", t) for t, pos, op in text) and not is_out and not any("[acc" in t for t, pos, op in text))
        if kinds == {"execute_perp_maker", "execute_perp_taker"}:
            seen.add("fill")
            (a, b) = (calls[f][0] for f in EXEC[:2])
            c.need(a[1:] == base + (E, "ctx.accounts.group") and b[1:] == base + (E,), "fill-args", lambda: "a fill is executed as %s" % say(), w)
            own = frozenset((E + ".maker", E + ".taker")) in eqs
            c.need(key_is(a[0], E + ".maker"), "fill-maker", lambda: "the maker's part of a fill runs on an account that is not known to be the fill's maker: " + say(), w)
            c.need(key_is(b[0], E + ".taker") or own and key_is(b[0], E + ".maker"), "fill-taker", lambda: "the taker's part of a fill runs on an account that is not known to be the fill's taker: " + say(), w)
            c.need(not is_out and not is_liq, "fill-type", lambda: "an event of another type is executed as a fill: " + say(), w)
        elif kinds == {"execute_perp_out_event"}:
            seen.add("out")
            a = calls["execute_perp_out_event"][0]
            c.need(a[1:] == (base[0], "side(%s)" % E) + tuple("%s.%s" % (E, f) for f in ("owner_slot", "quantity", "order_id")), "out-args", lambda: "an out event is executed as %s" % say(), w)
            c.need(key_is(a[0], E + ".owner"), "out-owner", lambda: "an out event runs on an account that is not known to be its owner: " + say(), w)
            c.need(is_out, "out-type", lambda: "an event of another type is executed as an out event: " + say(), w)
        elif not kinds:
            testing = any(pos and t == "is_testing(ctx.accounts.group)" for t, pos, op in text)
            foreign = any(not pos and op == "eq" and re.search(r"\[acc\d+\]\.owner\b", t) for t, pos, op in text)
            if testing and foreign:
                seen.add("skip")
            c.need(testing and foreign or is_liq, "dropped", lambda: "an event is popped without being executed: " + say(), w)
        else:
            c.bad("partial", "only part of an event is executed: " + say(), w)
    c.floor("ways an event is consumed", n, 4)
    c.need({"fill", "out"} <= seen, "consume-kinds", "perp_consume_events only handles %s" % sorted(seen), w)
    for s, rv in outs:
        if is_err(rv):
            continue
        d = sorted({x[1] for x in s.marks if x[0] == "did"})
        c.need(not d, "stopped-midway", lambda: "perp_consume_events ends successfully in the middle of an event, after %s" % ", ".join(d), w)


def cancel(c):
    import exact, logic
    V = logic.V
    fr = ("is_active_for_market", "remove_by_key", "bookside_mut", "remove_perp_order", "perp_order_by_raw_index", "side", "order_tree", "side_and_tree")
    oo = "perp_order_by_raw_index(mango_account, slot)"
    R = "remove_by_key(bookside_mut(self, side(side_and_tree(%s))), order_tree(side_and_tree(%s)), %s.id)" % (oo, oo, oo)
    rm = ("remove_by_key", tuple(re.match(r"remove_by_key\((bookside_mut\(.*\)\)\)), (order_tree.*\)\)), (.*\.id)\)$", R).groups()))
    found = logic.txt("disc %s == 1" % R)
    act = logic.txt("is_active_for_market(%s, perp_market_index)" % oo)
    neg = lambda l: (l[0], not l[1])
    exact.check(c, c.find_fn("Orderbook::<'a>::cancel_order_by_slot"), [
        ((act, found, V(R + ".owner_slot").eq(V("slot")), V(R + ".owner").eq(V("mango_account_pk"))), {}, [rm, ("remove_perp_order", ("mango_account", "slot", V(R + ".quantity")))]),
        ((act, neg(found), V(oo + ".quantity").ne(V(0))), {}, [rm, ("remove_perp_order", ("mango_account", "slot", V(0)))])], framed=fr, watch=("remove_by_key", "remove_perp_order"), tag="cancel_order_by_slot")
    check_known(c, "Orderbook::<'a>::cancel_order_by_slot", fr, "remove_perp_order", lambda l, a: act in l and (found in l and V(R + ".owner").eq(V("mango_account_pk")) in l and V(R + ".owner_slot").eq(V("slot")) in l
                                                                                                         or neg(found) in l and V(oo + ".quantity").ne(V(0)) in l), "cancel-guards")
    R = "remove_by_key(bookside_mut(self, side(side_and_tree)), order_tree(side_and_tree), order_id)"
    rm = ("remove_by_key", ("bookside_mut(self, side(side_and_tree))", "order_tree(side_and_tree)", "order_id"))
    given = logic.txt("disc expected_owner == 1")
    exact.check(c, c.find_fn("Orderbook::<'a>::cancel_order_by_id"), [((), {}, [rm, ("remove_perp_order", ("mango_account", R + ".owner_slot", V(R + ".quantity")))])], framed=fr, watch=("remove_by_key", "remove_perp_order"), tag="cancel_order_by_id")
    check_known(c, "Orderbook::<'a>::cancel_order_by_id", fr, "remove_perp_order", lambda l, a: neg(given) in l or V(R + ".owner").eq(V("expected_owner")) in l, "cancel-owner")

    # cancel-all
    path = c.find_fn("Orderbook::<'a>::cancel_all_orders")
    w = c.where(path)
    ops = ("cancel_order_by_slot", "perp_order_by_raw_index", "is_active_for_market", "side", "side_and_tree")
    r, an, outs = matching.loop_calls(c, path, lambda b: matching.LoopCalls(c.prog, ops, ops, keep=("disc ", "phi", "is_active", "side", "error_code"), watch=("cancel_order_by_slot",), before=b))
    each = r"each\(site\(\), Range\{0, mango_account\.header\.perp_oo_count\}\)"
    atom = lambda m: {(x[1][0][1] if x[1][0][0] == "txt" else alg.text(dict(x[1][0][1])), x[1][1], x[1][0][0]) for x in m if x[0] == "lit"}
    n = done = 0
    steps = [(m, False) for ts in r.turns.values() for vs, m in ts] + [(s.marks, True) for s, rv in outs if not is_err(rv) and any(x[0] in ("lit", "did") for x in s.marks)]
    for m, last in steps:
        ts = atom(m)
        say = lambda: "; ".join("%s%s" % ("" if p else "not ", t) for t, p, o in sorted(ts))[:700]
        calls = [x[2] for x in m if x[0] == "did" and len(x) > 3]
        active = any(p and t.startswith("is_active_for_market(perp_order_by_raw_index(") and t.endswith(", perp_market.perp_market_index)") for t, p, o in ts)
        inactive = any(not p and t.startswith("is_active_for_market(perp_order_by_raw_index(") for t, p, o in ts)
        asked = any(p and t == "disc side_to_cancel_option == 1" for t, p, o in ts)
        sides = [p for t, p, o in ts if re.search(r"disc side_to_cancel_option(\.Some\.0)? == disc\(side\(side_and_tree\(perp_order", t) or re.search(r"disc side\(side_and_tree\(perp_order.* == disc\(side_to_cancel_option", t)]
        n += 1
        if calls:
            done += 1
            a = calls[0]
            c.need(len(calls) == 1 and a[1:3] == ("mango_account", "mango_account_pk") and re.match("^%s$" % each, a[3]) and a[4] == "perp_market.perp_market_index", "cancel-all-args", lambda: "cancel_all_orders cancels %s" % (calls,), w)
            c.need(active and (not asked or sides == [True]), "cancel-all-which", lambda: "cancel_all_orders cancels an order of another market or side: " + say(), w)
            c.need(any(p and (re.match(r"disc cancel_order_by_slot\(.*\) == 0$", t) or o == "eq" and "PerpOrderIdNotFound" in t and "error_code" in t) for t, p, o in ts), "cancel-all-error",
                   lambda: "cancel_all_orders goes on although an order could not be cancelled: " + say(), w)
            if last:
                c.need(any(p and o == "eq" and re.match(r"^(-phi#\d+ \+ 1|-1 \+ phi#\d+|1 \+ -phi#\d+)$", t) for t, p, o in ts), "cancel-all-stop", lambda: "cancel_all_orders stops early: " + say(), w)
        elif not last or ts:
            c.need(not last and (inactive or asked and sides == [False]), "cancel-all-skips", lambda: "cancel_all_orders leaves an order out: " + say(), w)
    c.floor("ways cancel-all treats an order", n, 4)
    c.need(done, "cancel-all", "cancel_all_orders cancels nothing", w)
    turns = {r.D(v) for ts in r.turns.values() for vs, m in ts for p, v in vs if re.match(r"^\(phi#\d+ - 1\)$", r.D(v))}
    c.need(turns and any(r.D(v) == "limit" for p, vs in r.start.items() for v, m in vs), "cancel-all-limit", "cancel_all_orders does not count down its limit", w)


def check_known(c, fname, fr, f, good, key):
    import exact, logic
    p = c.find_fn(fname)
    r = exact.rule(c, (), fr, watch=(f,))
    an, outs = r.run_fn(c, p)
    for d, ps, m in r.calls.get(f, ()):
        l = amounts.lits(m)
        if not logic.refuted(l):
            c.need(good(l, d), key, lambda: "%s calls %s where %s" % (p.split("::")[-1], f, logic.show_dnf(r, [l])[:500]), c.where(p))
    c.need(r.calls.get(f), key, "%s never calls %s" % (p.split("::")[-1], f), c.where(p))


def check(c):
    tables(c)
    consume(c)
    cancel(c)
