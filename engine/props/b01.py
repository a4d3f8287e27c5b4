"""Every token or perp amount that leaves one place arrives in another."""
import re
import absint as A
import alg, ledger
from ctx import *

META = dict(
    title="No instruction creates or destroys value",
    statement="Within every instruction the amounts booked to accounts, fee pots and vaults cancel out exactly: a deposit credits what was transferred into the vault, a withdrawal, forced withdrawal or fee withdrawal debits what was paid out, liquidations, conditional swaps, fee buybacks and settlements credit one side with exactly what the other side and the fee pots lose, flash loans book the vault's change, spot order placement and settlement book the change of the vault balance, and perp base and quote changes of the two sides and the market's fees sum to zero. Only interest, socialized losses and funding change the sum, through the indexes.",
    q=(["inputs"], "Every amount, balance, price, fee rate and branch of every listed instruction."),
    files=["programs/mango-v4/src/instructions/token_deposit.rs", "programs/mango-v4/src/instructions/token_withdraw.rs", "programs/mango-v4/src/instructions/flash_loan.rs",
           "programs/mango-v4/src/instructions/token_liq_with_token.rs", "programs/mango-v4/src/instructions/perp_settle_pnl.rs", "programs/mango-v4/src/instructions/serum3_place_order.rs",
           "programs/mango-v4/src/instructions/token_conditional_swap_trigger.rs", "programs/mango-v4/src/instructions/perp_liq_base_or_positive_pnl.rs"],
    mechanism=[("bank.deposit / withdraw / checked_transfer call amounts", "state/bank.rs"), ("quote_position_native, base_position_lots updates", "state/mango_account_components.rs"),
               ("token::transfer amounts", "instructions/*.rs")],
    technique="double-entry value-flow analysis over MIR: amounts as symbolic terms, normalised as exact polynomials, summed per path")
LEVEL = "proof"
RULE = ("On every successful path and in every completed loop iteration of each instruction, the amount terms of bank position changes, fee-pot changes, vault transfers and perp position changes are summed "
        "per token class; the polynomial must vanish (or equal the listed remainder).  Every instruction that reaches a bank operation or a token transfer must be listed.")

INSTR = {}


def spec(ixs, vaults=(), split=(), rest=None, other=(), needs=()):
    """vaults: {account of a transfer: bank name | None for a place outside the books}; rest: {class: regex of the allowed remainder};
    other: [(kind, who regex, what, [(class, sign)])]; needs: kinds of events that must occur."""
    for ix in ixs.split():
        INSTR[ix] = dict(vaults=dict(vaults), split=list(split), rest=rest or {}, other=list(other), needs=needs)


USER = None
spec("token_deposit token_deposit_into_existing", {"token_account": USER, "vault": "bank"}, needs=("tok", "cpi"))
spec("token_withdraw", {"token_account": USER, "vault": "bank"}, needs=("tok", "cpi"))
spec("token_force_withdraw", {"owner_ata_token_account": USER, "alternate_owner_token_account": USER, "vault": "bank"}, needs=("tok", "cpi"))
spec("token_liq_with_token liq_token_with_token token_force_close_borrows_with_token", needs=("tok", "fee"))
spec("token_liq_bankruptcy liq_token_bankruptcy", {"insurance_vault": USER, "quote_vault": "@insurance"}, needs=("tok", "cpi"),
     other=[("tok", r"split_at\(accounts", None, [("S", 1)])], rest={"S": r"."})
spec("token_conditional_swap_trigger token_conditional_swap_trigger_v2", needs=("tok", "fee"))
spec("token_conditional_swap_start", needs=("tok",))
spec("token_charge_collateral_fees", needs=("tok", "fee"))
spec("account_buyback_fees_with_mngo", needs=("tok",))
spec("admin_token_withdraw_fees", {"token_account": USER, "vault": "bank"}, needs=("cpi", "fee"))
spec("admin_perp_withdraw_fees", {"token_account": USER, "vault": "perp"}, needs=("cpi", "fee"),
     other=[("fee", r"^perp_market$", "fees_withdrawn", [("T:perp", -1)])])
spec("group_withdraw_insurance_fund", {"insurance_vault": USER, "destination": USER}, needs=("cpi",))
spec("group_change_insurance_fund", {"insurance_vault": USER, "withdraw_destination": USER}, needs=("cpi",))
spec("token_deregister", other=[("cpi", r"^ai\(accounts\)$", None, [])], needs=("cpi",))
spec("token_conditional_swap_cancel")
spec("serum3_place_order serum3_place_order_v2", {"payer_vault": "payer_bank"}, needs=("tok", "vault"))
spec("serum3_settle_funds_v2 serum3_liq_force_cancel_orders", {"base_vault": "base_bank", "quote_vault": "quote_bank"}, needs=("tok", "vault", "fee"))
spec("flash_loan_begin flash_loan_swap_begin", other=[("cpi", ".", None, [("F", 1)]), ("approved", ".", None, [("F", -1)])], needs=("cpi", "approved"))
spec("flash_loan_end_v2", other=[("cpi", ".", None, [("C", -1)]), ("change", ".", None, [("C", 1)]), ("approved", ".", None, [])], needs=("cpi", "tok", "change", "fee"),
     rest={"C": r"^-[^ ]*\.flash_loan_approved_amount'?$", "T:accounts": r"^[^*+]*\.amount\)?$"})
spec("perp_settle_pnl", needs=("tok", "perp"))
spec("perp_settle_fees", needs=("tok", "perp", "fee"))
spec("perp_force_close_position", needs=("perp",))
spec("perp_liq_base_or_positive_pnl", split=["base_position_lots"], needs=("tok", "perp", "fee"))
spec("perp_liq_negative_pnl_or_bankruptcy_v2", {"insurance_vault": USER, "insurance_bank_vault": "@insurance"}, needs=("tok", "perp", "cpi", "loss"))
spec("token_update_index_and_rate token_update_index_and_rate_resilient", rest={"T:accounts": r"compute_index\("}, needs=("fee",))
# perp order matching has its own property
EXEMPT = {"perp_consume_events", "perp_place_order", "perp_place_order_v2", "perp_place_order_pegged", "perp_place_order_pegged_v2", "perp_cancel_order", "perp_cancel_order_by_client_order_id",
          "perp_cancel_all_orders", "perp_cancel_all_orders_by_side", "perp_liq_force_cancel_orders", "perp_deactivate_position", "perp_update_funding"}


def strip(n):
    return n[3:-1] if n.startswith("ai(") and n.endswith(")") else n


def names(n):
    n = strip(n)
    if n.startswith("alt(") and n.endswith(")"):
        return {strip(x) for x in n[4:-1].split("|")}
    return {n}


def classes(sp, evs, e):
    """[(class, sign)] of one event, or a string for an event the table does not know."""
    _, site, kind, who, what, amt = e
    for k, rx, w, cl in sp["other"]:
        if k == kind and re.search(rx, who) and (w is None or w == what):
            return cl
    banks = {x[3] for x in evs if x[2] == "tok" and not re.search(r"split_at\(", x[3])}

    def tk(b):
        if b == "@insurance":
            ins = [x for x in banks if x.startswith("bank(found(") or x == "insurance_bank"]
            if ins:
                return "T:" + ins[0]
            rest = sorted(x for x in banks)
            return "T:" + (rest[0] if len(rest) == 1 else "insurance")
        return "T:" + b
    if kind == "tok":
        return [("T:" + who, 1)]
    if kind == "fee":
        if what == "collected_fees_native":
            return [("T:" + who, 1)]
        if what == "fees_withdrawn":
            return [("T:" + who, -1)]
        if what == "fees_accrued":
            return [("Q", 1)]
        if what == "fees_settled":
            return [("T:settle_bank", 1)]
        if what == "open_interest":
            return []
    if kind == "perp":
        if what == "quote_position_native":
            return [("Q", 1)]
        if what == "base_position_lots":
            return [("B", 1)]
        return []
    if kind == "loss":
        return [("Q", 1)]
    if kind == "vault":
        v = sp["vaults"].get(who, "?")
        return [(tk(v), -1)] if v not in ("?", None) else "vault balance of `%s`" % who
    if kind == "cpi":
        out = []
        for n, sg in ((who, 1), (what, -1)):
            vs = {sp["vaults"].get(x, "?") for x in names(n)}
            if "?" in vs or len(vs) != 1:
                return "transfer between `%s` and `%s`" % (who, what)
            v = vs.pop()
            if v is not None:
                out.append((tk(v), sg))
        return out
    return "%s change of `%s`" % (kind, who)


def vanish(r, p, st):
    """p is zero, possibly after using an equality the path established."""
    if not p:
        return True
    if st is not None:
        for k, v in st.facts.items():
            if k.op == "eq" and v == ("is", True):
                q = alg.add(r.ex.poly(k.args[0]), alg.scale(r.ex.poly(k.args[1]), -1))
                if len(q) == 1 and len(list(q)[0]) == 1 and list(q)[0][0][1] == 1:
                    # the path established that a quantity is zero
                    z = list(q)[0][0][0]
                    if all(any(a == z and e > 0 for a, e in m) for m in p):
                        return True
                if q and (alg.add(p, q) == {} or alg.add(p, alg.scale(q, -1)) == {}):
                    return True
    return False


def show(r, p):
    return r.tx.show(conv(r, p))


def conv(r, p):
    out = {}
    for m, c in p.items():
        t = {(): c}
        for a, e in m:
            q = atom_poly(r, a)
            for _ in range(abs(e)):
                if e > 0:
                    t = alg.mul(t, q)
                else:
                    t = alg.mul(t, {((("(%s)" % alg.text(q)), -1),): 1}) if len(q) != 1 else alg.mul(t, {alg.inv(list(q)[0]): 1 / list(q.values())[0]})
        out = alg.add(out, t)
    return out


def atom_poly(r, a):
    if isinstance(a, Term):
        return r.tx.poly(a)
    if isinstance(a, tuple) and a and a[0] == "inv":
        return alg.var("(%s)" % alg.text(conv(r, dict(a[1]))))
    if isinstance(a, tuple):
        return alg.var((a[0], tuple(alg.key(conv(r, dict(x))) for x in a[1])))
    return alg.var(a)


def settle(r, sp, evs, st):
    """-> list of problems"""
    tot = {}
    out = []
    for e in evs:
        cl = classes(sp, evs, e)
        if isinstance(cl, str):
            out.append(("unknown", cl))
            continue
        for k, sg in cl:
            tot[k] = alg.add(tot.get(k, {}), alg.scale(r.ex.poly(e[5]), sg))
    for k, p in sorted(tot.items()):
        if vanish(r, p, st):
            continue
        txt = show(r, p)
        rx = sp["rest"].get(k)
        if rx and re.search(rx, txt):
            continue
        out.append((k, txt))
    return out


CLS = {"Q": "perp quote", "B": "perp base", "F": "flash loan", "C": "flash loan repayment", "S": "socialized loss"}


def check(c):
    P = c.prog

    def one(ix):
        amounts = set()
        for i in range(3):
            out, again = once(ix, amounts)
            # a path that took a payment's sign test both ways is not a path: keep those tests apart and look again
            if all(x[0] != "bad" for x in out) or again <= amounts:
                break
            amounts |= again
        return out

    def once(ix, amounts):
        sp = INSTR[ix]
        r = ledger.LedgerRule(P, ix)
        r.split = sp["split"]
        r.amounts = set(amounts)
        an, oks = run_entry(P, ix, r, 800000)
        again = set()
        out = [("cov", "paths", an.steps), ("cov", "instructions", 1)]
        if not oks:
            return out + [("bad", "live:" + ix, "%s has no successful exit" % ix, "")], again
        seen = set()
        probs = {}
        nev = 0
        for evs, st in [(ledger.events(s), s) for s, _ in oks] + [(sorted((x for x in e if x[0] == "ev"), key=lambda x: str(x[1:5])), None) for _, e in r.iters]:
            seen |= {e[2] for e in evs}
            nev += len(evs)
            again |= {y for e in evs for y in ledger.parts(e[5]) if y.op != "int"}
            for k, txt in settle(r, sp, evs, st):
                probs.setdefault(k, txt)
        out.append(("cov", "booked amounts", nev))
        for k in sp["needs"]:
            if k not in seen:
                probs.setdefault("anchor", "no %s event found (anchor lost)" % k)
        for k, txt in sorted(probs.items()):
            if k in ("unknown", "anchor"):
                out.append(("bad", "%s:%s" % (k, ix), "%s: %s" % (ix, txt), "instruction " + ix))
            else:
                out.append(("bad", "sum:%s:%s" % (ix, k), "%s: the %s amounts do not cancel, %s is left over" % (ix, CLS.get(k, "token " + k[2:]), txt[:400]), "instruction " + ix))
        if not probs:
            out.append(("ok", "sum:" + ix))
        return out, again
    c.pmap(one, sorted(INSTR))
    reach = booking(c)
    for ix in sorted(reach - set(INSTR) - EXEMPT):
        c.bad("unlisted:" + ix, "%s books or transfers tokens but is not in the table" % ix, "instruction " + ix)
    c.floor("instructions booking amounts", len(reach), 25)


def booking(c):
    """Instructions from which a bank operation or token transfer is reachable."""
    P = c.prog
    ops = {p for p in P.fns if p.startswith("state::bank::Bank::") and p.split("::")[-1] in ledger.BANKOPS and p.split("::")[-1] != "dust_if_possible"}
    hit = P.reaching(lambda k, n: k == "fn" and (n in ops or n.startswith("anchor_spl::token::transfer")))
    return {ix for ix in c.entries() if "__private::__global::" + ix in hit}
