"""Health regions: what may happen between begin and end, and that the region is closed in the same transaction."""
import re
from ctx import *
import txscan

META = dict(
    title="Health regions end in their own transaction and hold only order instructions",
    statement="HealthRegionBegin succeeds only as a top-level mango instruction, for an account that is not already in a region, and only when the transaction continues, without gap, with mango instructions from the fixed list of order placing, order cancelling and spot settlement instructions up to a HealthRegionEnd for the same account. It then marks the account as in a region. HealthRegionEnd succeeds only for a marked account and clears the mark. No other instruction can change the mark.",
    q=(["inputs", "histories"], "Every transaction content (any number, order and arguments of instructions), every account state."),
    files=["programs/mango-v4/src/instructions/health_region.rs", "programs/mango-v4/src/state/mango_account.rs"],
    mechanism=[("health_region_begin, health_region_end", "instructions/health_region.rs"), ("in_health_region", "state/mango_account.rs")],
    technique="loop dataflow over MIR: facts established per scanned instruction; write confinement")
LEVEL = "proof"
RULE = ("The scan loop is interpreted over MIR to a fixpoint with the branch facts about the instruction loaded last; every completed round must contain the program and allow-list facts, every Ok exit the end "
        "discriminator, account and program facts; indices are proved contiguous from current+1 by affine reasoning; writes of in_health_region are enumerated over the whole program.")

ALLOWED = {"PerpCancelAllOrders", "PerpCancelAllOrdersBySide", "PerpCancelOrder", "PerpCancelOrderByClientOrderId", "PerpPlaceOrder", "PerpPlaceOrderV2", "PerpPlaceOrderPegged",
           "PerpPlaceOrderPeggedV2", "Serum3CancelAllOrders", "Serum3CancelOrder", "Serum3PlaceOrder", "Serum3PlaceOrderV2", "Serum3SettleFunds", "Serum3SettleFundsV2",
           # cancelling only
           "Serum3CancelOrderByClientOrderId"}
FLAG = ("in_health_region",)

def listed(fact):
    """The instructions a fact admits."""
    m = re.match(r"^contains\(arr\{((?:discr\(\w+\)(?:, )?)+)\}, ix\.data8\)$", fact) or re.match(r"^arr\{((?:discr\(\w+\)(?:, )?)+)\}\[each\] == ix\.data8$", fact) or \
        re.match(r"^ix\.data8 == arr\{((?:discr\(\w+\)(?:, )?)+)\}\[each\]$", fact)
    if m:
        return set(re.findall(r"discr\((\w+)\)", m.group(1)))
    m = re.match(r"^(?:discr\((\w+)\) == ix\.data8|ix\.data8 == discr\((\w+)\))$", fact)
    return {m.group(1) or m.group(2)} if m else None


def flag(an, s, acct="account"):
    """(value of the mark at the end, facts about it at the start)"""
    root = T("obj", T("data", T("acct", acct)))
    v = an.read(s, (root, FLAG))
    return v.args[0] if v.op == "int" else None


def initially(s, want):
    """Is the mark known to have been set / clear at the start?"""
    for k, v in s.facts.items():
        if v[0] == "is" and k.op == "eq":
            for x, y in (k.args, k.args[::-1]):
                if nf(x) == data("account", *FLAG) and x.args[2] is None and y.op == "int":
                    # the mark is zero or one (write confinement)
                    if y.args[0] in (0, 1) and ((y.args[0] == 1) == v[1]) == want:
                        return True
    return False


def begin(c):
    ix = "health_region_begin"
    r = txscan.TxRule(c.prog)
    an, oks = run_entry(c.prog, ix, r)
    c.floor("begin exits", len(oks), 1)
    c.floor("scan loads", len(r.loads), 2)
    w = "instruction " + ix
    for m in r.rounds:
        m = {x for x in m if isinstance(x, str)}
        c.need("ix.program_id == self" in m, "round:program", "%s lets an instruction of another program stand inside the region (an accepted one is only known to satisfy %s)" % (ix, sorted(m)), w)
        ls = [x for x in map(listed, m) if x]
        got = set.intersection(*ls) if ls else None
        if got is None:
            c.bad("round:list", "%s accepts an inner instruction without testing its kind (known: %s)" % (ix, sorted(m)), w)
        else:
            for k in sorted(got - ALLOWED):
                c.bad("round:allowed:" + k, "%s allows %s inside a health region" % (ix, k), w)
            if got <= ALLOWED:
                c.ok("round:allowed")
    c.floor("scan rounds", len(r.rounds), 1)
    gap = r.contiguous()
    c.need(gap is None, "contiguous", "%s does not look at every instruction after the current one (%s)" % (ix, gap), w)
    for last, first in r.exits(oks):
        l = {x for x in last if isinstance(x, str)}
        c.need(bool({"discr(HealthRegionEnd) == ix.data8", "ix.data8 == discr(HealthRegionEnd)"} & l), "exit:end", "%s can succeed without a HealthRegionEnd after it (last instruction seen: %s)" % (ix, sorted(l)), w)
        c.need(bool({"ix.accounts[0].pubkey == key(account)", "key(account) == ix.accounts[0].pubkey"} & l), "exit:account", "%s accepts a HealthRegionEnd of another account (%s)" % (ix, sorted(l)), w)
        c.need("ix.program_id == self" in l, "exit:program", "%s accepts an end instruction of another program (%s)" % (ix, sorted(l)), w)
        c.need("ix.program_id == self" in first, "top-level", "%s does not require to be a top-level instruction (%s)" % (ix, sorted(map(str, first))), w)
    for s, _ in oks:
        c.need(initially(s, False), "begin:nested", "%s can succeed for an account that is already in a region" % ix, w)
        c.need(flag(an, s) == 1, "begin:mark", "%s can succeed without marking the account" % ix, w)


def end(c):
    ix = "health_region_end"
    r = InlineRule(c.prog)
    an, oks = run_entry(c.prog, ix, r)
    c.floor("end exits", len(oks), 1)
    w = "instruction " + ix
    for s, _ in oks:
        c.need(initially(s, True), "end:marked", "%s can succeed for an account that is not in a region" % ix, w)
        c.need(flag(an, s) == 0, "end:clear", "%s can succeed and leave the account marked" % ix, w)


def confined(c):
    """Only begin and end write the mark."""
    ws = changers(c.prog, FLAG)[FLAG[0]]
    c.floor("instructions that write the mark", len(ws), 2)
    for p in sorted(ws):
        c.need(p in ("health_region_begin", "health_region_end"), "writer:" + p, "instruction %s can change in_health_region" % p, "instruction " + p)


def check(c):
    begin(c)
    end(c)
    confined(c)
