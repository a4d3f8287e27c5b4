"""The bank's bookkeeping of one position change."""
from ctx import *
import alg, summ, guards, ledger
from terms import T, Term

META = dict(
    title="Bank deposits and withdrawals book exactly the requested amount",
    statement="For every bank and position state, a deposit raises and a withdrawal lowers the value of position, dust and fees together by exactly the requested native amount (up to rounding one fixed-point unit in the user's favour on deposits): positions above zero count in the bank's total deposits at the deposit index, positions below zero in its total borrows at the borrow index, and the totals change by exactly the position's change on each side of zero. A loan origination fee is charged only by the fee-charging operations, only on the newly borrowed part, at the bank's rate, and is collected by the bank. Leftovers below one native token are moved to dust, and the position reported inactive, only for positions that are not in use (or where the caller asks for dusting).",
    q=(["inputs"], "Every native amount, index, position balance (either sign), fee rate and in-use count."),
    files=["programs/mango-v4/src/state/bank.rs", "programs/mango-v4/src/state/mango_account_components.rs"],
    mechanism=[("Bank::deposit*, withdraw*, change*, withdraw_loan_origination_fee", "state/bank.rs"), ("TokenPosition::native, is_in_use", "state/mango_account_components.rs")],
    technique="path summaries over MIR; effects on bank and position normalised to exact polynomials and compared as identities")
LEVEL = "proof"
RULE = ("On every path of each bank operation: d(position) = d(indexed_deposits) - d(indexed_borrows); deposit_index*d(indexed_deposits) - borrow_index*d(indexed_borrows) + d(dust) + d(collected fees) = +-amount; "
        "each side of zero changes only by its own part; fees equal rate times the amount newly borrowed; dusting only below one token, with the in-use test, and reported as inactive.  Balance fields are written only inside Bank operations, and code outside Bank calls only the checked ones.")

B = "state::bank::Bank::"
# method: (amount argument, sign, fee charged on borrows, may dust positions in use)
OPS = {
    "deposit": ("native_amount", 1, False, False), "deposit_with_dusting": ("native_amount", 1, False, True),
    "withdraw_without_fee": ("native_amount", -1, False, False), "withdraw_without_fee_with_dusting": ("native_amount", -1, False, True),
    "withdraw_with_fee": ("native_amount", -1, True, False),
    "change_without_fee": ("native_amount", 1, False, False), "change_with_fee": ("native_amount", 1, True, False),
    "withdraw_loan_origination_fee": ("already_borrowed_native_amount", 0, False, False),
}
QUIET = ("update_net_borrows", "update_cumulative_interest", "native")
FIELDS = ("indexed_deposits", "indexed_borrows", "dust", "collected_fees_native")


class Path(object):
    def __init__(self, c, x, r, st, old, new, facts):
        self.x, self.st = x, st
        self.p = x.poly(old("position", "indexed_position"))
        self.di, self.bi = x.poly(old("self", "deposit_index")), x.poly(old("self", "borrow_index"))
        self.raw = {f: alg.add(x.poly(new(st, "self", f)), alg.scale(x.poly(old("self", f)), -1)) for f in FIELDS}
        self.raw["p1"] = x.poly(new(st, "position", "indexed_position"))
        self.gt, self.ge = [], []          # polynomials known > 0 and >= 0
        for k, v in st.facts.items():
            if k.op == "lt" and v in (("is", True), ("is", False)):
                d = alg.add(x.poly(k.args[1]), alg.scale(x.poly(k.args[0]), -1))
                if v[1]:
                    self.gt.append(d)
                else:
                    self.ge.append(alg.scale(d, -1))
        nat = {k: alg.mul(self.p, i) for k, i in (("d", self.di), ("b", self.bi))}
        self.nat = nat
        self.natoms = {a for q in list(self.raw.values()) + self.gt + self.ge for m in q for a, e in m if isinstance(a, Term) and a.op == "alt" and {alg.key(x.poly(y)) for y in a.args} == {alg.key(nat["d"]), alg.key(nat["b"])}}
        self.natoms |= {a for q in list(self.raw.values()) for m in q for t, e in m if isinstance(t, tuple) for y in t[1] for mm, cc in y for a, e2 in mm if isinstance(a, Term) and a.op == "alt"}
        self.sign = self.find_sign()

    def find_sign(self):
        forms = [self.p, self.nat["d"], self.nat["b"]] + [alg.var(a) for a in self.natoms]
        neg = {alg.key(alg.scale(f, -1)) for f in forms}
        pos = {alg.key(f) for f in forms}
        gt, ge = {alg.key(q) for q in self.gt}, {alg.key(q) for q in self.ge}
        s = set()
        if gt & neg:
            s.add("b")
        if gt & pos:
            s.add("d")
        if ge & pos and "b" not in s:
            s.add("d")
        if ge & neg and "d" not in s:
            s.add("b")
        return s.pop() if len(s) == 1 else "none" if not s else "both"

    def sub(self, q):
        """The balance on this path: deposit side or borrow side."""
        if self.sign not in ("b", "d"):
            return q
        out = {}
        for m, cf in q.items():
            t = {(): cf}
            for a, e in m:
                if a in self.natoms and e > 0:
                    f = self.nat[self.sign]
                elif isinstance(a, tuple) and a[0] == "max" and e == 1:
                    xs = sorted((alg.key(self.sub(dict(y))) for y in a[1]), key=str)
                    f = alg.var(("max", tuple(xs)))
                else:
                    f = {((a, 1 if e > 0 else -1),): 1}
                for _ in range(abs(e)):
                    t = alg.mul(t, f)
            out = alg.add(out, t)
        return out

    def unmax(self, q):
        """max(0, x) read as x: where a fully repaid position cannot be below zero but for rounding."""
        out = {}
        for m, cf in q.items():
            t = {(): cf}
            for a, e in m:
                f = {((a, e),): 1}
                if isinstance(a, tuple) and a[0] == "max" and e == 1 and () in a[1] and len(a[1]) == 2:
                    f = dict([y for y in a[1] if y != ()][0])
                t = alg.mul(t, f)
            out = alg.add(out, t)
        return out

    def known(self, q, strict=False):
        """q >= 0 (or > 0) follows from one fact, scaled by an index."""
        if not strict and (not q or self.x.isnn(q)):
            return True
        for k in ({(): 1}, self.di, self.bi):
            s = alg.key(alg.mul(q, k))
            if any(alg.key(self.sub(y)) == s for y in (self.gt if strict else self.gt + self.ge)):
                return True
        return False


def ident(c, fn, spec):
    arg, sg, fee, dusting = spec
    path = B + fn
    r, an, outs, old, new = summ.effects(c, path, quiet=QUIET)
    x = alg.Alg(r.D, exact=True, delta=True, nonneg={"deposit_index", "borrow_index", "loan_origination_fee_rate"})
    x.nn[T("arg", arg)] = not fn.startswith("change")
    res = []
    n = 0
    kinds = set()
    for atoms, rv, st in outs:
        if variant(rv) == "Err":
            continue
        n += 1
        P = Path(c, x, r, st, old, new, atoms)
        amt = x.poly(T("arg", arg))
        if P.sign == "both":
            continue                       # contradictory tests: not a path
        d = {f: P.sub(P.raw[f]) for f in FIELDS}
        p1 = P.sub(P.raw["p1"])
        dp = alg.add(p1, alg.scale(P.p, -1))

        def say(k, what):
            res.append((k, what + " [on the path where %s]" % " and ".join(sorted(a for a in atoms if len(a) < 120))[:400]))

        if alg.add(dp, alg.add(alg.scale(d["indexed_deposits"], -1), d["indexed_borrows"])):
            say("split", "the position changes by %s but the bank's totals by %s" % (pt(r, dp), pt(r, alg.add(d["indexed_deposits"], alg.scale(d["indexed_borrows"], -1)))))
        tot = alg.add(alg.add(alg.mul(P.di, d["indexed_deposits"]), alg.scale(alg.mul(P.bi, d["indexed_borrows"]), -1)), alg.add(d["dust"], d["collected_fees_native"]))
        rest = alg.add(tot, alg.scale(amt, -sg))
        if P.unmax(rest):
            say("value", "position, dust and fees change by %s instead of %s" % (pt(r, tot), pt(r, alg.scale(amt, sg))))
        # each side of zero
        dust = bool(d["dust"])
        q1, n1 = d["indexed_deposits"], d["indexed_borrows"]
        if P.sign == "b":
            ok = (not q1 and (not p1 or P.known(alg.scale(p1, -1)) or borrowpart(P, alg.scale(dp, -1)))) or (not alg.add(n1, alg.scale(P.p, -1)) and P.known(p1))
        elif P.sign == "d":
            ok = (not n1 and (not p1 or P.known(p1) or P.known(dp))) or (not alg.add(q1, P.p) and borrowpart(P, n1))
        else:
            ok = False
        if not ok:
            say("side", "the bank's totals do not follow the sign of the position")
        # fees
        f = d["collected_fees_native"]
        rate = x.poly(old("self", "loan_origination_fee_rate"))
        borrowed = alg.add(alg.mul(P.bi, n1), alg.scale(f, -1))
        if fn == "withdraw_loan_origination_fee":
            if alg.add(f, alg.scale(alg.mul(rate, amt), -1)):
                say("fee", "the origination fee is %s" % pt(r, f))
        elif fee and not q1 and n1 and P.sign == "b" and not P.known(dp) or fee and n1 and P.sign == "d":
            if alg.add(f, alg.scale(alg.mul(rate, borrowed), -1)):
                say("fee", "the origination fee is %s, not the rate times the %s newly borrowed" % (pt(r, f), pt(r, borrowed)))
            kinds.add("fee")
        elif f and not (fee and n1):
            say("fee", "a fee of %s is charged where nothing is borrowed or no fee is due" % pt(r, f))
        # dusting
        if dust:
            kinds.add("dust")
            one = alg.add(alg.const(1), alg.scale(d["dust"], -1))
            if p1:
                say("dust", "leftovers go to dust but the position stays")
            if not P.known(one, True):
                say("dust", "a balance of one native token or more can be dusted")
            if not dusting and not any("in_use_count" in a for a in atoms if a.endswith("<= 0") or a.endswith("== 0")):
                say("dust", "a position in use can be dusted")
        act = active(r, rv)
        if act is None:
            say("active", "what is reported about the position cannot be decided (%s)" % r.D(rv)[:100])
        elif not dusting and act != (not dust):
            say("active", "the position is reported %s" % ("active although it was dusted" if dust else "inactive although it was not dusted"))
        elif dusting and act is False and not (dust and any("in_use_count" in a for a in atoms)):
            say("active", "the position is reported inactive without having been dusted and unused")
        for fld in ("deposit_index", "borrow_index", "fees_withdrawn", "loan_origination_fee_rate"):
            if new(st, "self", fld) is not old("self", fld) and x.poly(new(st, "self", fld)) != x.poly(old("self", fld)):
                say("other", "%s also changes `%s`" % (fn, fld))
    need = {"dust"} | ({"fee"} if fee else set())
    if n < 3 or not need <= kinds:
        res.append(("anchor", "found %d paths covering %s (expected at least 3 and %s)" % (n, sorted(kinds), sorted(need))))
    return n, res


def borrowpart(P, n1):
    """n1 >= 0: known directly, or as an amount known not to be negative (with a fee on top) over the borrow index."""
    if P.known(n1):
        return True
    t = alg.mul(n1, P.bi)
    for y in P.gt + P.ge:
        y = P.sub(y)
        if not y:
            continue
        z = alg.add(t, alg.scale(y, -1))
        if not z or any(e == 1 and P.x.atomnn(a) and not alg.add(z, alg.scale(alg.mul(y, alg.var(a)), -1)) for m in z for a, e in m):
            return True
    return False


def variant(rv):
    if rv.op == "agg":
        s = str(rv.args[0]).split("::")[-1]
        return "Err" if s == "Err" else s
    return ""


def active(r, rv):
    """True/False when the result says the position is (in)active."""
    t = rv
    for _ in range(6):
        if t.op == "agg" and str(t.args[0]).split("::")[-1] in ("Ok",):
            t = t.args[2][0]
        elif t.op == "agg" and str(t.args[0]).endswith("WithdrawResult"):
            t = t.args[2][list(t.args[1]).index("position_is_active")] if "position_is_active" in t.args[1] else t.args[2][0]
        else:
            break
    if t.op == "int":
        return bool(t.args[0])
    if t.op == "lt" and "in_use_count" in r.D(t):
        return True         # active exactly when in use
    return None


def pt(r, p):
    return alg.text({tuple((r.D(q) if isinstance(q, Term) else q, e) for q, e in m): c for m, c in p.items()})[:300]


def native(c):
    """TokenPosition::native: the index of the position's side."""
    path = "state::mango_account_components::TokenPosition::native"
    r, an, outs, old, new = summ.effects(c, path)
    x = alg.Alg(r.D, exact=True)
    p, di, bi = x.poly(old("self", "indexed_position")), x.poly(old("bank", "deposit_index")), x.poly(old("bank", "borrow_index"))
    bad = []
    seen = set()
    for atoms, rv, st in outs:
        q = x.poly(rv)
        side = "d" if q == alg.mul(p, di) else "b" if q == alg.mul(p, bi) else "?"
        seen.add(side)
        s = {("d" if a.startswith("0 <") else "b") for a in atoms if a in ("0 < self.indexed_position", "0 <= self.indexed_position", "self.indexed_position <= 0", "self.indexed_position < 0")}
        if s != {side}:
            bad.append(" and ".join(sorted(atoms)))
    c.need(not bad and seen == {"d", "b"}, "native", "%s does not value a position at the index of its side (%s)" % (path, bad), c.where(path))


def confined(c):
    """Balances are only changed by the bank's own operations, and only the checked operations are called from outside."""
    P = c.prog
    nm = P.names()
    callers = {}
    for p, (cal, _, _) in nm.items():
        for q in cal:
            if q in P.fns:
                callers.setdefault(q, set()).add(p)

    def inside(p, seen=()):
        """A function of the bank, or a helper used only by such functions."""
        if p.startswith(B):
            return True
        cs = callers.get(p, set()) - {p}
        return bool(cs) and p not in seen and all(inside(q, seen + (p,)) for q in cs)
    w = writers(P, ["indexed_position", "indexed_deposits", "indexed_borrows", "dust"])
    for f, ws in sorted(w.items()):
        c.cov["balance writes"] = c.cov.get("balance writes", 0) + len(ws)
        c.need(bool(ws), "writers:%s" % f, "nothing writes `%s` (anchor lost)" % f)
        for p in sorted({p for p, _ in ws}):
            c.need(inside(p), "writer:%s:%s" % (f, p), "%s changes `%s` outside the bank's operations" % (p, f), c.where(p))
    changing = P.reaching(lambda k, n: k == "fn" and n in {p for ws in w.values() for p, _ in ws}) | {p for ws in w.values() for p, _ in ws}
    for p in sorted(changing):
        if not inside(p):
            continue
        out = {q for q in callers.get(p, ()) if not inside(q)}
        if out:
            c.need(p.split("::")[-1] in ledger.BANKOPS, "entry:" + p, "%s changes balances and is called from %s but is not one of the checked operations" % (p, sorted(out)[0]), c.where(p))
            c.cov["operations called from outside"] = c.cov.get("operations called from outside", 0) + 1


def check(c):
    c.fn(B + "deposit")

    def one(fn):
        n, res = ident(c, fn, OPS[fn])
        out = [("cov", "paths", n), ("cov", "operations", 1)]
        seen = set()
        for k, what in res:
            if k not in seen:
                out.append(("bad", "%s:%s" % (k, fn), "Bank::%s: %s" % (fn, what), c.where(B + fn)))
            seen.add(k)
        for k in ("split", "value", "side", "fee", "dust", "active", "other", "anchor"):
            if k not in seen:
                out.append(("ok", "%s:%s" % (k, fn)))
        return out
    c.pmap(one, sorted(OPS))
    native(c)
    confined(c)
    c.floor("paths", c.cov.get("paths", 0), 40)
