"""Flash loans: every loan that is paid out is settled, in the same transaction, against the same bank, vault and token account."""
import re
from ctx import *
import alg, guards, rounds, txscan

META = dict(
    title="Flash loans are settled in their transaction, by the same account and vaults",
    statement="FlashLoanBegin (also its swap form) succeeds only as a top-level instruction followed, without gap, by instructions of other programs that do not receive the mango program among their accounts, up to a FlashLoanEndV2 of the same mango account, the same number of loans, and the same vaults, token accounts and group; for a delegate the programs in between are limited to the associated token program, Jupiter v3, v4, v6 and compute budget. Each loan is for a bank of the given group that is not already in a flash loan, the bank's own vault, a distinct token, and a token account of the bank's mint; it pays exactly the approved amount from that vault to that token account and notes the account's balance before it. FlashLoanEnd requires each given vault to belong to a bank of the account's group that is in a flash loan and whose mint is the token account's, takes back whatever the token account holds above the noted balance, books what was taken back less the approved amount and less fees as the change of the account's position in that bank, and takes each of these banks out of its flash loan. Only begin and end write these markers.",
    q=(["inputs", "histories"], "Every transaction content, loan count, amount, account and bank state."),
    files=["programs/mango-v4/src/instructions/flash_loan.rs", "programs/mango-v4/src/accounts_ix/flash_loan.rs"],
    mechanism=[("flash_loan_begin, flash_loan_swap_begin, flash_loan_end", "instructions/flash_loan.rs")],
    technique="loop dataflow over MIR: facts and effects of every completed loop round; write confinement")
LEVEL = "proof"
RULE = ("Four loops are interpreted over MIR to a fixpoint (scan of the transaction, loans paid, banks matched, changes booked), collecting for each completed round the canonical facts and effects on the current element; "
        "each round is compared with what the property requires, collections are identified by their index ranges (affine forms), and loops must have run to their end on every Ok exit.")

PROGRAMS = {"anchor_lang::Id::id", "jupiter_mainnet_3::ID", "jupiter_mainnet_4::ID", "jupiter_mainnet_6::ID", "compute_budget::ID"}
MAX = (1 << 64) - 1
BEGIN = ("flash_loan_begin", "flash_loan_swap_begin")
END = "flash_loan_end_v2"


def eqs(m, x):
    """What the facts say x equals."""
    out = set()
    for f in m:
        if isinstance(f, str) and " == " in f:
            a, b = f.split(" == ", 1)
            if a == x:
                out.add(b)
            if b == x:
                out.add(a)
    return out


class Scan(txscan.TxRule):
    keep = ("delegate",)


def scan(c, ix):
    """The other instructions of the transaction."""
    r = Scan(c.prog)
    an, oks = run_entry(c.prog, ix, r)
    w = "instruction " + ix
    yield ("cov", "begin exits", len(oks))
    yield ("cov", "scan rounds", len(r.rounds))

    def need(cond, key, msg):
        return ("ok", "%s:%s" % (key, ix)) if cond else ("bad", "%s:%s" % (key, ix), msg, w)
    for m in r.rounds:
        f = {x for x in m if isinstance(x, str)}
        k = {x[1] for x in m if isinstance(x, tuple) and x[0] == "keep"}
        yield need("ix.program_id != self" in f, "round:foreign", "%s lets another mango instruction stand between begin and end (an accepted one is only known to satisfy %s)" % (ix, sorted(f)))
        yield need(r.every(m, [r"^ix\.accounts$"], r"^ix\.accounts\[each\]\.pubkey != self$"), "round:accounts", "%s does not check every account of the instructions in between against the mango program" % ix)
        owner = "account.delegate != key(owner)" in k and any(x == "account.temporary_delegate != key(owner)" or re.match(r"^account\.temporary_delegate_expiry < .*unix_timestamp", x) or
                                                               re.match(r"^account\.temporary_delegate_expiry <= .*unix_timestamp", x) for x in k)
        yield need(owner or bool(eqs(f, "ix.program_id") & PROGRAMS), "round:delegate", "%s lets a delegate put an instruction of any program in between (%s)" % (ix, sorted(f | k)))
    gap = r.contiguous()
    yield need(gap is None, "contiguous", "%s does not look at every instruction after the current one (%s)" % (ix, gap))
    for last, first in r.exits(oks):
        l = {x for x in last if isinstance(x, str)}
        yield need("discr(FlashLoanEndV2)" in eqs(l, "ix.data8"), "exit:end", "%s can succeed without a FlashLoanEndV2 after it (last instruction seen: %s)" % (ix, sorted(l)))
        yield need("ix.program_id == self" in l, "exit:program", "%s accepts an end instruction of another program" % ix)
        yield need("key(account)" in eqs(l, "ix.accounts[0].pubkey"), "exit:account", "%s accepts an end for another mango account (%s)" % (ix, sorted(l)))
        ns = [re.match(r"^len\((.*)\)$", x) for x in eqs(l, "ix.data[8]")]
        ns = [x.group(1) for x in ns if x]
        yield need(len(ns) == 1, "exit:count", "%s accepts an end with another number of loans (%s)" % (ix, sorted(l)))
        if ns:
            mine = "accounts[RangeFrom{len(%s)}]" % ns[0]
            his = "ix.accounts[RangeFrom{-len(%s) + len(ix.accounts)}]" % mine
            want = [re.escape("%s[each].pubkey == key(%s[each])" % (his, mine)), re.escape("key(%s[each]) == %s[each].pubkey" % (mine, his))]
            yield need(any(r.every(last, ["^%s$" % re.escape(mine), "^%s$" % re.escape(his)], "^%s$" % x) for x in want), "exit:trailing",
                       "%s does not check that all vaults, token accounts and the group given to the end are the ones it was given itself" % ix)
        yield need("ix.program_id == self" in first, "top-level", "%s does not require to be a top-level instruction (%s)" % (ix, sorted(map(str, first))))


FIELDS = ("flash_loan_approved_amount", "flash_loan_token_account_initial")


class Loans(rounds.RoundRule):
    keep = (".",)
    fields = FIELDS
    calls = ("transfer", "push", "insert")


def loans(c, ix):
    """What each loan requires, and what it pays."""
    r = Loans(c.prog)
    an, oks = run_entry(c.prog, ix, r)
    w = "instruction " + ix
    n = 0

    def need(cond, key, msg):
        return ("ok", "%s:%s" % (key, ix)) if cond else ("bad", "%s:%s" % (key, ix), msg, w)
    for s, xs in r.rounds.items():
        if not any(".flash_loan_approved_amount :=" in f for x in xs for f in x):
            continue
        n += 1
        amounts = [x for x in r.over[s] if not x.startswith("accounts[")]
        yield need(len(amounts) == 1 and s not in r.partial, "loan:all", "%s does not go through all requested loans (%s)" % (ix, sorted(r.over[s])))
        A = amounts[0] if amounts else "?"
        N = "len(%s)" % A
        B, V, T, G = "accounts[RangeTo{%s}]" % N, "accounts[Range{%s, 2*%s}]" % (N, N), "accounts[Range{2*%s, 3*%s}]" % (N, N), "accounts[(3 * %s)]" % N
        yield need({B, V, T} <= r.over[s], "loan:slices", "%s does not take banks, vaults and token accounts from its remaining accounts in this order (%s)" % (ix, sorted(r.over[s])))
        for x in xs:
            x = {short(f, {B + "[each]": "bank", V + "[each]": "vault", T + "[each]": "token", G: "group", A + "[each]": "amount"}) for f in x}
            x = {f.replace("bank'", "bank").replace("'", "") for f in x}
            yield need("key(group)" in eqs(x, "bank.group"), "loan:group", "%s lends from a bank of another group" % ix)
            yield need(eqs(x, "bank.vault") & {"key(vault)", "vault.key"}, "loan:vault", "%s pays from a vault that is not the bank's" % ix)
            yield need("try_from(token).mint" in eqs(x, "bank.mint"), "loan:mint", "%s accepts a token account of another mint than the bank's" % ix)
            yield need("0" in eqs(x, "bank.flash_loan_approved_amount") and str(MAX) in eqs(x, "bank.flash_loan_token_account_initial"), "loan:fresh",
                       "%s lends from a bank that is already in a flash loan (%s)" % (ix, sorted(f for f in x if "flash" in f)))
            seen = [f for f in x if re.match(r"^!contains\([^,]*, bank\.token_index\)$", f)]
            yield need(seen and any(re.match(r"^(push|insert)\([^,]*, bank\.token_index\)$", f) for f in x), "loan:distinct", "%s can lend the same token twice" % ix)
            yield need("bank.flash_loan_approved_amount := amount" in x, "loan:approved", "%s notes another approved amount than the requested one" % ix)
            yield need("bank.flash_loan_token_account_initial := try_from(token).amount" in x, "loan:initial", "%s does not note the token account's balance before the loan" % ix)
            pays = {f for f in x if f.startswith("transfer(")}
            good = re.compile(r"^transfer\(CpiContext\{ai\(token_program\), Transfer\{vault, token, group\}.*\}, amount\)$")
            yield need(all(good.match(f) for f in pays), "loan:pays", "%s pays out something else than the requested amount from the bank's vault to the token account" % ix)
            yield need(pays or {"amount <= 0", "amount == 0"} & x, "loan:paid", "%s can skip paying a requested loan" % ix)
        yield need(all(("done", s) in st.marks for st, _ in oks), "loan:done", "%s can succeed before all loans were paid" % ix)
    yield need(n == 1, "loan:loop", "%s: %d loops pay out loans, 1 expected" % (ix, n))
    yield ("cov", "loan rounds", sum(len(x) for x in r.rounds.values()))


def short(f, m):
    for k, v in m.items():
        f = f.replace(k, v)
    return f


FLAG = r"^!?(local|(aliased\()?from_elem\(.*\))\[each\]\)?( != 0| == 1)?$"


class Match(rounds.RoundRule):
    """First half of the end: which banks are matched, what is taken back, what is noted down for booking."""
    keep = (r"(group|vault|mint|initial)\b.* (==|!=) ", FLAG, r"amount (<|<=) ", r"(<|<=) .*amount")
    calls = ("transfer", "push")

    def __init__(self, prog, opaque=()):
        rounds.RoundRule.__init__(self, prog, opaque)
        self.seen = {}

    def on_call(self, an, st, fr, name, res, args, site):
        f = str(res if res in an.prog.fns else name).split("::")[-1]
        if f == "push" and fr.parent is not None and "health" in fr.prep.path:
            return None
        m = rounds.RoundRule.on_call(self, an, st, fr, name, res, args, site)
        if f in self.calls:
            vs = tuple(an.full_deref(st, a) if a.op == "ref" and a.args[0].op == "cell" else a for a in args)
            self.seen["%s(%s)" % (f, ", ".join(self.value(v) for v in vs))] = vs
        return m

    def on_local(self, an, st, fr, place, val):
        """A flag in a local list."""
        if any(isinstance(p, Term) and p.op == "idx" for p in place[1]) and val.op == "int":
            i = [p for p in place[1] if isinstance(p, Term) and p.op == "idx"][-1].args[0]
            return frozenset(("r", x[1], x[2] | {"flag[%s] := %s" % (self.D(i), val.args[0])}) if x[0] == "r" and x[1].args[0] == fr.fid else x for x in st.marks)


class Book(Match):
    """Second half: what is booked for each noted change."""
    keep = (r"^0 < native", r"^native.* <= 0$", r"\[each\]\.\w+ (<|<=|==|!=) 0$", r"^0 (<|<=|==|!=) \w+\[each\]\.\w+$")
    fields = FIELDS
    calls = ("change_without_fee", "token_position_mut_by_raw_index")
    also = ("flash_loan_type",)
    on_local = rounds.RoundRule.on_local


def top(t, seps):
    """Split t at separators outside of brackets."""
    out, d, i, b = [], 0, 0, 0
    while i < len(t):
        if t[i] in "([{":
            d += 1
        elif t[i] in ")]}":
            d -= 1
        elif d == 0:
            x = next((x for x in seps if t.startswith(x, i)), None)
            if x:
                out.append(t[b:i])
                b = i + len(x)
                i = b
                continue
        i += 1
    return out + [t[b:]]


def summands(t):
    """A rendered polynomial as a set of (sign, sorted factors)."""
    out = set()
    for x in top(t.replace(" - ", " + -"), (" + ",)):
        neg = x.startswith("-")
        out.add(("-" if neg else "+",) + tuple(sorted(top(x[1:] if neg else x, ("*",)))))
    return frozenset(out)


N = "$num_loans"
H, V, TK = ("accounts[RangeTo{-1 - 2*%s + len(accounts)}]" % N, "accounts[Range{-1 - 2*%s + len(accounts), -%s - 1 + len(accounts)}]" % (N, N),
            "accounts[Range{-%s - 1 + len(accounts), -1 + len(accounts)}]" % N)
PART = ("check_health_post", "check_health_pre", "ensure_token_position")


def plain(f):
    return short(f, {H: "H", V: "V", TK: "T"}).replace("'", "").replace("V[index in V]", "V[each]")


def match(c):
    """Banks, vaults and token accounts of the end."""
    r = Match(c.prog, PART)
    an, oks = run_entry(c.prog, END, r)
    w = "instruction " + END
    roles = {}

    def need(cond, key, msg):
        return ("ok", key) if cond else ("bad", key, msg, w)
    sites = [s for s, xs in r.rounds.items() if any(f.startswith("push(") and "TokenVaultChange" in f or f.startswith("flag[") for x in xs for f in x)]
    yield need(len(sites) == 1, "match:loop", "%d loops match the banks, 1 expected" % len(sites))
    n = 0
    for s in sites:
        yield need({plain(o) for o in r.over[s]} == {"H"} and s not in r.partial, "match:all", "not every health account is looked at for banks that are in a flash loan (%s)" % sorted(map(plain, r.over[s])))
        for x0 in r.rounds[s]:
            x = {plain(f) for f in x0}
            ps = [f for f in x0 if f.startswith("push(")]
            ts = {f for f in x if f.startswith("transfer(")}
            flag = {f for f in x if f.startswith("flag[")}
            if not (ps or ts or flag):
                continue
            n += 1
            yield need(flag == {"flag[index in V] := 1"} and len(ps) == 1, "match:flag", "a vault counts as matched without its change being noted (%s)" % sorted(flag))
            yield need("H[each].group" in eqs(x, "account.group") or "account.group" in eqs(x, "H[each].group"), "match:group", "a bank of another group takes part in the end")
            yield need(eqs(x, "H[each].vault") & {"V[each].key", "key(V[each])"}, "match:vault", "a bank takes part whose vault is not the given one (%s)" % sorted(x))
            yield need("try_from(T[index in V]).mint" in eqs(x, "H[each].mint"), "match:mint", "the token account's mint is not compared with the bank's")
            yield need("H[each].flash_loan_token_account_initial != %d" % MAX in x, "match:loaned", "a bank that is not in a flash loan takes part in the end")
            more = any(re.match(r"^H\[each\]\.flash_loan_token_account_initial < try_from\(T\[index in V\]\)\.amount$", f) for f in x)
            repay = "-H[each].flash_loan_token_account_initial + try_from(T[index in V]).amount"
            pay = re.compile(r"^transfer\(CpiContext\{ai\(token_program\), Transfer\{T\[index in V\], V\[each\], ai\(owner\)\}.*\}, %s\)$" % re.escape(repay))
            yield need(all(pay.match(f) for f in ts) and len(ts) <= 1, "match:takes", "what is taken back is not the token account's excess, to the bank's vault (%s)" % sorted(ts))
            le = any(re.match(r"^try_from\(T\[index in V\]\)\.amount <=? H\[each\]\.flash_loan_token_account_initial$", f) for f in x)
            yield need(ts or le, "match:taken", "an excess over the noted balance can stay in the token account")
            want = {"-H[each].flash_loan_approved_amount"} if not ts else {"-H[each].flash_loan_token_account_initial", "-H[each].flash_loan_approved_amount", "try_from(T[index in V]).amount"}
            for p in ps:
                v = r.seen[p][-1]
                names, vals = v.args[1] if v.op == "agg" else (), v.args[2] if v.op == "agg" else ()
                got = {}
                for f, y in zip(names, vals):
                    t = plain(r.value(y))
                    k = "token" if t == "H[each].token_index" else "bank" if t == "index in H" else "raw" if re.match(r"^ensure_token_position\(.*, H\[each\]\.token_index\)(\.Ok\.0)?\.1$", t) else "amount"
                    got[k] = (f, t)
                yield need(set(got) == {"token", "bank", "raw", "amount"}, "match:noted", "what is noted of a matched bank is not its index, token and position (%s)" % p[:300])
                if set(got) != {"token", "bank", "raw", "amount"}:
                    continue
                sm = {("-" if z[0] == "-" else "") + "*".join(z[1:]) for z in flat(got["amount"][1])}
                yield need(sm == want, "match:amount", "the change noted for a bank is not what was taken back less the approved amount (%s)" % got["amount"][1][:300])
                roles.update({k: y[0] for k, y in got.items()})
    yield need(n >= 2, "match:rounds", "no completed rounds that match a bank were found")
    checked = [s for s, xs in r.rounds.items() if {plain(o) for o in r.over[s]} == {"from_elem(0, len(V))"} and all(any(re.match(FLAG, f) and f[0] != "!" for f in x) for x in xs)]
    ok = [s for s in checked if s not in r.partial and all(("done", s) in st.marks for st, _ in oks)]
    yield need(ok, "match:every-vault", "vaults without a matching bank are accepted")
    yield ("cov", "match rounds", n)
    yield from book(c, roles)


def flat(t):
    """Signed summands of a rendered sum, looking into brackets."""
    out = set()
    t = t.strip()
    while t.startswith("(") and len(top(t, ())) == 1 and close(t) == len(t) - 1:
        t = t[1:-1]
    xs = top(t.replace(" - ", " + -"), (" + ",))
    if len(xs) == 1:
        neg = xs[0].startswith("-")
        x = xs[0][1:] if neg else xs[0]
        if x.startswith("(") and close(x) == len(x) - 1:
            return {(("-" if (z[0] == "-") != neg else "+"),) + z[1:] for z in flat(x)}
        return {("-" if neg else "+", x)}
    for x in xs:
        out |= flat(x)
    return out


def close(t):
    d = 0
    for i, ch in enumerate(t):
        d += ch in "([{"
        d -= ch in ")]}"
        if d == 0:
            return i
    return len(t)


def book(c, roles):
    """What is booked for the noted changes."""
    r = Book(c.prog, PART)
    an, oks = run_entry(c.prog, END, r)
    w = "instruction " + END
    yield ("cov", "end exits", len(oks))

    def need(cond, key, msg):
        return ("ok", key) if cond else ("bad", key, msg, w)
    sites = [s for s, xs in r.rounds.items() if any(".flash_loan_" in f and ":=" in f or "change_without_fee(" in f for x in xs for f in x)]
    yield need(len(sites) == 1, "book:loop", "%d loops book the changes, 1 expected" % len(sites))
    R = {k: roles.get(k, "?") for k in ("token", "bank", "raw", "amount")}
    n = 0
    for s in sites:
        yield need(s not in r.partial and all(("done", s) in st.marks for st, _ in oks), "book:done", "the end can succeed before all changes were booked")
        for x0 in r.rounds[s]:
            n += 1
            x = {re.sub(r"alt\((?:(?:hv|phi|vec)\[each\]\.(\w+)\|?)+\)", r"X.\1", plain(f)) for f in x0}
            x = {re.sub(r"\b(?:hv|phi|vec)\[each\]\.", "X.", f) for f in x}
            B = "H[X.%s]" % R["bank"]
            x = {f.replace(B, "B") for f in x}
            yield need("B.flash_loan_approved_amount := 0" in x and any(f in x for f in ("B.flash_loan_token_account_initial := %d" % MAX, "B.flash_loan_token_account_initial := %d/281474976710656" % MAX)),
                       "book:closed", "a bank stays in its flash loan after the end (%s)" % sorted(f for f in x if ":=" in f))
            yield need(not any(":=" in f and not f.startswith("B.") for f in x), "book:others", "another bank than the matched one is taken out of its flash loan")
            yield need(any(re.match(r"^token_position_mut_by_raw_index\(.*, X\.%s\)$" % R["raw"], f) for f in x), "book:position", "the change is not booked on the position of the matched bank")
            ch = [f for f in x if f.startswith("change_without_fee(")]
            yield need(len(ch) == 1, "book:once", "a change is booked %d times in a round" % len(ch))
            if len(ch) != 1:
                continue
            args = top(ch[0][len("change_without_fee("):-1], (", ",))
            yield need(args[0] == "B", "book:bank", "the change is booked on another bank (%s)" % args[0])
            nat = "native(%s, B)" % args[1]
            pos, neg = any(f in x for f in ("0 < " + nat, "0 <= " + nat)), any(f in x for f in (nat + " <= 0", nat + " < 0"))
            d = "B.flash_loan_approved_amount"
            clip = ["max(-%s + %s, 0)" % (nat, d), "max(0, -%s + %s)" % (nat, d)]
            loans = ([d] if neg else []) + (clip if pos else [])
            for m in ("max(%s, 0)" % nat, "max(0, %s)" % nat):
                loans += ["max(-%s + %s, 0)" % (m, d), "max(0, -%s + %s)" % (m, d)]
            sell = "X.%s < 0" % R["amount"] in x
            fee = sell and "disc $flash_loan_type == 1" in x
            sm = summands(args[2])
            rest = {z for z in sm if z != ("+", "X." + R["amount"])}
            yield need(len(rest) == len(sm) - 1, "book:change", "what is booked does not contain the noted change (%s)" % args[2][:300])
            orig = {z for z in rest if any(z == ("-",) + tuple(sorted((l, "B.loan_origination_fee_rate"))) for l in loans)}
            yield need(len(orig) == 1, "book:origination", "what is booked does not subtract the origination fee on the borrowed part of the approved amount (%s)" % args[2][:300])
            rest -= orig
            swap = {z for z in rest if z[0] == "+" and len(z) == 3 and "X." + R["amount"] in z[1:] and any("H[each].flash_loan_swap_fee_rate" in y for y in z[1:])}
            yield need(rest == swap and len(swap) == (1 if fee else 0), "book:swap-fee", "the swap fee is not exactly taken on the sold amount of a swap with fee (%s; %s)" % (args[2][:300], "sale in a swap" if fee else "no sale in a swap with fee"))
    yield need(n >= 4, "book:rounds", "no completed rounds that book a change were found")
    yield ("cov", "book rounds", n)


def confined(c):
    ch = changers(c.prog, FIELDS)
    for f in FIELDS:
        extra = set(ch.get(f, ())) - set(BEGIN) - {END}
        yield ("ok", "confined:" + f) if not extra else ("bad", "confined:" + f, "%s can change in %s" % (f, sorted(extra)), "instruction " + sorted(extra)[0])
        yield ("ok", "written:" + f) if set(ch.get(f, ())) >= set(BEGIN) | {END} else ("bad", "written:" + f, "%s is not written by begin and end" % f, "")


def check(c):
    c.pmap(lambda k: list(k[0](c, *k[1:])), [(scan, ix) for ix in BEGIN] + [(loans, ix) for ix in BEGIN] + [(match,), (confined,)])
    for n, k in (("begin exits", 2), ("scan rounds", 4), ("loan rounds", 2), ("end exits", 1), ("match rounds", 2), ("book rounds", 4)):
        c.floor(n, c.cov.get(n, 0), k)
