"""Rules shared by several properties."""
import absint as A
from ctx import *


CPI = ("anchor_spl::token::", "anchor_lang::system_program::", "solana_program::program::", "anchor_spl::associated_token::create")


def is_cpi(name):
    return name.startswith(CPI) and not name.endswith(("get_associated_token_address", "set_return_data", "get_return_data"))


def touches(an, st, name, args):
    """Does the call hand somebody mutable access to account data, or invoke another program?"""
    if is_cpi(name):
        return True
    out = []
    for a in args:
        an.reach_roots(st, a, out, mut=True)
    return any(r.op == "obj" and r.args[0].op in ("data", "dyn") for r, _ in out)


def ix_data(t):
    """Is t (part of) the instruction's own arguments?"""
    return any(x.op == "call" and "AnchorDeserialize" in str(x.args[0]) for x in subterms(t))


def ix_arg(t, name):
    """Is t exactly the instruction argument `name`?"""
    while t.op == "cast":
        t = t.args[1]
    if t.op == "fld" and t.args[1] == name:
        return ix_data(t)
    return t.op == "ld" and t.args[1] and t.args[1][-1] == name and ix_data(t.args[0])


def bit_of(t):
    """(word, index term) for word & (1 << index)."""
    if t.op == "bin" and t.args[0] == "BitAnd":
        for p, q in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if q.op == "bin" and q.args[0] == "Shl" and q.args[1].op == "int" and q.args[1].args[0] == 1:
                i = q.args[2]
                while i.op == "cast":
                    i = i.args[1]
                return p, i
            if p.op == "bin" and p.args[0] == "Shr" and q.op == "int" and q.args[0] == 1:
                i = p.args[2]
                while i.op == "cast":
                    i = i.args[1]
                return p.args[1], i
    return None


def is_new(w):
    return ix_arg(w, "ix_gate")


def is_old(w):
    return nf(w) == data("group", "ix_gate") and w.args[2] is None


class SetterRule(InlineRule):
    """admin/sec: which key matched; reen: some bit is being re-enabled; iter: an unexamined bit; skip: a bit was left unexamined;
    all: old & !new == 0 was tested as a whole word."""

    def __init__(self, prog):
        InlineRule.__init__(self, prog)
        self.ranges = set()

    def on_branch(self, an, st, fr, t, val):
        m = set(st.marks)
        if t.op == "eq":
            a, b = nf(t.args[0]), nf(t.args[1])
            if val and {a, b} == {data("group", "admin"), key("admin")}:
                m.add("admin")
            if val and {a, b} == {data("group", "security_admin"), key("admin")}:
                m.add("sec")
            x, y = t.args
            bo = bit_of(x)
            if bo and y.op == "int":
                isset = (not val) if y.args[0] == 0 else val
                if y.args[0] == 0 or y.args[0] == 1:
                    if is_old(bo[0]):
                        if isset:
                            m.add("oldset")
                        else:
                            m.discard("iter")
                    if is_new(bo[0]):
                        if isset:
                            m.discard("iter")
                        else:
                            m.add("newclear")
                    if "oldset" in m and "newclear" in m:
                        m.add("reen")
                        m.discard("iter")
            if y.op == "int" and y.args[0] == 0 and x.op == "bin" and x.args[0] == "BitAnd":
                for p, q in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                    if is_old(p) and q.op in ("un", "not") and is_new(q.args[-1]):
                        m.add("all" if val else "reen")
        m = frozenset(m)
        return m if m != st.marks else None

    def rng(self, args, an, st):
        it = an.full_deref(st, args[0])
        return it

    def on_call(self, an, st, fr, name, res, args, site):
        if name == "std::iter::Iterator::next" and "log" not in fr.prep.path and "iter" in st.marks:
            return (st.marks - {"iter"}) | {"skip"}

    def on_ret(self, an, st, fr, name, res, args, ret, site):
        if name == "std::iter::Iterator::next" and ret.op == "agg" and A.variant_of(ret) == "Some":
            x = ret.args[2][0]
            if x.op == "each" and x.args[1].op == "agg" and all(y.op == "int" for y in x.args[1].args[2]):
                self.ranges.add(tuple(y.args[0] for y in x.args[1].args[2]))
                return (st.marks - {"oldset", "newclear"}) | {"iter"}


def setter_authority(c):
    P = c.prog
    r = SetterRule(P)
    an, oks = run_entry(P, "ix_gate_set", r)
    c.cov["paths"] = c.cov.get("paths", 0) + an.steps
    c.need(bool(oks), "setter:live", "the gate setter has no successful exit", "ix_gate_set")
    okk = True
    for s, _ in oks:
        m = s.marks
        if "admin" in m:
            continue
        if "sec" not in m:
            c.bad("setter:signer", "the gate word can be set by a key that is neither admin nor security admin", "ix_gate_set")
            okk = False
        elif "reen" in m or "skip" in m or not ("all" in m or (0, 128) in r.ranges):
            c.bad("setter:reenable", "the security admin can clear a gate bit that was set (%s, ranges examined %s)" % (sorted(m), sorted(r.ranges)), "ix_gate_set")
            okk = False
    if okk:
        c.ok("setter:reenable")
    return okk
