"""The security admin can only tighten risk settings."""
import absint as A
from ctx import *
from props.common import ix_arg, ix_data

META = dict(
    title="The security admin can only tighten risk settings",
    statement="Editing a token, perp or spot market needs the group admin's signature, except that the security admin alone may set a collateral weight or platform and collateral fee to zero, make reduce-only stricter, or abort a pending weight shift. No combination of edit parameters lets the security admin change anything else, and no third key can edit at all.",
    q=(["inputs", "configurations"], "Every combination of edit parameters, prior settings and signers."),
    files=["programs/mango-v4/src/instructions/token_edit.rs", "programs/mango-v4/src/instructions/perp_edit_market.rs", "programs/mango-v4/src/instructions/serum3_edit_market.rs"],
    mechanism=[("require_group_admin flag", "instructions/token_edit.rs, perp_edit_market.rs, serum3_edit_market.rs")],
    technique="effect/typestate dataflow over MIR of the edit instructions")
LEVEL = "proof"
RULE = ("Every path through the three edit instructions is tracked with the set of privileged effects it had: a write to a bank, mint record or market field "
        "is privileged unless the field is on the relaxed list and its tightening condition has been tested on the path.  A successful exit with a privileged "
        "effect must have matched the signer with the group admin; one without must have matched the admin or the security admin.")

# field -> condition under which the security admin may write it
ZERO = {"init_asset_weight", "init_overall_asset_weight", "platform_liquidation_fee", "collateral_fee_per_day"}
SHIFT0 = {"maint_weight_shift_start", "maint_weight_shift_end", "maint_weight_shift_duration_inv", "maint_weight_shift_asset_target", "maint_weight_shift_liab_target"}
SHIFTW = {"maint_asset_weight", "maint_liab_weight"}
REL = {
    "token_edit": (("init_asset_weight", "platform_liquidation_fee", "collateral_fee_per_day"), True, "tri"),
    "perp_edit_market": (("init_overall_asset_weight",), False, "bool"),
    "serum3_edit_market": ((), False, "bool"),
}


def unnum(t):
    while t.op in ("num", "cast", "into") or t.op == "fld" and t.args[1] in ("Some.0",) and False:
        t = t.args[-1]
    return t


def is_zero(t):
    t = unnum(t)
    if t.op == "int":
        return t.args[0] == 0
    s = show(t)
    return (t.op == "const" and str(t.args[0]).endswith("::ZERO")) or (t.op == "lit" and str(t.args[1]) in ("int:0", "bits:0")) or s in ("0", "0.0")


class R(InlineRule):
    but = ("state::bank::Bank::maint_weights",) if False else ()

    def __init__(self, prog, ix):
        InlineRule.__init__(self, prog)
        self.ix = ix
        self.zero, self.shift, self.ro = REL[ix]
        self.seen = set()

    def priv(self, st, why):
        self.seen.add(why)
        return st.marks | {"priv"}

    def on_write(self, an, st, fr, place, v):
        root, path = place
        if root.args[0].op != "data" or not path:
            return self.priv(st, "whole") if root.args[0].op == "data" else None
        f = path[0]
        acct = root.args[0].args[0]
        if acct.op == "acct" and acct.args[0] == "group":
            return self.priv(st, "group")
        if len(path) == 1:
            if f in self.zero:
                a = unnum(v)
                if is_zero(a):
                    return None
                g = [k for k, x in st.facts.items() if k.op == "eq" and x == ("is", 1) and k.args[0] is a and is_zero(k.args[1])]
                if g:
                    return None
                return st.marks | {("pend", f, a)}
            if self.shift and f in SHIFT0 and is_zero(v):
                return None
            if self.shift and f in SHIFTW and any(x.op == "call" and str(x.args[0]).endswith("::maint_weights") for x in subterms(v)):
                return None
            if f == "reduce_only":
                if self.ro == "bool":
                    a = v
                    while a.op in ("cast", "into", "num"):
                        a = a.args[-1]
                    if a.op == "int":
                        return None if a.args[0] == 1 else self.priv(st, f)
                    r = an.eval_bool(st, a)
                    if r is True:
                        return None
                    return st.marks | {("pend", f, a)}
                need = {"nz", "strict"}
                m = {x for x in st.marks if x not in need}
                if need <= st.marks:
                    return frozenset(m)
                return frozenset(m) | {("pend2", x) for x in need - st.marks}
        return self.priv(st, str(f))

    def on_call(self, an, st, fr, name, res, args, site):
        if res in an.prog.fns and not an.should_inline(fr, res) or "stable_price" in res:
            out = []
            for a in args:
                an.reach_roots(st, a, out, mut=True)
            for r, p in out:
                if r.op == "obj" and r.args[0].op == "data":
                    return self.priv(st, res.split("::")[-1])

    def on_branch(self, an, st, fr, t, val):
        m = set(st.marks)
        if t.op == "eq":
            a, b = nf(t.args[0]), nf(t.args[1])
            if val and {a, b} == {data("group", "admin"), key("admin")}:
                m.add("admin")
            if val and {a, b} == {data("group", "security_admin"), key("admin")}:
                m.add("sec")
            x, y = t.args
            if is_zero(y) and not ro_new(x):
                for p in [p for p in m if isinstance(p, tuple) and p[0] == "pend" and p[2] is x]:
                    m.discard(p)
                    if not val:
                        m.add("priv")
                        self.seen.add(p[1])
            if y.op == "int" and self.ro == "tri":
                if ro_new(x):
                    n = y.args[0]
                    if val and n == 1:
                        self.tri(m, "nz", "strict")
                    if not val and n == 0:
                        self.tri(m, "nz")
                    if not val and n == 2:
                        self.tri(m, "strict")
                    if val and n == 0 or val and n == 2:
                        pass
                elif ro_old(x) and not val and y.args[0] == 1:
                    self.tri(m, "strict")
        else:
            for p in [p for p in m if isinstance(p, tuple) and p[0] == "pend" and p[2] is t]:
                m.discard(p)
                if not val and p[1] == "reduce_only" or p[1] != "reduce_only":
                    m.add("priv")
                    self.seen.add(p[1])
        m = frozenset(m)
        return m if m != st.marks else None

    def tri(self, m, *w):
        for x in w:
            if ("pend2", x) in m:
                m.discard(("pend2", x))
            else:
                m.add(x)


def ro_old(x):
    """the market's present reduce-only setting"""
    if x.op == "alt":
        return any(ro_old(y) for y in x.args)
    return x.op == "ld" and x.args[1] and x.args[1][-1] == "reduce_only" or x.op == "phi" and x.args[-1] == ("reduce_only",)


def ro_new(x):
    """the instruction's own reduce-only argument"""
    while x.op == "cast":
        x = x.args[1]
    return x.op in ("fld", "ld") and ("reduce_only" in show(x)[-40:]) and ix_data(x) and not (x.op == "ld" and x.args[0].op == "obj" and x.args[0].args[0].op == "data")


def check(c):
    P = c.prog
    ents = c.entries()

    def one(ix):
        r = R(P, ix)
        an, oks = run_entry(P, ix, r)
        out = [("cov", "paths", an.steps), ("cov", "privileged fields in " + ix, len(r.seen))]
        if not oks:
            return out + [("bad", "live:" + ix, "%s has no successful exit" % ix, ix)]
        bad = None
        for s, _ in oks:
            m = s.marks
            if "admin" in m:
                continue
            if "sec" not in m:
                bad = ("signer:" + ix, "%s succeeds for a key that is neither the group admin nor the security admin" % ix)
            elif "priv" in m or any(isinstance(x, tuple) and x[0].startswith("pend") for x in m):
                bad = ("scope:" + ix, "the security admin alone can change more than the relaxed settings (%s)" % ", ".join(sorted(str(x[1]) if isinstance(x, tuple) else str(x) for x in m if x == "priv" or isinstance(x, tuple) and x[0].startswith("pend"))))
            if bad:
                return out + [("bad", bad[0], bad[1], "instruction " + ix)]
        return out + [("ok", "scope:" + ix)]
    c.pmap(one, sorted(REL))
    c.floor("privileged fields in token_edit", c.cov.get("privileged fields in token_edit", 0), 30)
    c.floor("privileged fields in perp_edit_market", c.cov.get("privileged fields in perp_edit_market", 0), 20)
    c.floor("privileged fields in serum3_edit_market", c.cov.get("privileged fields in serum3_edit_market", 0), 2)
