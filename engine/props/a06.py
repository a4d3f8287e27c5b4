"""Testing-only operations and unsupported features."""
import absint as A
from ctx import *
from props.common import *

META = dict(
    title="Destructive test operations only work on testing groups",
    statement="Closing a group, perp market, spot market, token or stub oracle, adding a bank, computing account data and force-closing an account that still holds positions succeed only while the group is flagged as testing; adding banks, creating perp markets and registering or editing spot markets also need a group version that supports them. The flag and version come from the group being acted on.",
    q=(["inputs", "configurations"], "Every instruction and group configuration."),
    files=["programs/mango-v4/src/accounts_ix/", "programs/mango-v4/src/instructions/account_close.rs", "programs/mango-v4/src/state/group.rs"],
    mechanism=[("is_testing constraint", "accounts_ix/*.rs"), ("version support predicates", "state/group.rs")],
    technique="typestate dataflow over MIR of every instruction entry point")
LEVEL = "proof"
RULE = "Every successful exit of a listed instruction must have established group.testing == 1, or (for version features) group.testing == 1 or group.version >= n, on its path."

TESTING = ["group_close", "perp_close_market", "token_add_bank", "token_deregister", "serum3_deregister_market", "stub_oracle_close", "openbook_v2_deregister_market", "compute_account_data"]
VERSION = {"token_add_bank": 2, "perp_create_market": 2, "serum3_register_market": 1, "serum3_edit_market": 1}
ALLTEST = ["openbook_v2_edit_market", "openbook_v2_register_market"]


def at_least(t, val, what):
    """n such that the branch (t, val) establishes `what >= n`, else None."""
    if t.op == "lt":
        a, b = t.args
        if val and a.op == "int" and nf(b) == what:
            return a.args[0] + 1
        if not val and b.op == "int" and nf(a) == what:
            return b.args[0]
    if t.op == "eq":
        for a, b in (t.args, t.args[::-1]):
            if nf(a) == what and b.op == "int":
                if val:
                    return b.args[0]
                if b.args[0] == 0:
                    return 1
    return None


class R(InlineRule):
    def on_branch(self, an, st, fr, t, val):
        m = st.marks
        if t.op == "eq":
            for a, b in (t.args, t.args[::-1]):
                if nf(a) == data("group", "testing") and b.op == "int" and b.args[0] == 1:
                    return m | {"testing"} if val else None
                if ix_arg(a, "force_close") or a.op == "fld" and a.args[1] == "force_close" and ix_data(a):
                    pass
        n = at_least(t, val, data("group", "version"))
        if n is not None:
            return m | {("ver", n)}
        if self.ix == "account_close" and "AnchorDeserialize" in show(t) and t.op in ("fld", "ld"):
            return m | {"forced" if val else "unforced"}


def check(c):
    P = c.prog
    ents = c.entries()
    todo = sorted(set(TESTING) | set(VERSION) | set(ALLTEST) | {"account_close"})

    def one(ix):
        r = R(P)
        r.ix = ix
        an, oks = run_entry(P, ix, r)
        out = [("cov", "paths", an.steps), ("cov", "instructions", 1)]
        if not oks:
            return out + [("bad", "live:" + ix, "%s has no successful exit" % ix, "")]
        for s, _ in oks:
            m = s.marks
            if (ix in TESTING or ix in ALLTEST) and "testing" not in m:
                return out + [("bad", "testing:" + ix, "%s can succeed on a group that is not a testing group" % ix, "instruction " + ix)]
            if ix in VERSION and "testing" not in m and max([x[1] for x in m if isinstance(x, tuple)] or [0]) < VERSION[ix]:
                return out + [("bad", "version:" + ix, "%s can succeed on a group whose version does not support it" % ix, "instruction " + ix)]
            if ix == "account_close" and "testing" not in m and "unforced" not in m:
                return out + [("bad", "force:" + ix, "account_close can be forced on a group that is not a testing group", "instruction " + ix)]
        return out + [("ok", "gate:" + ix)]
    c.pmap(one, todo)
    c.floor("instructions", c.cov.get("instructions", 0), len(todo))
