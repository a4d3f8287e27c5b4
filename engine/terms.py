"""Hash-consed terms: the value domain of the abstract interpreter (global value numbering)."""


class Term(object):
    __slots__ = ("op", "args", "n")

    def __repr__(self):
        return show(self)


_tab = {}


def T(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op = op
        t.args = args
        t.n = len(_tab)
        _tab[k] = t
    return t


def I(v):
    return T("int", v)


TRUE, FALSE = I(1), I(0)
UNIT = T("unit")


def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "…"
    op, a = t.op, t.args
    if op == "int":
        return str(a[0])
    if op == "str":
        return repr(a[0])
    if op == "acct":
        return a[0]
    if op == "arg":
        return "$" + str(a[0])
    if op == "ld":
        root, path, ver = a
        s = show(root, d + 1) + "".join("." + show(p, d + 1) for p in path)
        return s + ("" if ver is None else "'")
    if op == "obj":
        return "*" + show(a[0], d + 1)
    if op == "data":
        return "data(%s)" % show(a[0], d + 1)
    if op == "ref":
        return "&" + show(a[0], d + 1) + "".join("." + show(p, d + 1) for p in a[1])
    if op == "cell":
        return "c%s_%s" % a
    if op == "bin":
        return "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if op == "fld":
        return show(a[0], d + 1) + "." + show(a[1], d + 1)
    if op == "agg":
        return "%s{%s}" % (str(a[0]).split("::")[-1], ", ".join(show(x, d + 1) for x in a[2]))
    if op == "call":
        return "%s(%s)" % (short(a[0]), ", ".join(show(x, d + 1) for x in a[1]))
    return "%s(%s)" % (op, ", ".join(show(x, d + 1) for x in a))


def short(p):
    return "::".join(p.split("::")[-2:])


def subterms(t, seen=None):
    """All subterms (including through tuples)."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, Term) and x not in seen:
            seen.add(x)
            st.extend(x.args)
    return seen


def has_op(t, op):
    return any(x.op == op for x in subterms(t))
