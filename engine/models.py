"""Models of library calls whose meaning the analysis relies on (core, anchor, fixed)."""
from terms import T, I, Term, TRUE, FALSE, UNIT, subterms
import struct
import absint as A
from absint import agg, mk_ok, mk_err, mk_some, NONE, ERR, variant_of, mk_eq, mk_lt, mk_not, mk_bin, mk_alt

MODELS = {}


def model(*names, **kw):
    def d(f):
        if kw.get("force"):
            f.force = True
        for n in names:
            MODELS[n] = f
        return f
    return d


def ty0(K):
    a = K.get("args") or []
    return a[0] if a else ""


def is_result(t):
    return t.startswith("std::result::Result<")


def is_option(t):
    return t.startswith("std::option::Option<")


def split(an, st, fr, v, okname, kind):
    """Fork on a Result/Option value: [(state, 'ok', payload) | (state, 'bad', value)]."""
    if v.op == "alt":
        out = []
        for x in v.args:
            s = st.copy()
            an.subst(s, v, x)
            out += split(an, s, fr, x, okname, kind)
        return out
    vn = variant_of(v)
    if vn is not None:
        if vn == okname:
            return [(st, "ok", v.args[2][0])]
        return [(st, "bad", v)]
    d = T("disc", v)
    c = A.DISC[okname]
    g = an.eval_bool(st, T("eq", d, I(c)))
    out = []
    pay = T("fld", v, okname + ".0")
    if g is not False:
        s = st.copy() if g is None else st
        if an.assume(s, fr, T("eq", d, I(c)), True):
            out.append((s, "ok", pay))
    if g is not True:
        s = st
        if an.assume(s, fr, T("eq", d, I(1 - c)), True):
            out.append((s, "bad", v if kind == "opt" else ERR))
    return out


@model("std::ops::Try::branch")
def m_branch(an, fr, st, K, args, b):
    v = args[0]
    t = ty0(K)
    if is_option(t):
        return [(s, agg("std::ops::ControlFlow::Continue" if k == "ok" else "std::ops::ControlFlow::Break", ("0",), (x,)))
                for s, k, x in split(an, st, fr, v, "Some", "opt")]
    return [(s, agg("std::ops::ControlFlow::Continue" if k == "ok" else "std::ops::ControlFlow::Break", ("0",), (x,)))
            for s, k, x in split(an, st, fr, v, "Ok", "res")]


@model("std::ops::FromResidual::from_residual")
def m_fromres(an, fr, st, K, args, b):
    if is_option(ty0(K)):
        return [(st, NONE)]
    v = args[0]
    if variant_of(v) == "Err":
        return [(st, v)]
    return [(st, ERR)]


@model("std::option::Option::<T>::unwrap", "std::option::Option::<T>::expect", "std::option::Option::<T>::unwrap_unchecked")
def m_ounwrap(an, fr, st, K, args, b):
    return [(s, x) for s, k, x in split(an, st, fr, args[0], "Some", "opt") if k == "ok"]


@model("std::result::Result::<T, E>::unwrap", "std::result::Result::<T, E>::expect")
def m_runwrap(an, fr, st, K, args, b):
    return [(s, x) for s, k, x in split(an, st, fr, args[0], "Ok", "res") if k == "ok"]


def unw_or(kind, okn):
    def f(an, fr, st, K, args, b):
        return [(s, x if k == "ok" else args[1]) for s, k, x in split(an, st, fr, args[0], okn, kind)]
    return f


MODELS["std::option::Option::<T>::unwrap_or"] = unw_or("opt", "Some")
MODELS["std::result::Result::<T, E>::unwrap_or"] = unw_or("res", "Ok")


@model("std::option::Option::<T>::unwrap_or_else")
def m_unwrap_or_else(an, fr, st, K, args, b):
    out = []
    for s, k, x in split(an, st, fr, args[0], "Some", "opt"):
        if k == "ok":
            out.append((s, x))
        else:
            out += an.call_value(fr, s, args[1], [], ("uoe", b))
    return out


@model("std::option::Option::<T>::unwrap_or_default", "std::result::Result::<T, E>::unwrap_or_default")
def m_unwrap_or_default(an, fr, st, K, args, b):
    okn = "Some" if "Option" in K["fn"] else "Ok"
    return [(s, x if k == "ok" else T("call", "default", (), None)) for s, k, x in split(an, st, fr, args[0], okn, "opt")]


@model("std::option::Option::<T>::is_some", "std::option::Option::<T>::is_none", "std::result::Result::<T, E>::is_ok", "std::result::Result::<T, E>::is_err")
def m_is(an, fr, st, K, args, b):
    v = an.deref(st, args[0])
    nm = K["fn"].split("::")[-1]
    okn = "Some" if "Option" in K["fn"] else "Ok"
    neg = nm in ("is_none", "is_err")

    def one(x):
        vn = variant_of(x)
        r = (TRUE if vn == okn else FALSE) if vn is not None else mk_eq(T("disc", x), I(A.DISC[okn]))
        return mk_not(r) if neg else r
    if v.op == "alt":
        out = []
        for x in v.args:
            s = st.copy()
            an.subst(s, v, x)
            out.append((s, one(x)))
        return out
    return [(st, one(v))]


@model("std::option::Option::<T>::as_ref", "std::option::Option::<T>::as_mut", "std::result::Result::<T, E>::as_ref",
       "std::option::Option::<T>::as_deref", "std::option::Option::<T>::as_deref_mut")
def m_asref(an, fr, st, K, args, b):
    v = an.deref(st, args[0])
    okn = "Some" if "Option" in K["fn"] else "Ok"
    root, path = an.deref_val(args[0])
    out = []
    for s, k, x in split(an, st, fr, v, okn, "opt"):
        if k == "ok":
            r = T("ref", root, path + (okn + ".0",), 1 if "mut" in K["fn"] else 0)
            out.append((s, mk_some(r) if okn == "Some" else mk_ok(r)))
        else:
            out.append((s, NONE if okn == "Some" else ERR))
    return out


@model("std::option::Option::<&T>::cloned", "std::option::Option::<&T>::copied", "std::option::Option::<&mut T>::copied")
def m_ocopied(an, fr, st, K, args, b):
    return [(s, mk_some(an.deref(s, x)) if k == "ok" else NONE) for s, k, x in split(an, st, fr, args[0], "Some", "opt")]


@model("std::option::Option::<T>::ok_or", "std::option::Option::<T>::ok_or_else")
def m_okor(an, fr, st, K, args, b):
    return [(s, mk_ok(x) if k == "ok" else ERR) for s, k, x in split(an, st, fr, args[0], "Some", "opt")]


@model("std::result::Result::<T, E>::map_err", "error::Contextable::with_context", "error::Contextable::context", force=True)
def m_maperr(an, fr, st, K, args, b):
    v = args[0]
    if variant_of(v) == "Err":
        return [(st, ERR)]
    return [(st, v)]


@model("std::result::Result::<T, E>::ok")
def m_rok(an, fr, st, K, args, b):
    return [(s, mk_some(x) if k == "ok" else NONE) for s, k, x in split(an, st, fr, args[0], "Ok", "res")]


def mapper(okn, wrap, flat):
    def f(an, fr, st, K, args, b):
        out = []
        for s, k, x in split(an, st, fr, args[0], okn, "opt"):
            if k == "ok":
                for s2, r in an.call_value(fr, s, args[1], [x], ("map", b)):
                    out.append((s2, r if flat else wrap(r)))
            else:
                out.append((s, NONE if okn == "Some" else ERR))
        return out
    return f


MODELS["std::option::Option::<T>::map"] = mapper("Some", mk_some, False)
MODELS["std::option::Option::<T>::and_then"] = mapper("Some", mk_some, True)
MODELS["std::result::Result::<T, E>::map"] = mapper("Ok", mk_ok, False)
MODELS["std::result::Result::<T, E>::and_then"] = mapper("Ok", mk_ok, True)


@model("std::option::Option::<T>::filter")
def m_ofilter(an, fr, st, K, args, b):
    out = []
    for s, k, x in split(an, st, fr, args[0], "Some", "opt"):
        if k != "ok":
            out.append((s, NONE))
            continue
        cell = T("cell", "flt%d" % fr.fid, b)
        s.mem[cell] = {(): x}
        for s2, r in an.call_value(fr, s, args[1], [T("ref", cell, (), 0)], ("flt", b)):
            for val in (True, False):
                e = an.eval_bool(s2, r)
                if e is not None and e != val:
                    continue
                s3 = s2.copy()
                if an.assume(s3, fr, r, val):
                    out.append((s3, mk_some(x) if val else NONE))
    return out


@model("std::option::Option::<T>::map_or")
def m_omapor(an, fr, st, K, args, b):
    out = []
    for s, k, x in split(an, st, fr, args[0], "Some", "opt"):
        if k == "ok":
            out += an.call_value(fr, s, args[2], [x], ("mo", b))
        else:
            out.append((s, args[1]))
    return out


@model("std::option::Option::<T>::or")
def m_oor(an, fr, st, K, args, b):
    return [(s, args[0] if k == "ok" else args[1]) for s, k, x in split(an, st, fr, args[0], "Some", "opt")]


@model("core::bool::<impl bool>::then_some", "core::bool::<impl bool>::then")
def m_then(an, fr, st, K, args, b):
    out = []
    for val in (True, False):
        r = an.eval_bool(st, args[0])
        if r is not None and r != val:
            continue
        s = st.copy()
        if an.assume(s, fr, args[0], val):
            if not val:
                out.append((s, NONE))
            elif K["fn"].endswith("then_some"):
                out.append((s, mk_some(args[1])))
            else:
                for s2, x in an.call_value(fr, s, args[1], [], ("then", b)):
                    out.append((s2, mk_some(x)))
    return out


# ---------- references, smart pointers, accounts
GUARDS = ("std::cell::Ref<", "std::cell::RefMut<")
WRAPS = ("anchor_lang::prelude::Account<", "anchor_lang::prelude::Program<", "anchor_lang::prelude::Signer<",
         "anchor_lang::prelude::UncheckedAccount<", "anchor_lang::prelude::SystemAccount<", "anchor_lang::prelude::Sysvar<",
         "anchor_lang::prelude::AccountLoader<")


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut",
       "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut")
def m_deref(an, fr, st, K, args, b):
    res = K.get("res") or ""
    if res in an.prog.fns:
        return None
    t = ty0(K)
    a = args[0]
    v = an.deref(st, a)
    mut = 1 if "mut" in K["fn"].split("::")[-1].lower() else 0
    if v.op == "guard":
        return [(st, T("ref", T("obj", T("data", v.args[0])), (), mut))]
    if v.op == "dynguard":
        return [(st, T("ref", T("obj", T("dyn", v.args[0])), (), mut))]
    if t.startswith(GUARDS):
        if v.op == "refguard":
            return [(st, v.args[0])]
        return [(st, T("ref", T("obj", T("data", v)), (), mut))]
    while v.op == "ref" and t.startswith("&"):
        t = t[1:].strip()
        if t.startswith("mut "):
            t = t[4:]
        a, v = v, an.deref(st, v)
    if t.startswith("std::boxed::Box<"):
        root, path = an.deref_val(v) if v.op != "acct" else an.deref_val(a)
        if v.op == "acct":
            return [(st, a)]
        return [(st, T("ref", root, path, mut))]
    if t.startswith(WRAPS) or v.op == "acct":
        if K["fn"].endswith("as_ref") and "AccountInfo" in (K.get("args") or ["", ""])[-1]:
            return [(st, T("ref", T("obj", T("val", T("ai", v))), (), 0))]
        if "UncheckedAccount" in t or "AccountInfo" in t or "Signer" in t or "SystemAccount" in t or "Program" in t:
            return [(st, T("ref", T("obj", T("val", T("ai", v))), (), 0))]
        return [(st, T("ref", T("obj", T("data", v)), (), mut))]
    return [(st, a)]


@model("anchor_lang::Key::key", "accounts_zerocopy::KeyedAccountReader::key", force=True)
def m_key(an, fr, st, K, args, b):
    if (K.get("res") or "") in an.prog.fns:
        # local KeyedAccountReader impls: &Pubkey of the wrapped account
        v = an.full_deref(st, args[0])
        return [(st, T("ref", T("obj", T("keyp", strip_ai(v))), (), 0))]
    t = ty0(K)
    v = an.full_deref(st, args[0])
    if K["fn"].startswith("accounts_zerocopy"):
        return [(st, T("ref", T("obj", T("keyp", strip_ai(v))), (), 0))]
    if t.endswith("Pubkey") or v.op == "key":
        return [(st, v)]
    return [(st, T("key", strip_ai(v)))]


def strip_ai(v):
    while True:
        if v.op == "ai":
            v = v.args[0]
        elif v.op == "guard" or v.op == "air":
            v = v.args[0]
        elif v.op == "agg" and v.args[0].endswith("AccountInfoRef") or v.op == "agg" and v.args[0].endswith("AccountInfoRefMut"):
            return v
        else:
            return v


@model("anchor_lang::ToAccountInfo::to_account_info")
def m_tai(an, fr, st, K, args, b):
    v = an.full_deref(st, args[0])
    return [(st, v if v.op == "ai" else T("ai", v))]


@model("anchor_lang::prelude::AccountLoader::<'info, T>::load", "anchor_lang::prelude::AccountLoader::<'info, T>::load_mut",
       "anchor_lang::prelude::AccountLoader::<'info, T>::load_init")
def m_load(an, fr, st, K, args, b):
    v = an.full_deref(st, args[0])
    mut = 0 if K["fn"].endswith("::load") else 1
    return [(st, mk_ok(T("guard", v, mut, "plain"))), (st.copy(), ERR)]


@model("accounts_zerocopy::LoadZeroCopyRef::load", "accounts_zerocopy::LoadMutZeroCopyRef::load_mut",
       "accounts_zerocopy::LoadZeroCopyRef::load_fully_unchecked", "accounts_zerocopy::LoadMutZeroCopyRef::load_mut_fully_unchecked", force=True)
def m_loadref(an, fr, st, K, args, b):
    v = strip_ai(an.full_deref(st, args[0]))
    return [(st, mk_ok(T("guard", v, 1 if "mut" in K["fn"] else 0, "plain"))), (st.copy(), ERR)]


@model("accounts_zerocopy::LoadZeroCopy::load", "accounts_zerocopy::LoadMutZeroCopy::load_mut",
       "accounts_zerocopy::LoadZeroCopy::load_fully_unchecked", "accounts_zerocopy::LoadMutZeroCopy::load_mut_fully_unchecked", force=True)
def m_loadzc(an, fr, st, K, args, b):
    v = strip_ai(an.full_deref(st, args[0]))
    return [(st, mk_ok(T("ref", T("obj", T("data", v)), (), 1 if "mut" in K["fn"] else 0))), (st.copy(), ERR)]


@model("accounts_zerocopy::AccountInfoRef::<'a, 'info>::borrow", "accounts_zerocopy::AccountInfoRefMut::<'a, 'info>::borrow", force=True)
def m_airborrow(an, fr, st, K, args, b):
    v = strip_ai(an.full_deref(st, args[0]))
    return [(st, mk_ok(T("air", v))), (st.copy(), ERR)]


@model("state::mango_account::MangoAccountLoader::load_full", "state::mango_account::MangoAccountLoader::load_full_mut",
       "state::mango_account::MangoAccountLoader::load_full_init", force=True)
def m_loadfull(an, fr, st, K, args, b):
    v = an.full_deref(st, args[0])
    mut = 0 if K["fn"].endswith("load_full") else 1
    d = agg("state::dynamic_account::DynamicAccount", ("header", "fixed", "dynamic"),
            (T("hdr", v), T("guard", v, mut, "full"), T("dynguard", v, mut)))
    return [(st, mk_ok(d)), (st.copy(), ERR)]


@model("state::dynamic_account::DerefOrBorrow::deref_or_borrow", "state::dynamic_account::DerefOrBorrowMut::deref_or_borrow_mut", force=True)
def m_dob(an, fr, st, K, args, b):
    v = an.deref(st, args[0])
    mut = 1 if K["fn"].endswith("mut") else 0
    if v.op == "guard":
        return [(st, T("ref", T("obj", T("data", v.args[0])), (), mut))]
    if v.op == "dynguard":
        return [(st, T("ref", T("obj", T("dyn", v.args[0])), (), mut))]
    if v.op == "ref":
        return [(st, v)]
    return [(st, args[0])]


@model("anchor_lang::Accounts::try_accounts")
def m_try_accounts(an, fr, st, K, args, b):
    if (K.get("res") or "") in an.prog.fns:
        return None
    r = T("newacct", ty0(K), fr.fid, b)
    return [(st, mk_ok(r)), (st.copy(), ERR)]


@model("anchor_lang::context::Context::<'a, 'b, 'c, 'info, T>::new")
def m_ctx(an, fr, st, K, args, b):
    return [(st, agg("Context", ("program_id", "accounts", "remaining_accounts", "bumps"), args))]


@model("anchor_lang::context::CpiContext::<'a, 'b, 'c, 'info, T>::new")
def m_cpi(an, fr, st, K, args, b):
    return [(st, agg("CpiContext", ("program", "accounts", "signer_seeds"), (args[0], args[1], NONE)))]


@model("anchor_lang::context::CpiContext::<'a, 'b, 'c, 'info, T>::new_with_signer")
def m_cpis(an, fr, st, K, args, b):
    return [(st, agg("CpiContext", ("program", "accounts", "signer_seeds"), (args[0], args[1], args[2])))]


@model("anchor_lang::context::CpiContext::<'a, 'b, 'c, 'info, T>::with_signer")
def m_withsigner(an, fr, st, K, args, b):
    v = args[0]
    return [(st, agg("CpiContext", ("program", "accounts", "signer_seeds"), (an.proj1(v, "program"), an.proj1(v, "accounts"), args[1])))]


# ---------- values
@model("std::clone::Clone::clone")
def m_clone(an, fr, st, K, args, b):
    return [(st, an.deref(st, args[0]))]


@model("std::convert::identity", "std::hint::must_use", "std::iter::Iterator::by_ref")
def m_id(an, fr, st, K, args, b):
    return [(st, args[0])]


@model("std::boxed::Box::<T>::new")
def m_box(an, fr, st, K, args, b):
    return [(st, T("ref", T("obj", T("val", args[0])), (), 1))]


@model("std::convert::From::from", "std::convert::Into::into")
def m_into(an, fr, st, K, args, b):
    if (K.get("res") or "") in an.prog.fns:
        return None
    a = K.get("args") or []
    dst = a[0] if K["fn"].endswith("from") else (a[1] if len(a) > 1 else "")
    src = (a[1] if len(a) > 1 else "") if K["fn"].endswith("from") else (a[0] if a else "")
    if "Error" in dst:
        return [(st, T("error"))]
    if src == dst:
        return [(st, args[0])]
    if "I80F48" in dst:
        return [(st, num(args[0], src))]
    if dst in A.INT_TYS or dst in ("f32", "f64"):
        if args[0].op == "int" or src in A.INT_TYS:
            return [(st, args[0] if args[0].op == "int" else T("cast", dst, args[0]))]
        return [(st, T("into", dst, args[0]))]
    return [(st, T("into", dst, args[0]))]


INTEGRAL = set()     # terms that were converted from an integer type


def num(x, ty=""):
    if x.op in ("num",):
        return x
    if ty in A.INT_TYS:
        INTEGRAL.add(x)
    if ty in ("f32", "f64") and x.op == "int" and 0 <= x.args[0] < 1 << (64 if ty == "f64" else 32):
        # float constants come as bit patterns
        v = struct.unpack("<d" if ty == "f64" else "<f", x.args[0].to_bytes(8 if ty == "f64" else 4, "little"))[0]
        if v - v != 0:
            return T("num", x)
        return T("num", T("int", int(v))) if v == int(v) else T("fx", int(v * (1 << 48)))
    return T("num", x)


@model("fixed::I80F48::from_num", "fixed::I80F48::from")
def m_num(an, fr, st, K, args, b):
    return [(st, num(args[0], ty0(K)))]


@model("fixed::I80F48::to_num")
def m_tonum(an, fr, st, K, args, b):
    return [(st, T("to_num", ty0(K), args[0]))]


@model("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def m_tryinto(an, fr, st, K, args, b):
    if (K.get("res") or "") in an.prog.fns:
        return None
    a = K.get("args") or []
    if all(x in A.INT_TYS for x in a[:2]) and len(a) > 1:
        return [(st, mk_ok(args[0])), (st.copy(), ERR)]
    return [(st, mk_ok(T("call", "try_into", (a[1] if len(a) > 1 else "", an.full_deref(st, args[0])), None))), (st.copy(), ERR)]


def cmpm(op):
    def f(an, fr, st, K, args, b):
        x, y = an.full_deref(st, args[0]), an.full_deref(st, args[1])
        if op in ("Eq", "Ne"):
            r = enum_eq(an, K, x, y)
        else:
            r = mk_bin(op, x, y)
        if op == "Ne":
            r = mk_not(r)
        return [(st, r)]
    f.force = True
    return f


def enum_eq(an, K, x, y):
    t = ty0(K).replace("&", "").split("<")[0].strip()
    ad = an.prog.adts.get(t)
    if ad and ad.get("kind") == "enum":
        vs = [[v[1], v[0]] for v in ad["variants"]]
        if not any(v[2] for v in ad["variants"]):
            return mk_eq(an.disc(x, vs), an.disc(y, vs))
    if is_option(t + "<") and variant_of(x) == "None" or variant_of(y) == "None":
        o = x if variant_of(y) == "None" else y
        if variant_of(o) is None:
            return mk_eq(T("disc", o), I(0))
    return mk_eq(x, y)


for _n, _o in (("eq", "Eq"), ("ne", "Ne")):
    MODELS["std::cmp::PartialEq::" + _n] = cmpm(_o)
for _n, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    MODELS["std::cmp::PartialOrd::" + _n] = cmpm(_o)


@model("std::cmp::Ord::min", "std::cmp::min", "core::f64::<impl f64>::min", "core::f32::<impl f32>::min")
def m_min(an, fr, st, K, args, b):
    return [(st, mk_bin("Min", args[0], args[1]) if args[0] is not args[1] else args[0])]


@model("std::cmp::Ord::max", "std::cmp::max", "core::f64::<impl f64>::max", "core::f32::<impl f32>::max")
def m_max(an, fr, st, K, args, b):
    return [(st, mk_bin("Max", args[0], args[1]) if args[0] is not args[1] else args[0])]


for _n in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "Shl", "Shr"):
    def _mk(o):
        def f(an, fr, st, K, args, b):
            if (K.get("res") or "") in an.prog.fns:
                return None
            return [(st, mk_bin(o, an.full_deref(st, args[0]), an.full_deref(st, args[1])))]

        def g(an, fr, st, K, args, b):
            p = an.deref_val(args[0])
            v = mk_bin(o, an.read(st, p), an.full_deref(st, args[1]))
            m = (an.rule.on_write if p[0].op == "obj" else an.rule.on_local)(an, st, fr, p, v)
            if m is not None:
                st.marks = m
            an.write(st, p, v)
            return [(st, UNIT)]
        return f, g
    _f, _g = _mk(_n)
    low = {"BitAnd": "bitand", "BitOr": "bitor"}.get(_n, _n.lower())
    MODELS["std::ops::%s::%s" % (_n, low)] = _f
    MODELS["std::ops::%sAssign::%s_assign" % (_n, low)] = _g


@model("std::ops::Neg::neg")
def m_neg(an, fr, st, K, args, b):
    v = args[0]
    if v.op == "un" and v.args[0] == "Neg":
        return [(st, v.args[1])]
    return [(st, T("un", "Neg", v))]


@model("std::ops::Not::not")
def m_not(an, fr, st, K, args, b):
    return [(st, mk_not(args[0]))]


@model("fixed::I80F48::is_negative", "core::num::<impl i64>::is_negative", "core::num::<impl i128>::is_negative")
def m_isneg(an, fr, st, K, args, b):
    return [(st, mk_lt(an.full_deref(st, args[0]), I(0)))]


@model("fixed::I80F48::is_positive", "core::num::<impl i64>::is_positive")
def m_ispos(an, fr, st, K, args, b):
    return [(st, mk_lt(I(0), an.full_deref(st, args[0])))]


@model("fixed::I80F48::is_zero")
def m_iszero(an, fr, st, K, args, b):
    return [(st, mk_eq(an.full_deref(st, args[0]), I(0)))]


@model("core::num::<impl i64>::signum")
def m_signum(an, fr, st, K, args, b):
    if not getattr(an.rule, "signs", False):
        return None
    v = an.full_deref(st, args[0])
    if v.op == "int":
        return [(st, I((v.args[0] > 0) - (v.args[0] < 0)))]
    out = [(s, I(1)) for s in an.branch_states(st.copy(), fr, mk_lt(I(0), v), True)]
    for s in an.branch_states(st.copy(), fr, mk_lt(I(0), v), False):
        out += [(s2, I(-1)) for s2 in an.branch_states(s.copy(), fr, mk_lt(v, I(0)), True)]
        out += [(s2, I(0)) for s2 in an.branch_states(s.copy(), fr, mk_lt(v, I(0)), False)]
    return out


@model("std::mem::drop", "solana_program::log::sol_log", "solana_program::log::sol_log_compute_units")
def m_nop(an, fr, st, K, args, b):
    return [(st, UNIT)]


@model("std::mem::take")
def m_take(an, fr, st, K, args, b):
    p = an.deref_val(args[0])
    v = an.read(st, p)
    an.write(st, p, T("call", "default", (), None))
    return [(st, v)]


@model("std::mem::replace")
def m_replace(an, fr, st, K, args, b):
    p = an.deref_val(args[0])
    v = an.read(st, p)
    if p[0].op == "obj":
        m = an.rule.on_write(an, st, fr, p, args[1])
        if m is not None:
            st.marks = m
    an.write(st, p, args[1])
    return [(st, v)]


# ---------- slices, iterators
def elements(an, fr, st, it, site):
    """What an iterator chain yields from one element of its source: [(state, value or None when it is passed over)]."""
    if it.op == "itad" and it.args[0] in ("map", "filter", "filter_map"):
        k, (src, f) = it.args
        out = []
        for s, v in elements(an, fr, st, src, site):
            if v is None:
                out.append((s, None))
                continue
            a = v
            if k == "filter":
                cell = T("cell", "flt%d" % fr.fid, site)
                s.mem[cell] = {(): v}
                a = T("ref", cell, (), 0)
            r = an.call_value(fr, s, f, [a], ("it", k, site))
            if r is None:
                return [(st, T("item", it, site))]
            for s2, y in r:
                if k == "map":
                    out.append((s2, y))
                elif k == "filter_map":
                    if y.op == "agg":
                        out.append((s2, y.args[2][0] if variant_of(y) == "Some" else None))
                    else:
                        for w in ("Some", "None"):
                            s3 = s2.copy()
                            out.append((s3, T("fld", y, "Some", 0) if w == "Some" else None))
                else:
                    for val in (True, False):
                        out += [(s3, v if val else None) for s3 in an.branch_states(s2.copy(), fr, y, val)]
        return out
    return [(st, item(an, st, it, site))]


@model("std::iter::Iterator::map", "std::iter::Iterator::filter", "std::iter::Iterator::filter_map")
def m_lazy(an, fr, st, K, args, b):
    return [(st, T("itad", K["fn"].split("::")[-1], tuple(args)))] if an.rule.lazy else None


@model("std::iter::Iterator::for_each")
def m_foreach(an, fr, st, K, args, b):
    return an.rule.on_foreach(an, fr, st, args[0], args[1], b) if an.rule.lazy else None


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def m_copy(an, fr, st, K, args, b):
    """A whole local array takes the content of the slice."""
    d = args[0]
    if d.op == "ref" and d.args[0].op == "cell" and d.args[1] == ():
        v = an.full_deref(st, args[1])
        an.write(st, (d.args[0], ()), v)
        return [(st, UNIT)]
    return None


@model("std::iter::Iterator::any", "std::iter::Iterator::all")
def m_any(an, fr, st, K, args, b):
    """Rules that follow what holds for every element see the closure run on one."""
    f = getattr(an.rule, "on_any", None)
    return f(an, fr, st, args[0], args[1], b, K["fn"].endswith("::all")) if f else None


@model("std::iter::Iterator::find", "std::iter::Iterator::position")
def m_find(an, fr, st, K, args, b):
    """Rules that follow elements see the closure accept the one that is found."""
    f = getattr(an.rule, "on_find", None)
    if not f:
        return None
    site = T("site", fr.fid, b)
    it = an.full_deref(st, args[0])
    rest = st.copy()
    hits = f(an, fr, st, it, args[1], b)
    return [(s, mk_some(T("idxof", it, site) if K["fn"].endswith("position") else v)) for s, v in hits] + [(rest, NONE)]


@model("std::iter::Iterator::find_map")
def m_find_map(an, fr, st, K, args, b):
    """Rules that follow elements see the closure give something for the one that is found."""
    f = getattr(an.rule, "on_find_map", None)
    if not f:
        return None
    rest = st.copy()
    return f(an, fr, st, an.full_deref(st, args[0]), args[1], b) + [(rest, NONE)]


@model("std::iter::Iterator::sum")
def m_sum(an, fr, st, K, args, b):
    return an.rule.on_sum(an, fr, st, args[0], b) if an.rule.lazy else None


@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "std::iter::IntoIterator::into_iter")
def m_iter(an, fr, st, K, args, b):
    if (K.get("res") or "") in an.prog.fns:
        return None
    v = args[0]
    if K["fn"].endswith("into_iter") and v.op in ("iter", "agg", "itad"):
        return [(st, v)]
    return [(st, T("iter", v))]


@model("std::iter::Iterator::zip", "std::iter::Iterator::enumerate", "std::iter::Iterator::rev", "std::iter::Iterator::skip",
       "std::iter::Iterator::take", "std::iter::Iterator::copied", "std::iter::Iterator::cloned", "std::iter::Iterator::chain")
def m_itad(an, fr, st, K, args, b):
    return [(st, T("itad", K["fn"].split("::")[-1], tuple(args)))]


def item(an, st, it, site):
    """Abstract element of an iterator term."""
    if it.op == "itad":
        k, a = it.args
        if k == "zip":
            y = a[1] if a[1].op in ("iter", "itad") else T("iter", a[1])
            return agg("tup", (), (item(an, st, a[0], site), item(an, st, y, site)))
        if k == "enumerate":
            return agg("tup", (), (T("idxof", a[0], site), item(an, st, a[0], site)))
        if k in ("copied", "cloned"):
            return an.deref(st, item(an, st, a[0], site))
        return item(an, st, a[0], site)
    if it.op == "iter" and it.args[0].op == "ref":
        r = it.args[0]
        return T("ref", r.args[0], r.args[1] + (T("idx", T("each", site)),), r.args[2])
    return T("item", it, site)


def fresh_element(st, site):
    """The next element is another one: forget what is known about the element of the previous iteration."""
    e = T("each", site)

    def of(t):
        return any(x is e for x in subterms(t))
    for r in list(st.mem):
        if r.op == "obj" and of(r):
            del st.mem[r]
            st.ver[r] = T("iver", site)
    for f in [f for f in st.facts if of(f)]:
        del st.facts[f]


@model("std::iter::Iterator::next")
def m_next(an, fr, st, K, args, b):
    it = an.full_deref(st, args[0])
    site = T("site", fr.fid, b)
    if (K.get("res") or "") in an.prog.fns:
        return None
    if it.op in ("iter", "itad"):
        end = st.copy()
        fresh_element(st, site)
        if an.rule.lazy:
            out = []
            for s, v in elements(an, fr, st, it, site):
                if v is None:
                    an.rule.on_skip(an, s, fr, site)
                else:
                    out.append((s, mk_some(v)))
            return out + [(end, NONE)]
        return [(st, mk_some(item(an, st, it, site))), (end, NONE)]
    if it.op == "agg" and it.args[0].endswith("Range"):
        return [(st, mk_some(T("each", site, it))), (st.copy(), NONE)]
    if it.op == "agg" and it.args[0].endswith("RangeFrom"):
        return [(st, mk_some(T("each", site, it)))]
    return [(st, mk_some(T("item", it, site))), (st.copy(), NONE)]


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(an, fr, st, K, args, b):
    if (K.get("res") or "") in an.prog.fns:
        return None
    a = args[0]
    if a.op == "ref":
        idx = args[1]
        if idx.op == "agg" and idx.args[0].endswith("RangeFull"):
            return [(st, a)]
        return [(st, T("ref", a.args[0], a.args[1] + (T("idx", idx),), a.args[2]))]
    return [(st, T("ref", T("obj", a), (T("idx", args[1]),), 0))]


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last")
def m_get(an, fr, st, K, args, b):
    root, path = an.deref_val(args[0])
    i = args[1] if len(args) > 1 else T(K["fn"].split("::")[-1])
    return [(st, mk_some(T("ref", root, path + (T("idx", i),), 1 if "mut" in K["fn"] else 0))), (st.copy(), NONE)]


@model("core::slice::<impl [T]>::len", "std::vec::Vec::<T, A>::len")
def m_len(an, fr, st, K, args, b):
    v = an.full_deref(st, args[0])
    while v.op == "upd" and an.rule.lazy:
        v = v.args[0]           # writing elements leaves the length alone
    return [(st, T("len", v))]


@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::vec::Vec::<T, A>::with_capacity")
def m_vnew(an, fr, st, K, args, b):
    return [(st, T("vec", T("site", fr.fid, b)))]


@model("core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_display", "std::fmt::Arguments::<'a>::new",
       "std::fmt::format", "std::string::ToString::to_string", "std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst",
       "anchor_lang::error::Error::with_account_name", "anchor_lang::error::Error::with_pubkeys", "anchor_lang::error::Error::with_values",
       "anchor_lang::error::ErrorCode::name", "error::MangoError::name", force=True)
def m_fmt(an, fr, st, K, args, b):
    return [(st, T("error"))]


@model("core::panicking::panic", "core::panicking::assert_failed", "core::panicking::panic_fmt", "core::panicking::unreachable_display", "std::rt::begin_panic", "std::rt::panic_fmt")
def m_panic(an, fr, st, K, args, b):
    return []


@model("std::intrinsics::discriminant_value", "std::mem::discriminant")
def m_discv(an, fr, st, K, args, b):
    return [(st, T("disc", an.full_deref(st, args[0])))]


@model("std::cell::Ref::<'b, T>::map", "std::cell::RefMut::<'b, T>::map")
def m_refmap(an, fr, st, K, args, b):
    g = args[0]
    if g.op == "guard":
        base = T("ref", T("obj", T("data", g.args[0])), (), g.args[1])
    elif g.op == "refguard":
        base = g.args[0]
    else:
        base = T("ref", T("obj", T("data", g)), (), 1)
    return [(s, T("refguard", r)) for s, r in an.call_value(fr, st, args[1], [base], ("refmap", b))]


@model("bytemuck::from_bytes", "bytemuck::from_bytes_mut", "bytemuck::cast_slice", "bytemuck::cast_slice_mut", "bytemuck::try_from_bytes", "bytemuck::try_from_bytes_mut", force=True)
def m_bytemuck(an, fr, st, K, args, b):
    r = args[0]
    if r.op != "ref":
        return None
    t = "@" + (ty0(K).split("::")[-1] or "?") if "slice" not in K["fn"] else "@[%s]" % (K.get("args") or ["", ""])[-1].split("::")[-1]
    out = T("ref", r.args[0], r.args[1] + (t,), r.args[2])
    return [(st, mk_ok(out)), (st.copy(), ERR)] if "try_" in K["fn"] else [(st, out)]


@model("state::mango_account::get_helper", "state::mango_account::get_helper_mut", force=True)
def m_get_helper(an, fr, st, K, args, b):
    """The typed view of a dynamic-account slot; the type name keeps the slot kinds apart."""
    r = args[0]
    if r.op != "ref":
        return None
    return [(st, T("ref", r.args[0], r.args[1] + (T("idx", args[1]), "@" + ty0(K).split("::")[-1]), r.args[2]))]


@model("anchor_lang::Discriminator::discriminator", force=True)
def m_discr(an, fr, st, K, args, b):
    a = K.get("args") or []
    return [(st, T("discr", str(a[0])))] if len(a) == 1 else None
