"""Semantics of the library functions the code base calls, as value-graph models."""
from nodes import *
import engine as E

MODELS = {}
TRAIT_MODELS = {}
OPTION, RESULT = E.OPTION, E.RESULT


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
            if n.startswith('core::'):
                MODELS['std::' + n[6:]] = f
            if n.startswith('alloc::'):
                MODELS['std::' + n[7:]] = f
        return f
    return d


def tmodel(*names):
    def d(f):
        for n in names:
            TRAIT_MODELS[n] = f
        return f
    return d


def some(x):
    return AGG(OPTION, 1, (x,))


NONE = AGG(OPTION, 0, ())
ERRV = AGG(RESULT, 1, (E.ERR,))


def ok(x):
    return AGG(RESULT, 0, (x,))


def payload(eng, v, variant, ty):
    """contents of variant, assuming v is that variant"""
    if v.op == 'ite':
        d = eng.discr(v)
        want = EQ0(SUB(d, C(variant)))
        v = constrain(v, want) if want is not FALSE else v
        if v.op == 'ite':
            return lift(lambda x: payload(eng, x, variant, ty), v)
    v2 = eng.proj(v, ('d', variant))
    return eng.proj(v2, ('f', 0, ty))


def isvar(eng, v, variant):
    return EQ0(SUB(eng.discr(v), C(variant)))


# ------------------------------------------------------------------ Option / Result
@model('core::option::Option::unwrap', 'core::option::Option::expect')
def _(c):
    return payload(c.eng, c.rd(0), 1, c.dty)


@model('core::result::Result::unwrap', 'core::result::Result::expect')
def _(c):
    return payload(c.eng, c.rd(0), 0, c.dty)


@model('core::option::Option::is_some')
def _(c):
    return isvar(c.eng, c.rd(0), 1)


@model('core::option::Option::is_none')
def _(c):
    return isvar(c.eng, c.rd(0), 0)


@model('core::result::Result::is_ok')
def _(c):
    return isvar(c.eng, c.rd(0), 0)


@model('core::result::Result::is_err')
def _(c):
    return isvar(c.eng, c.rd(0), 1)


def inner_ty(c, i=0):
    try:
        t = c.eng.p.types[c.aty[0]]
        while t[0] in ('ref',):
            t = c.eng.p.types[t[1]]
        return c.eng.tystr(t[2][i])
    except Exception:
        return None


@model('core::option::Option::ok_or', 'core::option::Option::ok_or_else')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 1)
    return ITE(s, ok(payload(c.eng, v, 1, inner_ty(c))) if s is not FALSE else ERRV, ERRV)


@model('core::result::Result::map_err')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 0)
    return ITE(s, ok(payload(c.eng, v, 0, inner_ty(c))) if s is not FALSE else ERRV, ERRV)


@model('core::result::Result::ok')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 0)
    return ITE(s, some(payload(c.eng, v, 0, inner_ty(c))) if s is not FALSE else NONE, NONE)


@model('core::option::Option::unwrap_or')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 1)
    return ITE(s, payload(c.eng, v, 1, c.dty), c.av[1])


@model('core::result::Result::unwrap_or')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 0)
    return ITE(s, payload(c.eng, v, 0, c.dty), c.av[1])


def branchcall(c, cond, fv, args):
    """call fv(args) under cond; returns value (state merged)"""
    if cond is FALSE:
        return None
    st = c.st
    s1 = st.copy()
    s1.guard = AND(st.guard, cond)
    if s1.guard is FALSE:
        return None
    try:
        r = c.eng.callvalue(s1, fv, args)
    except E.Diverged:
        return None
    s0 = st.copy()
    s0.guard = AND(st.guard, NOT(cond))
    j = E.join([s1, s0]) if s0.guard is not FALSE else s1
    st.mem, st.guard = j.mem, j.guard
    return r


@model('core::option::Option::map')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 1)
    r = branchcall(c, s, c.av[1], [payload(c.eng, v, 1, inner_ty(c))])
    return NONE if r is None else ITE(s, some(r), NONE)


@model('core::option::Option::and_then')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 1)
    r = branchcall(c, s, c.av[1], [payload(c.eng, v, 1, inner_ty(c))])
    return NONE if r is None else ITE(s, r, NONE)


@model('core::result::Result::map')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 0)
    r = branchcall(c, s, c.av[1], [payload(c.eng, v, 0, inner_ty(c))])
    return ERRV if r is None else ITE(s, ok(r), ERRV)


@model('core::result::Result::and_then')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 0)
    r = branchcall(c, s, c.av[1], [payload(c.eng, v, 0, inner_ty(c))])
    return ERRV if r is None else ITE(s, r, ERRV)


@model('core::option::Option::map_or')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 1)
    r = branchcall(c, s, c.av[2], [payload(c.eng, v, 1, inner_ty(c))])
    return c.av[1] if r is None else ITE(s, r, c.av[1])


@model('core::option::Option::unwrap_or_else')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 1)
    r = branchcall(c, NOT(s), c.av[1], [])
    p = payload(c.eng, v, 1, c.dty)
    return p if r is None else ITE(s, p, r)


@model('core::result::Result::unwrap_or_else')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 0)
    r = branchcall(c, NOT(s), c.av[1], [E.ERR])
    p = payload(c.eng, v, 0, c.dty)
    return p if r is None else ITE(s, p, r)


@model('core::result::Result::or_else')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 0)
    r = branchcall(c, NOT(s), c.av[1], [E.ERR])
    return v if r is None else ITE(s, v, r)


@model('core::option::Option::or_else')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 1)
    r = branchcall(c, NOT(s), c.av[1], [])
    return v if r is None else ITE(s, v, r)


@model('core::option::Option::or')
def _(c):
    v = c.rd(0)
    return ITE(isvar(c.eng, v, 1), v, c.av[1])


@model('core::result::Result::or')
def _(c):
    v = c.rd(0)
    return ITE(isvar(c.eng, v, 0), v, c.av[1])


@model('core::option::Option::and')
def _(c):
    return ITE(isvar(c.eng, c.rd(0), 1), c.av[1], NONE)


@model('core::result::Result::and')
def _(c):
    return ITE(isvar(c.eng, c.rd(0), 0), c.av[1], ERRV)


@model('core::option::Option::filter')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 1)
    x = payload(c.eng, v, 1, inner_ty(c))
    r = branchcall(c, s, c.av[1], [c.eng.newheap(c.st, x)])
    return NONE if r is None else ITE(AND(s, r), v, NONE)


@model('core::option::Option::is_some_and', 'core::result::Result::is_ok_and')
def _(c):
    v = c.rd(0)
    i = 1 if 'option' in c.path else 0
    s = isvar(c.eng, v, i)
    r = branchcall(c, s, c.av[1], [payload(c.eng, v, i, inner_ty(c))])
    return FALSE if r is None else AND(s, r)


@model('core::option::Option::is_none_or')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 1)
    r = branchcall(c, s, c.av[1], [payload(c.eng, v, 1, inner_ty(c))])
    return NOT(s) if r is None else OR(NOT(s), r)


@model('core::option::Option::map_or_else')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 1)
    r = branchcall(c, s, c.av[2], [payload(c.eng, v, 1, inner_ty(c))])
    d = branchcall(c, NOT(s), c.av[1], [])
    return d if r is None else r if d is None else ITE(s, r, d)


@model('core::result::Result::map_or')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 0)
    r = branchcall(c, s, c.av[2], [payload(c.eng, v, 0, inner_ty(c))])
    return c.av[1] if r is None else ITE(s, r, c.av[1])


@model('core::result::Result::map_or_else')
def _(c):
    v = c.rd(0)
    s = isvar(c.eng, v, 0)
    r = branchcall(c, s, c.av[2], [payload(c.eng, v, 0, inner_ty(c))])
    d = branchcall(c, NOT(s), c.av[1], [E.ERR])
    return d if r is None else r if d is None else ITE(s, r, d)


@model('core::option::Option::unwrap_or_default', 'core::result::Result::unwrap_or_default')
def _(c):
    v = c.rd(0)
    i = 1 if 'option' in c.path else 0
    d = ZERO if c.dty in WIDTH else FALSE if c.dty == 'bool' else None
    return None if d is None else ITE(isvar(c.eng, v, i), payload(c.eng, v, i, c.dty), d)


@model('core::option::Option::take')
def _(c):
    v = c.eng.read(c.st, c.av[0])
    c.eng.write(c.st, c.av[0], NONE)
    return v


@model('core::bool::then_some')
def _(c):
    return ITE(c.av[0], some(c.av[1]), NONE)


@model('core::bool::then')
def _(c):
    r = branchcall(c, c.av[0], c.av[1], [])
    return NONE if r is None else ITE(c.av[0], some(r), NONE)


@model('core::option::Option::as_ref', 'core::option::Option::as_mut', 'core::result::Result::as_ref',
       'core::option::Option::cloned', 'core::option::Option::copied')
def _(c):
    return c.rd(0)


@tmodel('core::ops::try_trait::Try::branch')
def _(c):
    CF = 'core::ops::control_flow::ControlFlow'
    v = c.rd(0)
    t = c.eng.p.types[c.aty[0]]
    if t[0] == 'adt' and t[1] == OPTION:
        s = isvar(c.eng, v, 1)
        return ITE(s, AGG(CF, 0, (payload(c.eng, v, 1, inner_ty(c)),)) if s is not FALSE else UNIT, AGG(CF, 1, (NONE,)))
    if t[0] == 'adt' and t[1] == RESULT:
        s = isvar(c.eng, v, 0)
        return ITE(s, AGG(CF, 0, (payload(c.eng, v, 0, inner_ty(c)),)) if s is not FALSE else UNIT, AGG(CF, 1, (ERRV,)))


@tmodel('core::ops::try_trait::FromResidual::from_residual')
def _(c):
    t = c.eng.p.types[c.dt] if c.dt is not None else None
    if t and t[0] == 'adt' and t[1] == OPTION:
        return NONE
    return ERRV


# ------------------------------------------------------------------ identity-like
@tmodel('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'core::convert::AsRef::as_ref',
        'core::borrow::Borrow::borrow', 'alloc::string::ToString::to_string', 'core::convert::Into::into')
def _(c):
    v = c.rd(0)
    t = c.eng.p.types[c.aty[0]]
    u = t
    while u[0] == 'ref':
        u = c.eng.p.types[u[1]]
    if c.q['id'].endswith('to_string') and u[0] not in ('str',) and not (u[0] == 'adt' and 'String' in u[1]):
        return mk('op', ('to_string', c.eng.freeze(c.st, v)), 'str')
    if c.q['id'].endswith('clone') and u[0] == 'closure':
        return v
    return v


@tmodel('core::convert::From::from')
def _(c):
    t = c.eng.p.types[c.aty[0]]
    s = c.eng.tystr(c.aty[0])
    if s in WIDTH and c.dty in WIDTH:
        return CAST(c.av[0], s, c.dty)
    if s in WIDTH and c.dty in ('f32', 'f64'):
        return mk('op', ('tofloat', c.av[0]), c.dty)
    return c.rd(0)


@model('core::hint::must_use', 'core::convert::identity', 'alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice',
       'alloc::string::String::as_str', 'core::str::as_bytes', 'alloc::vec::Vec::into_boxed_slice', 'alloc::str::into_string',
       'alloc::string::String::as_bytes', 'core::slice::to_vec', 'alloc::slice::to_vec', 'core::hint::black_box', 'core::mem::drop')
def _(c):
    if c.path.endswith('to_vec'):
        return c.rd(0) if c.av[0].op != 'ref' else c.eng.freeze(c.st, c.av[0])
    return c.av[0]


@tmodel('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut')
def _(c):
    b = c.eng.p.bodies.get(c.q['res']) if c.q['rlocal'] else None
    if b is not None:
        # lazy_static: value of its initialiser
        name = None
        if b.iself is not None:
            name = c.eng.p.tyname(b.iself)
        init = [x for x in c.eng.p.bodies.values() if x.id.startswith(b.id) and x.id.endswith('__static_ref_initialize')]
        if init and not (callable(c.eng.opaque_fns) and c.eng.opaque_fns(init[0].qual)):
            key = ('lazy', init[0].id)
            if key not in c.eng.constmemo:
                s2 = E.State({}, TRUE)
                ld = c.eng.loopdepth
                try:
                    r = c.eng.call_body(init[0], [], s2)
                    r = c.eng.freeze(s2, r)
                except (E.GiveUp, E.Diverged, TooBig):
                    r = mk('op', ('static', name))
                c.eng.constmemo[key] = r
            return c.eng.constmemo[key]
        return mk('op', ('static', name))
    return c.av[0]


@tmodel('alloc::fmt::format')
def _(c):
    return mk('op', ('fmt',), 'str')


@model('alloc::fmt::format', 'core::fmt::Arguments::new', 'core::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str_nonconst',
       'core::fmt::Arguments::new_v1', 'core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug',
       'core::fmt::rt::Argument::new_lower_hex', 'core::fmt::rt::Argument::new_upper_hex', 'core::fmt::Arguments::new_const')
def _(c):
    return mk('op', ('fmt',), 'str')


@model('std::io::_print', 'std::io::_eprint', 'std::io::stdio::_print', 'std::io::stdio::_eprint')
def _(c):
    return UNIT


# ------------------------------------------------------------------ boxes / vec
@model('alloc::boxed::Box::new')
def _(c):
    return c.eng.newheap(c.st, c.av[0])


@model('alloc::boxed::Box::new_uninit')
def _(c):
    return c.eng.newheap(c.st, UNIT)


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def _(c):
    return c.rd(0)


@model('alloc::vec::from_elem')
def _(c):
    v = c.av[0]
    return FILL(v, c.av[1])


@model('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity')
def _(c):
    return mk('arr', ((),))


@model('alloc::vec::Vec::push')
def _(c):
    old = c.eng.read(c.st, c.av[0])

    def f(o):
        if o.op == 'arr':
            return mk('arr', (o.a[0] + (c.av[1],),))
        return mk('push', (o, c.av[1]))
    c.eng.write(c.st, c.av[0], lift(f, old))
    return UNIT


@model('core::slice::len', 'alloc::vec::Vec::len')
def _(c):
    return c.eng.slicelen(c.st, c.av[0])


@model('core::slice::is_empty', 'alloc::vec::Vec::is_empty')
def _(c):
    return EQ0(c.eng.slicelen(c.st, c.av[0]))


@model('core::str::len', 'alloc::string::String::len')
def _(c):
    return length(c.rd(0))


RANGE = 'core::ops::range::Range'


def rangeof(c, r, n):
    """(offset, length) of a range value applied to something of length n"""
    def f(r):
        if r.op == 'agg':
            nm = r.a[0].split('::')[-1]
            fs = r.a[2]
            if nm == 'Range':
                return fs[0], SUB(fs[1], fs[0])
            if nm == 'RangeFrom':
                return fs[0], SUB(n, fs[0])
            if nm == 'RangeTo':
                return ZERO, fs[0]
            if nm == 'RangeFull':
                return ZERO, n
            if nm == 'RangeToInclusive':
                return ZERO, ADD(fs[0], ONE)
            if nm == 'RangeInclusive':
                return fs[0], ADD(SUB(fs[1], fs[0]), ONE)
        return None
    return f(r)


@tmodel('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def _(c):
    b = c.av[0]
    i = c.av[1]
    t = c.eng.p.types[c.aty[0]]
    u = t
    while u[0] == 'ref':
        u = c.eng.p.types[u[1]]
    if u[0] == 'adt' and 'HashMap' in u[1]:
        return mk('op', ('mapget', c.rd(0), c.rd(1)), c.dty)
    it = c.eng.p.types[c.aty[1]]
    if it[0] == 'uint':
        et = c.eng.elemty(c.aty[0])
        return c.eng.extend(b, ('i', i, et))
    # ranges
    if i.op == 'ite':
        return None
    # base may be ref to a cell holding a ref
    if b.op == 'ref':
        v = c.eng.read(c.st, b)
        if v.op == 'ref':
            b = v
    n = c.eng.slicelen(c.st, b)
    r = rangeof(c, i, n)
    if r is None:
        return None
    if u[0] == 'adt' and 'String' in u[1] or u[0] == 'str':
        return mk('op', ('substr', c.rd(0), r[0], r[1]), 'str')
    return c.eng.extend(b, ('r', r[0], r[1]))


@model('core::slice::first')
def _(c):
    n = c.eng.slicelen(c.st, c.av[0])
    return ITE(GE0(SUB(n, ONE)), some(c.eng.extend(c.av[0], ('i', ZERO, c.eng.elemty(c.aty[0])))), NONE)


@model('core::slice::last')
def _(c):
    n = c.eng.slicelen(c.st, c.av[0])
    return ITE(GE0(SUB(n, ONE)), some(c.eng.extend(c.av[0], ('i', SUB(n, ONE), c.eng.elemty(c.aty[0])))), NONE)


@model('core::slice::get', 'core::slice::get_mut')
def _(c):
    if c.eng.p.types[c.aty[1]][0] != 'uint':
        return None
    n = c.eng.slicelen(c.st, c.av[0])
    return ITE(NOT(GE0(SUB(c.av[1], n))), some(c.eng.extend(c.av[0], ('i', c.av[1], c.eng.elemty(c.aty[0])))), NONE)


@model('core::slice::swap')
def _(c):
    et = c.eng.elemty(c.aty[0])
    a = c.eng.extend(c.av[0], ('i', c.av[1], et))
    b = c.eng.extend(c.av[0], ('i', c.av[2], et))
    x, y = c.eng.read(c.st, a), c.eng.read(c.st, b)
    c.eng.write(c.st, a, y)
    c.eng.write(c.st, b, x)
    return UNIT


@model('core::mem::swap')
def _(c):
    x, y = c.eng.read(c.st, c.av[0]), c.eng.read(c.st, c.av[1])
    c.eng.write(c.st, c.av[0], y)
    c.eng.write(c.st, c.av[1], x)
    return UNIT


@model('core::mem::replace')
def _(c):
    x = c.eng.read(c.st, c.av[0])
    c.eng.write(c.st, c.av[0], c.av[1])
    return x


@model('core::slice::copy_from_slice', 'core::slice::clone_from_slice')
def _(c):
    dst, src = c.av[0], c.av[1]
    n = c.eng.slicelen(c.st, dst)
    et = c.eng.elemty(c.aty[0])
    return bulk(c, n, lambda s, k: c.eng.write(s, c.eng.extend(dst, ('i', k, et)), c.eng.read(s, c.eng.extend(src, ('i', k, et)))))


@model('core::slice::fill')
def _(c):
    dst = c.av[0]
    n = c.eng.slicelen(c.st, dst)
    et = c.eng.elemty(c.aty[0])
    return bulk(c, n, lambda s, k: c.eng.write(s, c.eng.extend(dst, ('i', k, et)), c.av[1]))


def bulk(c, n, f):
    """for k in 0..n { f(state,k) }"""
    r = c.eng.newheap(c.st, ZERO)

    def body(H):
        k = c.eng.read(H, r)
        cond = NOT(GE0(SUB(k, n)))
        s1 = H.copy()
        s1.guard = AND(H.guard, cond)
        outs, ex = [], []
        if s1.guard is not FALSE:
            f(s1, k)
            c.eng.write(s1, r, ADD(k, ONE))
            outs = [s1]
        s0 = H.copy()
        s0.guard = AND(H.guard, NOT(cond))
        if s0.guard is not FALSE:
            ex = [('x', s0)]
        return outs, ex
    res = c.eng.genloop(c.st.copy(), body)
    j = E.join([s for t, s in res])
    c.st.mem, c.st.guard = j.mem, j.guard
    return UNIT


# ------------------------------------------------------------------ numbers
@tmodel('core::cmp::min', 'core::cmp::Ord::min')
def _(c):
    return MIN(c.av[0], c.av[1], c.dty) if c.dty in WIDTH else None


@tmodel('core::cmp::max', 'core::cmp::Ord::max')
def _(c):
    return MAX(c.av[0], c.av[1], c.dty) if c.dty in WIDTH else None


@model('core::cmp::min', 'core::cmp::Ord::min')
def _(c):
    return MIN(c.av[0], c.av[1], c.dty) if c.dty in WIDTH else None


@model('core::cmp::max', 'core::cmp::Ord::max')
def _(c):
    return MAX(c.av[0], c.av[1], c.dty) if c.dty in WIDTH else None


def num(name):
    def f(c):
        return lift(lambda *x: mk('op', (name,) + x, c.dty), *c.av)
    return f


for _n in ('abs', 'powf', 'powi', 'fract', 'cbrt', 'floor', 'ceil', 'is_normal', 'sqrt', 'leading_zeros', 'round', 'trunc', 'exp', 'ln'):
    for _t in ('f32', 'f64', 'i32', 'u32', 'i16', 'i64', 'usize', 'isize', 'u16', 'u64', 'u8'):
        for _c in ('core', 'std'):
            MODELS['%s::%s::%s' % (_c, _t, _n)] = (lambda nm: lambda c: (lambda r: asdd(r) if c.dty == 'bool' and r.op != 'ite' else r)(num(nm)(c)))(_n)
            MODELS['%s::num::%s' % (_c, _n)] = num(_n)


def fminmax(nm):
    def f(c):
        def g(x, y):
            x, y = sorted((x, y), key=lambda z: z.dig)
            return mk('op', ('f' + nm, x, y), c.dty)
        return lift(g, c.av[0], c.av[1])
    return f


for _n in ('min', 'max'):
    for _c in ('core', 'std'):
        for _t in ('f32', 'f64'):
            MODELS['%s::%s::%s' % (_c, _t, _n)] = fminmax(_n)


def wrapping(op):
    def f(c):
        ty = c.dty
        r = {'add': ADD, 'sub': SUB, 'mul': MUL}[op](c.av[0], c.av[1], ty)
        return lift(lambda x: C(wrapint(x.a[0], ty)) if isc(x) else mk('op', ('wrap:' + ty, x), ty), r)
    return f


for _o in ('add', 'sub', 'mul'):
    MODELS['core::num::wrapping_' + _o] = wrapping(_o)
    MODELS['std::num::wrapping_' + _o] = wrapping(_o)


@model('core::num::wrapping_shl')
def _(c):
    return lift(lambda x, y: mk('op', ('wshl', x, y), c.dty), c.av[0], c.av[1])


@model('core::num::wrapping_shr')
def _(c):
    return lift(lambda x, y: mk('op', ('wshr', x, y), c.dty), c.av[0], c.av[1])


@model('core::num::from_be', 'core::num::to_be', 'core::num::swap_bytes')
def _(c):
    def f(x):
        b = bitsof(x)
        if b is None:
            return mk('op', ('bswap', x), c.dty)
        w = WIDTH[c.dty]
        b = b + [0] * (w - len(b))
        out = []
        for i in range(w // 8 - 1, -1, -1):
            out += b[8 * i:8 * i + 8]
        return frombits(out)
    return lift(f, c.av[0])


def streq(c, a, b):
    def f(x, y):
        if x.op == 'str' and y.op == 'str':
            return B(x.a[0] == y.a[0])
        if x.op == 'str':
            x, y = y, x
        elif y.op != 'str':
            x, y = sorted((x, y), key=lambda z: z.dig)
        if x.opq or y.opq:
            return asdd(opaque('string comparison', 'bool'))
        return asdd(mk('op', ('streq', x, y), 'bool'))
    return lift(f, a, b)


def valeq(c, a, b, ty):
    if ty in WIDTH or ty in ('f32', 'f64', 'bool'):
        return CMP('Eq', a, b, ty)
    if ty == 'str':
        return streq(c, a, b)
    if ty and ty.startswith('adt:'):
        ad = c.eng.p.adts.get(ty[4:])
        if ad and ad['kind'] == 'enum' and all(not v['fields'] for v in ad['variants']):
            return EQ0(SUB(c.eng.discr(a), c.eng.discr(b)))
    fa, fb = c.eng.freeze(c.st, a), c.eng.freeze(c.st, b)

    def aeq(x, y):
        if x is y:
            return TRUE
        if x.op == 'arr' and y.op == 'arr':
            if len(x.a[0]) != len(y.a[0]):
                return FALSE
            r = TRUE
            for p, q in zip(x.a[0], y.a[0]):
                r = AND(r, EQ0(SUB(p, q)) if p.op not in ('str', 'agg', 'arr') else streq(c, p, q))
            return r
        for p, q in ((x, y), (y, x)):
            if p.op == 'arr' and q.op in ('view', 'sym', 'op', 'load') and p.a[0] and all(isc(z) for z in p.a[0]):
                # comparing a slice with constant bytes: element-wise, when the length is fixed by the slice expression
                n = length(q)
                r = EQ0(SUB(n, C(len(p.a[0]))))
                for i, z in enumerate(p.a[0]):
                    r = AND(r, EQ0(SUB(load(q, C(i), 'u8'), z)))
                return r
        p, q = sorted((x, y), key=lambda z: z.dig)
        if p.opq or q.opq:
            return asdd(opaque('equality', 'bool'))
        return asdd(mk('op', ('eq', p, q), 'bool'))
    return lift(aeq, fa, fb)


@tmodel('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def _(c):
    a, b = c.rd(0), c.rd(1)
    ty = c.eng.tystr(c.aty[0])
    if c.av[0].op == 'ref' and c.av[0].a[1] and c.av[0].a[1][-1][0] == 'r':
        pass
    r = valeq(c, a, b, ty)
    return NOT(r) if c.q['id'].endswith('::ne') else r


@model('core::slice::starts_with')
def _(c):
    q = c.eng.freeze(c.st, c.av[1])
    if q.op == 'str':
        q = mk('arr', (tuple(C(b) for b in q.a[0].encode()),))
    if q.op != 'arr':
        return None
    r = GE0(SUB(c.eng.slicelen(c.st, c.av[0]), C(len(q.a[0]))))
    for i, z in enumerate(q.a[0]):
        x = c.eng.read(c.st, c.eng.extend(c.av[0], ('i', C(i), c.eng.elemty(c.aty[0]))))
        r = AND(r, EQ0(SUB(x, z)))
    return r


PRIM = ('f32', 'f64', 'bool', 'char')
_OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}


def primop(c):
    """operator traits on (references to) numbers"""
    nm = c.q['id'].split('::')[-1]
    ty = c.eng.tystr(c.aty[0])
    if ty not in WIDTH and ty not in PRIM:
        return None
    if nm.endswith('_assign'):
        if c.av[0].op != 'ref':
            return None
        c.eng.write(c.st, c.av[0], c.eng.binop(_OPS[nm[:-7]], c.rd(0), c.rd(1), ty))
        return UNIT
    return c.eng.binop(_OPS[nm], c.rd(0), c.rd(1), ty)


for _n in _OPS:
    for _m in ('arith', 'bit'):
        TRAIT_MODELS['core::ops::%s::%s::%s' % (_m, {'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}.get(_n, _n.title()), _n)] = primop
        TRAIT_MODELS['core::ops::%s::%sAssign::%s_assign' % (_m, {'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}.get(_n, _n.title()), _n)] = primop


@tmodel('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def _(c):
    ty = c.eng.tystr(c.aty[0])
    if ty not in WIDTH and ty not in PRIM:
        return None
    return CMP(c.q['id'].split('::')[-1].title(), c.rd(0), c.rd(1), ty)


# ------------------------------------------------------------------ byteorder
def rdint(n, be, ty):
    def f(c):
        base = c.av[0]
        bs = [c.eng.read(c.st, c.eng.extend(base, ('i', C(i), 'u8'))) for i in range(n)]
        if be:
            bs = bs[::-1]
        r = ZERO
        for i, x in enumerate(bs):
            r = BITOR(r, SHL(x, C(8 * i), 'u%d' % (8 * n)), 'u%d' % (8 * n))
        if ty.startswith('i'):
            r = CAST(r, 'u%d' % (8 * n), ty)
        if ty.startswith('f'):
            r = lift(lambda x: mk('op', ('frombits', x), ty), r)
        return r
    return f


def bo(c):
    nm = c.q['id'].split('::')[-1]
    res = c.q['res'] or ''
    # Self type argument says which
    t = c.eng.p.types[c.q['args'][0]] if c.q['args'] else None
    be = t is not None and t[0] == 'adt' and 'BigEndian' in t[1]
    le = t is not None and t[0] == 'adt' and 'LittleEndian' in t[1]
    if not (be or le):
        return None
    k = nm[5:]
    w = int(k[1:]) // 8
    return rdint(w, be, k)(c)


for _n in ('read_u16', 'read_u32', 'read_u64', 'read_i16', 'read_i32', 'read_f32', 'read_f64'):
    TRAIT_MODELS['byteorder::ByteOrder::' + _n] = bo


# ------------------------------------------------------------------ iterators
def seq(*a):
    return mk('seq', a)


def it(s, pos=ZERO):
    return mk('iter', (s, pos))


def toiter(c, v, av, ty=None):
    """IntoIterator on a value"""
    if v.op == 'iter':
        return v
    if v.op == 'agg':
        nm = v.a[0].split('::')[-1]
        if nm == 'Range':
            return it(seq('range', v.a[2][0], v.a[2][1]))
        if nm == 'RangeInclusive':
            return it(seq('range', v.a[2][0], ADD(v.a[2][1], ONE)))
        if nm == 'RangeFrom':
            return it(seq('from', v.a[2][0]))
        if v.a[0] == OPTION:
            return None
    return None


@tmodel('core::iter::traits::collect::IntoIterator::into_iter', 'rayon::iter::IntoParallelIterator::into_par_iter')
def _(c):
    v = c.av[0]
    if v.op == 'iter':
        return v
    x = c.rd(0)
    if x.op == 'iter':
        return x
    r = toiter(c, v if v.op == 'agg' else x, c.av[0])
    if r is not None:
        return r
    t = c.eng.p.types[c.aty[0]]
    u = t
    byref = False
    while u[0] == 'ref':
        byref = True
        u = c.eng.p.types[u[1]]
    if u[0] in ('slice', 'array') or (u[0] == 'adt' and u[1].endswith('vec::Vec')):
        base = v if byref else (v if v.op == 'ref' else c.eng.newheap(c.st, v))
        if base.op == 'ref':
            w = c.eng.read(c.st, base)
            if w.op == 'ref':
                base = w
        return it(seq('iter' if byref else 'own', base, c.eng.elemty(c.aty[0]) or ''))
    return None


def rangestep(c):
    pass


@model('core::slice::iter', 'core::slice::iter_mut', 'rayon::slice::ParallelSlice::par_iter')
def _(c):
    b = c.av[0]
    if b.op == 'ref':
        w = c.eng.read(c.st, b)
        if w.op == 'ref':
            b = w
    return it(seq('iter', b, c.eng.elemty(c.aty[0]) or ''))


@tmodel('rayon::iter::IntoParallelRefIterator::par_iter', 'rayon::iter::IntoParallelRefMutIterator::par_iter_mut')
def _(c):
    return it(seq('iter', c.av[0], c.eng.elemty(c.aty[0]) or ''))


@model('core::slice::chunks', 'core::slice::chunks_mut', 'core::slice::chunks_exact', 'core::slice::chunks_exact_mut')
def _(c):
    b = c.av[0]
    if b.op == 'ref':
        w = c.eng.read(c.st, b)
        if w.op == 'ref':
            b = w
    return it(seq('chunksx' if 'exact' in c.path else 'chunks', b, c.av[1]))


@tmodel('rayon::slice::ParallelSlice::par_chunks_mut', 'rayon::slice::ParallelSliceMut::par_chunks_mut', 'rayon::slice::ParallelSlice::par_chunks')
def _(c):
    b = c.av[0]
    if b.op == 'ref':
        w = c.eng.read(c.st, b)
        if w.op == 'ref':
            b = w
    return it(seq('chunks', b, c.av[1]))


@model('core::slice::windows')
def _(c):
    return it(seq('windows', c.av[0], c.av[1]))


def asit(c, i):
    v = c.av[i]
    if v.op == 'iter':
        return v
    x = c.rd(i)
    if x.op == 'iter':
        return x
    return toiter(c, x if x.op == 'agg' else v, v)


def adapter(f):
    def g(c):
        a = asit(c, 0)
        if a is None or not (isc(a.a[1]) and a.a[1].a[0] == 0):
            if a is None:
                return None
            a = it(seq('skip', a.a[0], a.a[1]))
        r = f(c, a.a[0])
        return it(r) if r is not None else None
    return g


for _nm, _f in {
    'enumerate': lambda c, s: seq('enum', s),
    'rev': lambda c, s: seq('rev', s),
    'cloned': lambda c, s: seq('deref', s),
    'copied': lambda c, s: seq('deref', s),
    'step_by': lambda c, s: seq('step', s, c.av[1]),
    'step': lambda c, s: seq('step', s, c.av[1]),
    'take': lambda c, s: seq('take', s, c.av[1]),
    'skip': lambda c, s: seq('skip', s, c.av[1]),
    'map': lambda c, s: seq('map', s, c.av[1]),
    'by_ref': lambda c, s: None,
}.items():
    for _p in ('core::iter::traits::iterator::Iterator::', 'rayon::iter::IndexedParallelIterator::', 'rayon::iter::ParallelIterator::',
               'itertools::Itertools::'):
        TRAIT_MODELS[_p + _nm] = adapter(_f)


@tmodel('core::iter::traits::iterator::Iterator::zip', 'rayon::iter::IndexedParallelIterator::zip', 'itertools::Itertools::zip')
def _(c):
    a = asit(c, 0)
    b = c.av[1]
    if b.op != 'iter':
        c2 = E.CallCtx(c.eng, c.fr, c.st, c.q, [b], [c.aty[1]], c.dty, c.dt, c.span, c.path)
        b = TRAIT_MODELS['core::iter::traits::collect::IntoIterator::into_iter'](c2)
    if a is None or b is None:
        return None

    def norm(a):
        if isc(a.a[1]) and a.a[1].a[0] == 0:
            return a.a[0]
        return seq('skip', a.a[0], a.a[1])
    return it(seq('zip', norm(a), norm(b)))


def seqlen(eng, st, s):
    k = s.a[0]
    if k == 'range':
        return SUB(s.a[2], s.a[1])
    if k in ('iter', 'own'):
        return eng.slicelen(st, s.a[1])
    if k in ('enum', 'map', 'deref', 'rev'):
        return seqlen(eng, st, s.a[1])
    if k == 'chunks':
        n = eng.slicelen(st, s.a[1])
        return DIV(ADD(n, SUB(s.a[2], ONE)), s.a[2], 'usize')
    if k == 'zip':
        return MIN(seqlen(eng, st, s.a[1]), seqlen(eng, st, s.a[2]))
    if k == 'skip':
        return SUB(seqlen(eng, st, s.a[1]), s.a[2])
    if k == 'take':
        return MIN(seqlen(eng, st, s.a[1]), s.a[2])
    return None


def has(eng, st, s, pos):
    k = s.a[0]
    lt = lambda x, n: NOT(GE0(SUB(x, n)))
    if k == 'range':
        return GE0(SUB(SUB(SUB(s.a[2], s.a[1]), pos), ONE))
    if k == 'from':
        return TRUE
    if k in ('iter', 'own'):
        return lt(pos, eng.slicelen(st, s.a[1]))
    if k in ('enum', 'map', 'deref', 'rev'):
        return has(eng, st, s.a[1], pos)
    if k == 'chunks':
        n = eng.slicelen(st, s.a[1])
        if fmodpoly(n, s.a[2]) is ZERO:     # a chunk size of zero panics
            return lt(pos, DIV(n, s.a[2], 'usize'))
        return lt(MUL(pos, s.a[2]), n)
    if k == 'chunksx':
        return lt(ADD(MUL(pos, s.a[2]), SUB(s.a[2], ONE)), eng.slicelen(st, s.a[1]))
    if k == 'windows':
        return lt(ADD(pos, SUB(s.a[2], ONE)), eng.slicelen(st, s.a[1]))
    if k == 'zip':
        return AND(has(eng, st, s.a[1], pos), has(eng, st, s.a[2], pos))
    if k == 'step':
        return has(eng, st, s.a[1], MUL(pos, s.a[2]))
    if k == 'take':
        return AND(lt(pos, s.a[2]), has(eng, st, s.a[1], pos))
    if k == 'skip':
        return has(eng, st, s.a[1], ADD(pos, s.a[2]))
    return None


def item(eng, st, s, pos):
    k = s.a[0]
    if k == 'range':
        return ADD(s.a[1], pos)
    if k == 'from':
        return ADD(s.a[1], pos)
    if k == 'iter':
        return eng.extend(s.a[1], ('i', pos, s.a[2] or None))
    if k == 'own':
        return eng.read(st, eng.extend(s.a[1], ('i', pos, s.a[2] or None)))
    if k == 'deref':
        return eng.read(st, item(eng, st, s.a[1], pos))
    if k == 'enum':
        return AGG('tuple', 0, (pos, item(eng, st, s.a[1], pos)))
    if k == 'map':
        return eng.callvalue(st, s.a[2], [item(eng, st, s.a[1], pos)])
    if k == 'rev':
        n = seqlen(eng, st, s.a[1])
        return item(eng, st, s.a[1], SUB(SUB(n, ONE), pos))
    if k == 'chunks':
        n = eng.slicelen(st, s.a[1])
        o = MUL(pos, s.a[2])
        rest = SUB(n, o)
        if EQ0(fmodpoly(n, s.a[2])) is TRUE:
            ln = s.a[2]
        else:
            ln = MIN(s.a[2], rest)
        return eng.extend(s.a[1], ('r', o, ln))
    if k == 'chunksx':
        return eng.extend(s.a[1], ('r', MUL(pos, s.a[2]), s.a[2]))
    if k == 'windows':
        return eng.extend(s.a[1], ('r', pos, s.a[2]))
    if k == 'zip':
        return AGG('tuple', 0, (item(eng, st, s.a[1], pos), item(eng, st, s.a[2], pos)))
    if k == 'step':
        return item(eng, st, s.a[1], MUL(pos, s.a[2]))
    if k == 'take':
        return item(eng, st, s.a[1], pos)
    if k == 'skip':
        return item(eng, st, s.a[1], ADD(pos, s.a[2]))
    return opaque('iterator item')


def fmodpoly(n, m):
    """n mod m, ZERO when m divides n as a polynomial"""
    if n.op == 'ite' or m.op == 'ite':
        return ONE
    q = DIV(n, m, 'usize')
    if q.op in ('poly', 'sym', 'c', 'k', 'load', 'mu') or (q.op == 'op' and q.a[0] not in ('div', 'udiv')):
        if SUB(MUL(q, m), n) is ZERO:
            return ZERO
    return mk('op', ('umod', n, m), 'usize')


@tmodel('core::iter::traits::iterator::Iterator::next')
def _(c):
    v = c.eng.read(c.st, c.av[0])
    if v.op == 'agg' and v.a[0].split('::')[-1] in ('Range', 'RangeFrom', 'RangeInclusive'):
        v = toiter(c, v, None)
    if v.op != 'iter':
        return None
    s, pos = v.a
    h = has(c.eng, c.st, s, pos)
    if h is None:
        return None
    c.eng.write(c.st, c.av[0], it(s, ADD(pos, ONE)))
    if h is FALSE:
        return NONE
    if hasmap(s):
        s1 = c.st.copy()
        s1.guard = AND(c.st.guard, h)
        try:
            x = item(c.eng, s1, s, pos)
        except E.Diverged:
            return NONE
        s0 = c.st.copy()
        s0.guard = AND(c.st.guard, NOT(h))
        j = E.join([s1, s0]) if s0.guard is not FALSE else s1
        c.st.mem, c.st.guard = j.mem, j.guard
    else:
        x = item(c.eng, c.st, s, pos)
    return ITE(h, some(x), NONE)


def hasmap(s):
    return s.a[0] == 'map' or any(isinstance(x, N) and x.op == 'seq' and hasmap(x) for x in s.a)


def foreach(c, a, f, init=None):
    """run f(state, item) for every item"""
    s, p0 = a.a
    r = c.eng.newheap(c.st, p0)
    if has(c.eng, c.st, s, p0) is None:
        return False

    def body(H):
        pos = c.eng.read(H, r)
        h = has(c.eng, H, s, pos)
        s1 = H.copy()
        s1.guard = AND(H.guard, h)
        outs, ex = [], []
        if s1.guard is not FALSE:
            try:
                f(s1, item(c.eng, s1, s, pos))
                c.eng.write(s1, r, ADD(pos, ONE))
                outs = [s1]
            except E.Diverged:
                pass
        s0 = H.copy()
        s0.guard = AND(H.guard, NOT(h))
        if s0.guard is not FALSE:
            ex = [('x', s0)]
        return outs, ex
    res = c.eng.genloop(c.st.copy(), body)
    if not res:
        raise E.Diverged('for_each')
    j = E.join([x for t, x in res])
    c.st.mem, c.st.guard = j.mem, j.guard
    return True


@tmodel('core::iter::traits::iterator::Iterator::for_each', 'rayon::iter::ParallelIterator::for_each', 'itertools::Itertools::foreach')
def _(c):
    a = asit(c, 0)
    if a is None:
        return None
    fv = c.av[1]
    if fv.op != 'ref':
        fv = c.eng.newheap(c.st, fv)
    if not foreach(c, a, lambda s, x: c.eng.callvalue(s, fv, [x])):
        return None
    return UNIT


def search(c, a, test, found, none):
    """the items in order up to the first for which test holds"""
    s, p0 = a.a
    r = c.eng.newheap(c.st, p0)
    res = c.eng.newheap(c.st, none)
    if has(c.eng, c.st, s, p0) is None:
        return None

    def body(H):
        pos = c.eng.read(H, r)
        h = has(c.eng, H, s, pos)
        outs, ex = [], []
        s1 = H.copy()
        s1.guard = AND(H.guard, h)
        if s1.guard is not FALSE:
            try:
                x = item(c.eng, s1, s, pos)
                t = test(s1, x)
                s2 = s1.copy()
                s2.guard = AND(s1.guard, t)
                if s2.guard is not FALSE:
                    c.eng.write(s2, res, found(s2, x, pos))
                    ex.append(('f', s2))
                s1.guard = AND(s1.guard, NOT(t))
                if s1.guard is not FALSE:
                    c.eng.write(s1, r, ADD(pos, ONE))
                    outs = [s1]
            except E.Diverged:
                pass
        s0 = H.copy()
        s0.guard = AND(H.guard, NOT(h))
        if s0.guard is not FALSE:
            ex.append(('x', s0))
        return outs, ex
    out = c.eng.genloop(c.st.copy(), body)
    if not out:
        raise E.Diverged('search')
    j = E.join([x for t, x in out])
    c.st.mem, c.st.guard = j.mem, j.guard
    return c.eng.read(c.st, res)


def searcher(name):
    def f(c):
        a = asit(c, 0)
        if a is None:
            return None
        fv = c.eng.newheap(c.st, c.av[1]) if c.av[1].op != 'ref' else c.av[1]
        call = lambda s, x: c.eng.callvalue(s, fv, [x])
        if name == 'any':
            return search(c, a, call, lambda s, x, p: TRUE, FALSE)
        if name == 'all':
            return search(c, a, lambda s, x: NOT(call(s, x)), lambda s, x, p: FALSE, TRUE)
        if name == 'position':
            return search(c, a, call, lambda s, x, p: some(SUB(p, a.a[1])), NONE)
        return search(c, a, lambda s, x: c.eng.callvalue(s, fv, [c.eng.newheap(s, x)]), lambda s, x, p: some(x), NONE)
    return f


for _n in ('any', 'all', 'position', 'find'):
    TRAIT_MODELS['core::iter::traits::iterator::Iterator::' + _n] = searcher(_n)


@model('core::slice::contains')
def _(c):
    et = c.eng.elemty(c.aty[0])
    b = c.av[0]
    if b.op == 'ref':
        w = c.eng.read(c.st, b)
        if w.op == 'ref':
            b = w
    a = it(seq('iter', b, et or ''))
    want = c.rd(1)
    return search(c, a, lambda s, x: valeq(c, c.eng.read(s, x), want, et), lambda s, x, p: TRUE, FALSE)


@model('core::ops::range::Range::contains', 'core::ops::range::RangeInclusive::contains')
def _(c):
    r, x = c.rd(0), c.rd(1)
    if r.op != 'agg' or c.eng.tystr(c.aty[1]) not in WIDTH:
        return None
    hi = r.a[2][1] if 'Inclusive' in r.a[0] else SUB(r.a[2][1], ONE)
    return AND(GE0(SUB(x, r.a[2][0])), GE0(SUB(hi, x)))


@tmodel('core::iter::traits::iterator::Iterator::count')
def _(c):
    a = asit(c, 0)
    n = seqlen(c.eng, c.st, a.a[0]) if a is not None and not hasmap(a.a[0]) else None
    return None if n is None or a.a[0].a[0] in ('take', 'skip', 'zip') else SUB(n, a.a[1])


def extremum(nm):
    def f(c):
        a = asit(c, 0)
        t = c.eng.p.types[c.dt] if c.dt is not None else None
        if a is None or not t:
            return None
        et = c.eng.tystr(t[2][0])
        if et not in WIDTH:
            return None
        n = seqlen(c.eng, c.st, a.a[0])
        if n is None or not isc(n) or not isc(a.a[1]) or n.a[0] > 32:
            return None
        r = None
        for i in range(a.a[1].a[0], n.a[0]):
            x = item(c.eng, c.st, a.a[0], C(i))
            if x.op == 'ref':
                x = c.eng.read(c.st, x)
            r = x if r is None else (MIN if nm == 'min' else MAX)(r, x, et)
        return NONE if r is None else some(r)
    return f


for _n in ('min', 'max'):
    TRAIT_MODELS['core::iter::traits::iterator::Iterator::' + _n] = extremum(_n)


@tmodel('core::iter::traits::iterator::Iterator::fold')
def _(c):
    a = asit(c, 0)
    if a is None:
        return None
    acc = c.eng.newheap(c.st, c.av[1])
    fv = c.eng.newheap(c.st, c.av[2])
    if not foreach(c, a, lambda s, x: c.eng.write(s, acc, c.eng.callvalue(s, fv, [c.eng.read(s, acc), x]))):
        return None
    return c.eng.read(c.st, acc)


@tmodel('core::iter::traits::iterator::Iterator::collect')
def _(c):
    a = asit(c, 0)
    if a is None:
        return None
    t = c.eng.p.types[c.dt] if c.dt is not None else None
    if not (t and t[0] == 'adt' and t[1].endswith('vec::Vec')):
        return None
    acc = c.eng.newheap(c.st, mk('arr', ((),)))

    def f(s, x):
        o = c.eng.read(s, acc)
        c.eng.write(s, acc, lift(lambda o: mk('push', (o, x)), o))
    if not foreach(c, a, f):
        return None
    return c.eng.read(c.st, acc)


def appended(c, a):
    if c.av[0].op != 'ref':
        return None

    def f(s, x):
        o = c.eng.read(s, c.av[0])
        if x.op == 'ref':
            x = c.eng.read(s, x)
        c.eng.write(s, c.av[0], lift(lambda o: mk('push', (o, x)), o))
    return UNIT if foreach(c, a, f) else None


@tmodel('core::iter::traits::collect::Extend::extend')
def _(c):
    t = c.eng.p.types[c.aty[0]]
    while t[0] == 'ref':
        t = c.eng.p.types[t[1]]
    if not (t[0] == 'adt' and t[1].endswith('vec::Vec')):
        return None
    b = c.av[1]
    if b.op != 'iter':
        c2 = E.CallCtx(c.eng, c.fr, c.st, c.q, [b], [c.aty[1]], c.dty, c.dt, c.span, c.path)
        b = TRAIT_MODELS['core::iter::traits::collect::IntoIterator::into_iter'](c2)
    return None if b is None else appended(c, b)


@model('alloc::vec::Vec::append')
def _(c):
    if c.av[1].op != 'ref':
        return None
    v = c.eng.read(c.st, c.av[1])
    ty = c.eng.p.types[c.aty[1]]
    ty = ty[1] if ty[0] == 'ref' else c.aty[1]
    c2 = E.CallCtx(c.eng, c.fr, c.st, c.q, [v], [ty], c.dty, c.dt, c.span, c.path)
    b = TRAIT_MODELS['core::iter::traits::collect::IntoIterator::into_iter'](c2)
    if b is None or appended(c, b) is None:
        return None
    c.eng.write(c.st, c.av[1], mk('arr', ((),)))
    return UNIT


@model('alloc::vec::Vec::extend_from_slice')
def _(c):
    b = c.av[1]
    if b.op == 'ref':
        w = c.eng.read(c.st, b)
        if w.op == 'ref':
            b = w
    return appended(c, it(seq('iter', b, c.eng.elemty(c.aty[1]) or '')))


@model('alloc::slice::to_vec', 'core::slice::to_vec')
def _(c):
    return c.rd(0)


@model('core::slice::split_at', 'core::slice::split_at_mut')
def _(c):
    n = c.eng.slicelen(c.st, c.av[0])
    return AGG('tuple', 0, (c.eng.extend(c.av[0], ('r', ZERO, c.av[1])), c.eng.extend(c.av[0], ('r', c.av[1], SUB(n, c.av[1])))))


@model('core::num::from_be_bytes', 'core::num::from_le_bytes')
def _(c):
    if c.dty not in WIDTH:
        return None
    n = WIDTH[c.dty] // 8
    v = c.rd(0)
    bs = [load(v, C(i), 'u8') for i in range(n)]
    if 'be' in c.path:
        bs = bs[::-1]
    u = 'u%d' % (8 * n)
    r = ZERO
    for i, x in enumerate(bs):
        r = BITOR(r, SHL(x, C(8 * i), u), u)
    return CAST(r, u, c.dty) if c.dty != u else r


@model('core::num::saturating_sub')
def _(c):
    if c.dty not in ('usize', 'u64', 'u32', 'u16', 'u8'):
        return None
    d = SUB(c.av[0], c.av[1])
    return ITE(GE0(d), d, ZERO)


def checked(op):
    def f(c):
        t = c.eng.p.types[c.dt] if c.dt is not None else None
        ty = c.eng.tystr(t[2][0]) if t else None
        if ty not in ('usize', 'u64'):
            return None
        if op == 'sub':
            d = SUB(c.av[0], c.av[1])
            return ITE(GE0(d), some(d), NONE)
        if op in ('div', 'rem'):
            return ITE(EQ0(c.av[1]), NONE, some({'div': DIV, 'rem': REM}[op](c.av[0], c.av[1], ty)))
        return None
    return f


for _o in ('sub', 'div', 'rem'):
    MODELS['core::num::checked_' + _o] = checked(_o)


@tmodel('core::iter::traits::iterator::Iterator::sum')
def _(c):
    a = asit(c, 0)
    if a is None or c.dty not in WIDTH and c.dty not in ('f32', 'f64'):
        return None
    acc = c.eng.newheap(c.st, ZERO if c.dty in WIDTH else mk('fl', ('0.0',), c.dty))
    if not foreach(c, a, lambda s, x: c.eng.write(s, acc, c.eng.binop('Add', c.eng.read(s, acc), c.eng.read(s, x) if x.op == 'ref' else x, c.dty))):
        return None
    return c.eng.read(c.st, acc)


# ------------------------------------------------------------------ calls through Fn traits
@tmodel('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once')
def _(c):
    tup = c.av[1]
    args = list(tup.a[2]) if tup.op == 'agg' else [tup]
    return c.eng.callvalue(c.st, c.av[0], args)


# enum_primitive
@tmodel('num_traits::cast::FromPrimitive::from_u16')
def _(c):
    b = [x for x in c.eng.p.bodies.values() if x.itrait and x.itrait.endswith('FromPrimitive')]
    return None


@model('core::str::trim')
def _(c):
    return lift(lambda x: mk('op', ('trim', x), 'str'), c.rd(0))


# ------------------------------------------------------------------ maps: uninterpreted but with threaded state
@model('std::collections::HashMap::new', 'std::collections::hash::map::HashMap::new')
def _(c):
    return mk('op', ('mapnew',), 'map')


@model('std::collections::HashMap::insert', 'std::collections::hash::map::HashMap::insert')
def _(c):
    m = c.eng.read(c.st, c.av[0])
    k, v = c.eng.freeze(c.st, c.av[1]), c.eng.freeze(c.st, c.av[2])
    old = mk('op', ('mapreplaced', m, k), 'adt:' + OPTION)
    c.eng.write(c.st, c.av[0], lift(lambda m, k: mk('op', ('mapins', m, k, v), 'map'), m, k))
    return old


@model('std::collections::HashMap::get', 'std::collections::hash::map::HashMap::get')
def _(c):
    return lift(lambda m, k: mk('op', ('mapfind', m, k), 'adt:' + OPTION), c.eng.freeze(c.st, c.av[0]), c.eng.freeze(c.st, c.av[1]))


@model('std::collections::HashMap::contains_key', 'std::collections::hash::map::HashMap::contains_key')
def _(c):
    r = lift(lambda m, k: mk('op', ('mapfind', m, k), 'adt:' + OPTION), c.eng.freeze(c.st, c.av[0]), c.eng.freeze(c.st, c.av[1]))
    return isvar(c.eng, r, 1)


# ------------------------------------------------------------------ bit pumps
# Inside their users a bit pump is an abstract cursor (stream, bit position,
# "looked ahead" flag); that the pumps themselves implement this cursor is a
# separate obligation checked on their own bodies.
PUMP = 'Pump'


def pumpof(c):
    """pump state behind argument 0 as (stream, pos, looked)"""
    v = c.rd(0)
    return v


def pumpagg(eng, v):
    if v.op == 'agg' and v.a[0] == PUMP:
        return v
    if v.op == 'ite':
        return lift(lambda x: pumpagg(eng, x), v)
    if v.opq:
        o = opaque(why_opaque(v))
        return AGG(PUMP, 0, (o, o, FALSE))
    return AGG(PUMP, 0, (mk('op', ('stream', v)), mk('op', ('streampos', v), 'u64'), FALSE))


def pumpparts(c):
    v = pumpagg(c.eng, c.rd(0))
    if v.op != 'agg':
        fs = [lift(lambda x, i=i: x.a[2][i], v) for i in range(3)]
        return fs
    return list(v.a[2])


def bitsval(src, pos, n):
    def f(s, p, m):
        if s.opq or p.opq or m.opq:
            return opaque(why_opaque(s, p, m), 'u32')
        ty = 'u32'
        if isc(m) and 0 < m.a[0] < 32:
            ty = 'b%d' % m.a[0]
            TYR[ty] = (0, 2 ** m.a[0] - 1)
        return mk('op', ('bits', s, p, m), ty)
    if pos.op == 'ite' and len(dleaves(pos)) > 4:
        return lift(lambda s, m: f(s, pos, m), src, n)
    return lift(f, src, pos, n)


def pumpset(c, src, pos, pk):
    r = c.av[0]
    if r.op in ('ref', 'ite'):
        c.eng.write(c.st, r, AGG(PUMP, 0, (src, pos, pk)))
    else:
        c.eng.notes.append('pump behind an unknown reference')


def p_peek(c):
    s, p, k = pumpparts(c)
    v = bitsval(s, p, c.rd(1))
    pumpset(c, s, p, TRUE)
    return v


def consumed(p, k, n):
    return ADD(p, n)


def p_consume(c):
    s, p, k = pumpparts(c)
    n = c.rd(1)
    # consuming what was never looked at underflows the bit count
    p2 = ADD(p, n)
    if k is not TRUE:
        p2 = ITE(asdd(k), p2, mk('op', ('unpeeked', p2), 'u64') if not p2.opq else p2)
    pumpset(c, s, p2, FALSE)
    return UNIT


def p_get(c):
    s, p, k = pumpparts(c)
    n = c.rd(1)
    v = bitsval(s, p, n)
    if not isc(n):
        v = ITE(CMP('Eq', n, ZERO, 'u32'), ZERO, v)
    elif n is ZERO:
        v = ZERO
    pumpset(c, s, ADD(p, n), FALSE)
    return v


def p_geti(c):
    return CAST(p_get(c), 'u32', 'i32')


def p_peeki(c):
    return CAST(p_peek(c), 'u32', 'i32')


def p_sext(c):
    n = c.rd(1)
    v = p_get(c)

    def f(x, m):
        if x.opq or m.opq:
            return opaque(why_opaque(x, m), 'i32')
        return mk('op', ('sext', x, m), 'i32')
    return lift(f, v, n)


PUMP_METHODS = {'peek_bits': p_peek, 'consume_bits': p_consume, 'get_bits': p_get, 'get_ibits': p_geti,
                'peek_ibits': p_peeki, 'get_ibits_sextended': p_sext}


def pump_call(c, body):
    """model of a call into the bit pump interface, or None"""
    q = c.q
    if q['trait'] and q['trait'].endswith('::pumps::BitPump'):
        f = PUMP_METHODS.get(q['id'].split('::')[-1])
        return f(c) if f else None
    if body is None or body.iself is None or body.itrait:
        return None
    nm = c.eng.p.tyname(body.iself)
    if nm not in c.eng.p.pumps:
        return None
    m = body.qual.split('::')[-1]
    if m == 'new':
        fz = tuple(c.eng.freeze(c.st, a) for a in c.av)
        src = opaque(why_opaque(*fz)) if any(x.opq for x in fz) else mk('op', (nm.split('::')[-1],) + fz)
        return AGG(PUMP, 0, (src, ZERO, FALSE))
    if m == 'get_pos':
        s, p, k = pumpparts(c)
        return lift(lambda x: mk('op', ('bytepos', x), 'usize'), p)
    return None
