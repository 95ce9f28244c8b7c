"""Contracts of functions that are not verified from their bodies: the specification runtime,
float intrinsics, Vec / slice / Box / HashMap operations and panics."""
import re
from fractions import Fraction
import z3
from values import *

EXACT, RX = {}, []


def exact(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def rx(*pats):
    def d(f):
        for p in pats:
            RX.append((re.compile(p), f))
        return f
    return d


_cache = {}


def lookup(fn):
    d = fn['def']
    if d in _cache:
        return _cache[d]
    m = EXACT.get(d)
    if m is None and fn.get('intr'):
        m = EXACT.get('intr:' + d.split('::')[-1])
    if m is None:
        for p, f in RX:
            if p.search(d):
                m = f
                break
    _cache[d] = m
    return m


def trust_name(fn, m):
    return fn['def']


NONE = En(0)


def some(v):
    return En(1, (v,))


# -------------------------------------------------------------------- specification runtime
RT = 'auburn_specs::rt::'


@exact('rt::requires_', RT + 'requires_')
def _(c):
    x = c.args[0]
    if isinstance(x, bool):
        return x
    c.st.assume(x)
    if not c.e.dry and c.e.sol.sat(c.st.pc, z3.BoolVal(True)) == 'unsat':
        from engine import Infeasible
        raise Infeasible()
    return True


@exact(RT + 'ensures')
def _(c):
    label = c.args[0].s if isinstance(c.args[0], StrV) else 'ensures'
    c.e.oblige(c.st, c.args[1], label, c.where())
    return ()


@exact(RT + 'assume')
def _(c):
    c.st.assume(c.args[0])
    return ()


@exact(RT + 'eq')
def _(c):
    return c.e.fcmp(c.st, 'Eq', c.args[0], c.args[1])


@exact(RT + 'le')
def _(c):
    return c.e.fcmp(c.st, 'Le', c.args[0], c.args[1])


@exact(RT + 'away_from_zero')
def _(c):
    return c.e.fcmp(c.st, 'Ne', c.args[0], Fraction(0))


@exact(RT + 'positive')
def _(c):
    a, least = c.args
    if isinstance(a, z3.ExprRef) and isinstance(least, Fraction):
        c.st.soft = c.st.soft + (a >= q(least),)
    return c.e.fcmp(c.st, 'Gt', a, Fraction(0))


@exact(RT + 'is_real')
def _(c):
    return not isinstance(c.args[0], Special)


@exact(RT + 'split')
def _(c):
    """Case split requested by a contract: returns the concrete truth value."""
    return c.e.decide(c.st, c.args[0]) if not isinstance(c.args[0], bool) else c.args[0]


@exact(RT + 'lemma')
def _(c):
    """A fact proved here and then available below."""
    label = c.args[0].s if isinstance(c.args[0], StrV) else 'lemma'
    c.e.oblige(c.st, c.args[1], 'lemma: ' + label, c.where())
    return ()


@exact(RT + 'name')
def _(c):
    """A name for a value: a fresh variable that equals it."""
    x, st = c.args[0], c.st
    if not isinstance(x, z3.ExprRef) or z3.is_const(x):
        return x

    def mk():
        v = st.fresh('r', 'name')
        st.defs[v.decl().name()] = ('quot', x, z3.RealVal(1))
        st.assume(v == x)
        return v, x
    return c.e.rdef(st, ('name', x.get_id()), mk)


@exact(RT + 'lemma_from')
def _(c):
    """The premises are proved here; the conclusion is proved from the premises alone."""
    label = c.args[0].s if isinstance(c.args[0], StrV) else 'lemma'
    c.e.oblige(c.st, c.args[1], 'lemma: ' + label + ' (premises)', c.where())
    if c.e.dry:
        return ()
    t = c.st.copy()
    t.pc, t.known = [], {}
    if c.args[1] is not True:
        t.assume(c.args[1])
    c.e.oblige(t, c.args[2], 'lemma: ' + label, c.where())
    if c.args[2] is not True:
        c.st.assume(c.args[2])
    return ()


@exact(RT + 'uninterpreted')
def _(c):
    c.st.opaque = c.st.opaque + (c.args[0].s,)
    c.e.trusted.add('any function in place of ' + c.args[0].s)
    return ()


@exact(RT + 'function')
def _(c):
    c.st.opaque = c.st.opaque + ('=' + c.args[0].s,)
    c.e.trusted.add('any function in place of ' + c.args[0].s)
    return ()


def application(e, st, key, vals):
    """A vector that is a function of the arguments."""
    num = [q(x) if is_float(x) else zi(x) for _, x in leaves(vals) if is_float(x) or isinstance(x, int) or z3.is_expr(x)]
    rest = [x for _, x in leaves(vals) if not (is_float(x) or isinstance(x, int) or z3.is_expr(x))]
    shape = (key, len(num), tuple(str(x.kind[:2]) + str(x.n) if isinstance(x, SVec) else repr(x) for x in rest))
    fs = [z3.Function('%s of %s' % (c, shape), *([x.sort() for x in num] + [z3.RealSort()])) for c in 'xy']
    return tuple(f(*num) for f in fs)


def uninterpreted(e, st, fr, t, key, args, dest, functional=False):
    """A fresh answer for every tuple of arguments."""
    vals = []
    for a in args:
        while isinstance(a, Ref):
            a = e.load(st, a.c, a.p)
        vals.append(a)
    vals = tuple(vals)
    if functional:
        d = e.ty(e.place_ty(fr, t['dest']))
        if d['k'] != 'adt' or not d['name'].endswith('Vec2'):
            raise Unsupported('function to ' + d['disp'])
        return application(e, st, key, vals)
    flat = [z3.simplify(x) if isinstance(x, z3.ExprRef) else x for _, x in leaves(vals)]
    for (k, f, v) in st.answers:
        if k == key and len(f) == len(flat) and all(same(x, y) or (is_sym(x) or is_sym(y)) and
                                                    e.valid(st, q(x) == q(y) if is_float(x) else zi(x) == zi(y))
                                                    for x, y in zip(flat, f)):
            return v
    v = e.fresh_of(st, e.place_ty(fr, t['dest']), 'answer', record=False)
    st.answers = st.answers + ((key, flat, v),)
    return v


@rx(r'^auburn_specs::rt::invariant[123]$')
def _(c):
    """A suggested invariant: kept as a formula over placeholders."""
    e, st = c.e, c.st
    key = unshim(e, closure_key(c))
    b = e.p.fns[key]['body']
    kinds, args, ph = [], [], []

    def holder(t):
        d = e.ty(t)
        n = 'hint!%d!%d' % (len(st.hints), len(ph))
        if d['k'] == 'float':
            ph.append(z3.Real(n))
            return ph[-1], 'f'
        if d['k'] == 'int':
            ph.append(z3.Int(n))
            return ph[-1], 'i'
        if d['k'] == 'adt' and d['name'].endswith('Vec2'):
            x = holder(e.fieldty(d, 0))[0]
            return (x, holder(e.fieldty(d, 1))[0]), 'v'
        raise Unsupported('suggestion over ' + d['disp'])
    for i in range(2, b['argc'] + 1):
        v, k = holder(b['locals'][i])
        args.append(v)
        kinds.append(k)
    cell = st.cell(c.args[1])
    f = pure_formula(e, st, key, cell, args)
    st.hints = st.hints + ((c.args[0].s, tuple(kinds), tuple(ph), f),)
    return ()


@exact(RT + 'log')
def _(c):
    c.st.events = c.st.events + ((c.args[0], c.args[1]),)
    return ()


@exact(RT + 'logged')
def _(c):
    return len(c.st.events)


@exact(RT + 'log_at')
def _(c):
    if not isinstance(c.args[0], int) or c.args[0] >= len(c.st.events):
        raise Unsupported('log')
    return c.st.events[c.args[0]]


def vec2(e, st, hint):
    return (st.fresh('r', hint + '.x'), st.fresh('r', hint + '.y'))


def dot(a, b):
    return q(a[0]) * q(b[0]) + q(a[1]) * q(b[1])


@exact(RT + 'support_oracle')
def _(c):
    st = c.st
    sref, d = c.args
    key = c.e.load(st, sref.c, sref.p)[0].n
    st.counts = dict(st.counts)
    st.counts[key] = c.e.iadd(st.counts.get(key, 0), 1)
    if any(isinstance(x, Special) for x in d):
        return vec2(c.e, st, 'anywhere')      # no promise about the answer
    olds = st.oracles.get(key, ())
    for (r0, d0) in olds:
        if same(d0, d):
            return r0
    r = vec2(c.e, st, 'sup')
    for (r0, d0) in olds:
        st.assume(dot(r0, d) <= dot(r, d))
        st.assume(dot(r, d0) <= dot(r0, d0))
    st.oracles[key] = olds + ((r, d),)
    for g in st.ghosts:
        if g[0] == 'support' and g[1] == key:
            g[2](c.e, st, r, d)
    return r


@exact(RT + 'oracle_calls')
def _(c):
    r = c.args[0]
    return c.st.counts.get(c.e.load(c.st, r.c, r.p)[0].n, 0)


@exact(RT + 'affordable')
@exact(RT + 'moderate')
def _(c):
    return True


@exact(RT + 'all_within')
def _(c):
    """A bound on the coordinates of all elements."""
    r = c.args[0]
    v = c.e.load(c.st, r.c, r.p)
    b = q(c.args[1])

    def fact(e, st, seq, idx, val, rs):
        for _, x in leaves(val):
            st.assume(z3.And(x <= b, x >= -b))
    if isinstance(v, SVec) and v.kind[0] == 'base':
        w = SVec(v.kind, v.n, v.facts + (fact,))
        c.e.save(c.st, r.c, r.p, w)
        for rd in c.st.reads:
            if rd[0] == v.kind[1]:
                fact(c.e, c.st, v, rd[1], rd[2], ())
    elif isinstance(v, VecV):
        for x in v.e:
            fact(c.e, c.st, v, 0, x, ())
    else:
        raise Unsupported('all_within')
    return True


@exact(RT + 'declare_halfplane')
def _(c):
    """Every point of the abstract set satisfies  point . n <= bound."""
    st = c.st
    sref, n, b = c.args
    key = c.e.load(st, sref.c, sref.p)[0].n
    n = tuple(q(x) for x in n)
    b = q(b)

    def fact(e, st, r, d):
        st.assume(dot(r, n) <= b)
    for (r0, d0) in st.oracles.get(key, ()):
        fact(c.e, st, r0, d0)
    st.ghosts = st.ghosts + (('support', key, fact),)
    return ()


@exact(RT + 'declare_member')
def _(c):
    """`p` is a point of the abstract set: no support point is short of it."""
    st = c.st
    sref, p = c.args
    key = c.e.load(st, sref.c, sref.p)[0].n
    p = tuple(q(x) for x in p)
    st.members = st.members + ((key, p),)

    def fact(e, st, r, d):
        st.assume(dot(p, d) <= dot(r, d))
    for (r0, d0) in st.oracles.get(key, ()):
        fact(c.e, st, r0, d0)
    st.ghosts = st.ghosts + (('support', key, fact),)
    return ()


# -------------------------------------------------------------------- floats
@exact('core::f32::<impl f32>::abs', 'std::f32::<impl f32>::abs', 'std::intrinsics::fabs', 'std::intrinsics::fabsf32')
def _(c):
    return c.e.fabs(c.st, c.args[0])


@exact('std::f32::<impl f32>::sqrt', 'std::intrinsics::sqrt', 'std::intrinsics::sqrtf32')
def _(c):
    return c.e.fsqrt(c.st, c.args[0])


@exact('std::intrinsics::maximum_number_nsz_f32', 'core::f32::<impl f32>::max', 'std::intrinsics::maxnumf32')
def _(c):
    return fmax(c.e, c.st, c.args[0], c.args[1])


@exact('std::intrinsics::minimum_number_nsz_f32', 'core::f32::<impl f32>::min', 'std::intrinsics::minnumf32')
def _(c):
    e, st = c.e, c.st
    a, b = c.args
    return e.fneg(st, fmax(e, st, e.fneg(st, a), e.fneg(st, b)))


def fmax(e, st, a, b):
    if a is NAN:
        return b
    if b is NAN:
        return a
    if a is ANY or b is ANY:
        return ANY
    r = e.fcmp(st, 'Ge', a, b)
    return a if e.decide(st, r) else b


def negative(e, st, a):
    """The sign bit (unknown for a zero or a NaN)."""
    if a in (NAN, ANY) if isinstance(a, Special) else False:
        return e.decide(st, st.fresh('b', 'signbit'))
    if isinstance(a, Special):
        return a is NINF
    s = e.sign(st, a)
    if s == 0:
        normal = a if isinstance(a, Fraction) else z3.simplify(a, som=True)
        k = ('signbit', a if isinstance(a, Fraction) else normal.get_id())
        return e.decide(st, e.rdef(st, k, lambda: (st.fresh('b', 'signbit'), normal)))
    return s < 0


@exact('core::f32::<impl f32>::signum', 'std::f32::<impl f32>::signum')
def _(c):
    a = c.args[0]
    if a is NAN or a is ANY:
        return a
    return Fraction(-1) if negative(c.e, c.st, a) else Fraction(1)


@exact('core::f32::<impl f32>::copysign', 'std::intrinsics::copysignf32')
def _(c):
    a = c.e.fabs(c.st, c.args[0])
    return c.e.fneg(c.st, a) if negative(c.e, c.st, c.args[1]) else a


@exact('core::f32::<impl f32>::is_sign_negative')
def _(c):
    return negative(c.e, c.st, c.args[0])


@exact('core::f32::<impl f32>::is_sign_positive')
def _(c):
    return not negative(c.e, c.st, c.args[0])


@exact('core::f32::<impl f32>::is_nan')
def _(c):
    a = c.args[0]
    if a is ANY:
        return c.st.fresh('b', 'nan')
    return a is NAN


@exact('core::f32::<impl f32>::is_infinite')
def _(c):
    a = c.args[0]
    if a is ANY:
        return c.st.fresh('b', 'inf')
    return a is PINF or a is NINF


@exact('core::f32::<impl f32>::is_finite')
def _(c):
    a = c.args[0]
    if a is ANY:
        return c.st.fresh('b', 'fin')
    return not isinstance(a, Special)


@exact('core::f32::<impl f32>::recip')
def _(c):
    return c.e.fdiv(c.st, Fraction(1), c.args[0])


@exact('std::f32::<impl f32>::mul_add', 'core::f32::<impl f32>::mul_add')
def _(c):
    a, b, d = c.args
    return c.e.fadd(c.st, c.e.fmul(c.st, a, b), d)


@exact('std::f32::<impl f32>::hypot')
def _(c):
    e, st = c.e, c.st
    a, b = c.args
    return e.fsqrt(st, e.fadd(st, e.fmul(st, a, a), e.fmul(st, b, b)))


@exact('std::f32::<impl f32>::powi')
def _(c):
    a, n = c.args
    if not isinstance(n, int) or not 0 <= n <= 8:
        raise Unsupported('powi')
    r = Fraction(1)
    for _ in range(n):
        r = c.e.fmul(c.st, r, a)
    return r


def trig(e, st, a):
    if isinstance(a, Special):
        return (NAN, NAN) if a is not ANY else (ANY, ANY)
    if isinstance(a, Fraction) and a == 0:
        return Fraction(0), Fraction(1)
    a = z3.simplify(q(a))
    for (b, s, c) in st.trig:
        if b.eq(a) or e.valid(st, a == b):
            return s, c
    for (b, s, c) in st.trig:
        if z3.simplify(a + b).eq(z3.RealVal(0)):
            return -s, c
    s, c = st.fresh('r', 'sin'), st.fresh('r', 'cos')
    st.assume(s * s + c * c == 1)
    st.defs[s.decl().name()] = ('sin', c.decl().name())
    st.trig = st.trig + ((a, s, c),)
    return s, c


@exact('std::f32::<impl f32>::sin', 'std::intrinsics::sin', 'std::intrinsics::sinf32')
def _(c):
    return trig(c.e, c.st, c.args[0])[0]


@exact('std::f32::<impl f32>::cos', 'std::intrinsics::cos', 'std::intrinsics::cosf32')
def _(c):
    return trig(c.e, c.st, c.args[0])[1]


@exact('std::f32::<impl f32>::sin_cos')
def _(c):
    return trig(c.e, c.st, c.args[0])


@exact('std::f32::<impl f32>::atan2')
def _(c):
    e, st = c.e, c.st
    y, x = c.args
    if isinstance(x, Special) or isinstance(y, Special):
        raise Unsupported('atan2 of a special value')
    r = e.fsqrt(st, e.fadd(st, e.fmul(st, x, x), e.fmul(st, y, y)))
    if e.decide(st, q(r) == 0):
        return st.fresh('r', 'angle')
    a = st.fresh('r', 'angle')
    st.assume(z3.And(a >= z3.Q(-3141593, 1000000), a <= z3.Q(3141593, 1000000)))
    st.trig = st.trig + ((a, q(e.fdiv(st, y, r)), q(e.fdiv(st, x, r))),)
    return a


def to_int(e, st, a, how):
    if isinstance(a, Special):
        return a
    if isinstance(a, Fraction):
        import math
        if how == 'floor':
            return Fraction(math.floor(a))
        if how == 'ceil':
            return Fraction(math.ceil(a))
        if how == 'trunc':
            return Fraction(math.trunc(a))
        if how == 'even':
            return Fraction(round(a))
        return Fraction(math.floor(abs(a) + Fraction(1, 2)) * (1 if a >= 0 else -1))
    key = ('round', how, a.get_id())

    def mk():
        n = st.fresh('i', how)
        r = z3.ToReal(n)
        if how == 'floor':
            st.assume(z3.And(r <= a, a < r + 1))
        elif how == 'ceil':
            st.assume(z3.And(r >= a, a > r - 1))
        elif how == 'trunc':
            st.assume(z3.If(a >= 0, z3.And(r <= a, a < r + 1), z3.And(r >= a, a > r - 1)))
        elif how == 'even':
            st.assume(z3.And(2 * r - 1 <= 2 * a, 2 * a <= 2 * r + 1))
            st.assume(z3.Implies(z3.Or(2 * a == 2 * r + 1, 2 * a == 2 * r - 1), n % 2 == 0))
        else:
            st.assume(z3.If(a >= 0, z3.And(2 * r - 1 <= 2 * a, 2 * a < 2 * r + 1),
                            z3.And(2 * r - 1 < 2 * a, 2 * a <= 2 * r + 1)))
        return r, a
    return e.rdef(st, key, mk)


@rx(r'(f32::<impl f32>|intrinsics|math|std_math|libm)::(floor|ceil|trunc|round|round_ties_even)(f|f32)?$')
def _(c):
    n = re.sub(r'f(32)?$', '', c.fn['def'].split('::')[-1])
    how = {'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'round': 'away', 'round_ties_even': 'even'}.get(n)
    if how is None:
        raise Unsupported(n)
    return to_int(c.e, c.st, c.args[0], how)


@exact('std::f32::<impl f32>::div_euclid', 'std::f32::<impl f32>::rem_euclid')
def _(c):
    e, st = c.e, c.st
    a, b = c.args
    d = e.fdiv(st, a, b)
    if isinstance(d, Special):
        return d
    n = to_int(e, st, d, 'floor' if e.decide(st, q(b) > 0) else 'ceil')
    if c.fn['def'].endswith('div_euclid'):
        return n
    return e.fadd(st, a, e.fneg(st, e.fmul(st, n, b)))


# -------------------------------------------------------------------- integers, memory
@exact('core::num::<impl i32>::div_euclid', 'core::num::<impl i32>::rem_euclid',
       'core::num::<impl usize>::div_euclid', 'core::num::<impl usize>::rem_euclid')
def _(c):
    a, b = c.args
    if isinstance(a, int) and isinstance(b, int) and b != 0:
        r = a % abs(b)
        qq = (a - r) // b
    elif isinstance(b, int) and b > 0:
        qq, r = z3.simplify(zi(a) / b), z3.simplify(zi(a) % b)
    else:
        from engine import DEFER
        return DEFER
    return qq if c.fn['def'].endswith('div_euclid') else r


@rx(r'precondition_check$', r'::assert_inhabited$', r'::cold_path$', r'::assert_zero_valid$', r'assert_mem_uninitialized_valid$',
    r'^std::hint::black_box')
def _(c):
    return ()


@exact('std::intrinsics::raw_eq')
def _(c):
    a, b = c.deref(0), c.deref(1)
    return veq(c.e, c.st, a, b)


def veq(e, st, a, b):
    r = []
    la, lb = list(leaves(a)), list(leaves(b))
    if len(la) != len(lb):
        raise Unsupported('comparison of different shapes')
    for (_, x), (_, y) in zip(la, lb):
        if is_float(x):
            r.append(e.fcmp(st, 'Eq', x, y))
        elif isinstance(x, (bool, z3.BoolRef)):
            r.append((x == y) if isinstance(x, bool) and isinstance(y, bool) else zb(x) == zb(y))
        else:
            r.append(e.icmp('Eq', x, y))
    return b_and(*r)


@exact('std::intrinsics::ctpop')
def _(c):
    if isinstance(c.args[0], int):
        return bin(c.args[0]).count('1')
    raise Unsupported('ctpop')


@rx(r'^std::mem::(swap|replace|take)$', r'^std::ptr::(swap|read|write)$', r'intrinsics::(read_via_copy|write_via_move|typed_swap_nonoverlapping)$')
def _(c):
    n = c.fn['def'].split('::')[-1]
    if n in ('read', 'read_via_copy'):
        return c.deref(0)
    if n in ('write', 'write_via_move'):
        c.save(0, c.args[1])
        return ()
    if n == 'replace':
        old = c.deref(0)
        c.save(0, c.args[1])
        return old
    if n in ('swap', 'typed_swap_nonoverlapping'):
        a, b = c.deref(0), c.deref(1)
        c.save(0, b)
        c.save(1, a)
        return ()
    from engine import DEFER
    return DEFER


# -------------------------------------------------------------------- panics, printing
@rx(r'^core::panicking::', r'^std::rt::', r'unwrap_failed', r'expect_failed', r'^core::slice::index::.*fail', r'handle_alloc_error',
    r'^std::panicking::', r'^std::process::(abort|exit)', r'panic_bounds_check')
def _(c):
    c.e.oblige(c.st, False, 'no panic', c.where())


@exact('std::io::_print', 'std::io::_eprint')
def _(c):
    return ()


@rx(r'^std::fmt::Arguments', r'^core::fmt::rt::', r'^std::fmt::', r'^core::fmt::', r'^std::fmt::format', r'^alloc::fmt')
def _(c):
    return Opaque('fmt')


@rx(r'^log::')
def _(c):
    """Logging has no effect on results."""
    n = c.fn['def']
    if 'max_level' in n or 'STATIC' in n:
        return Opaque('log')
    if n.endswith('enabled') or 'PartialOrd' in n:
        return False
    return Opaque('log')


# -------------------------------------------------------------------- Vec, slices, boxes
def vec(c, i):
    """(cell, path, lo, hi, value) of a reference to a Vec, slice or array."""
    r = c.args[i]
    if not isinstance(r, Ref):
        r = c.e.box_ref(r)
    v = c.e.load(c.st, r.c, r.p)
    if isinstance(v, Ref):
        v, r = c.e.load(c.st, v.c, v.p), v
    lo, hi = r.s if r.s is not None else (0, c.e.seq_len(v))
    return r.c, r.p, lo, hi, v


def elem(lo, i):
    return ('x', i if lo == 0 else (lo + i if isinstance(i, int) and isinstance(lo, int) else z3.simplify(zi(lo) + zi(i))))


@exact('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', '<std::vec::Vec<T> as std::default::Default>::default')
def _(c):
    return VecV([])


@exact('std::boxed::Box::<T>::new', 'std::boxed::Box::<T>::pin')
def _(c):
    return Ref(c.st.cell(c.args[0]), ())


@exact('std::boxed::Box::<T>::new_uninit', 'std::boxed::box_new_uninit')
def _(c):
    return Ref(c.st.cell(None), ())


@exact('std::boxed::box_assume_init_into_vec_unsafe')
def _(c):
    r = c.e.box_ref(c.args[0])
    v = c.e.load(c.st, r.c, r.p)
    while isinstance(v, tuple):
        v = next((x for x in v if x is not None and x != ()), ())
        if v == ():
            break
    if not isinstance(v, VecV):
        raise Unsupported('vec! of %r' % (v,))
    return v


@exact('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
       'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref',
       '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow')
def _(c):
    cl, p, lo, hi, v = vec(c, 0)
    return Ref(cl, p, (lo, hi))


@exact('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len')
def _(c):
    cl, p, lo, hi, v = vec(c, 0)
    return c.e.iadd(hi, -lo)


@exact('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def _(c):
    cl, p, lo, hi, v = vec(c, 0)
    return c.e.icmp('Eq', c.e.iadd(hi, -lo), 0)


@rx(r'^<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$',
    r'^core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$',
    r'^std::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$')
def _(c):
    cl, p, lo, hi, v = vec(c, 0)
    i = c.args[1]
    if isinstance(i, (int, z3.ArithRef)):
        n = c.e.iadd(hi, -lo)
        c.e.oblige(c.st, b_and(c.e.icmp('Ge', i, 0), c.e.icmp('Lt', i, n)), 'no panic: index out of bounds', c.where())
        return Ref(cl, p + (elem(lo, i),))
    if isinstance(i, tuple) and len(i) == 2 and all(isinstance(x, int) for x in i):
        return Ref(cl, p, (c.e.iadd(lo, i[0]), c.e.iadd(lo, i[1])))
    if i == ():
        return Ref(cl, p, (lo, hi))
    raise Unsupported('range index')


@rx(r'^core::slice::<impl \[T\]>::get(_mut)?$')
def _(c):
    cl, p, lo, hi, v = vec(c, 0)
    i = c.args[1]
    if not isinstance(i, (int, z3.ArithRef)):
        raise Unsupported('range get')
    if c.e.decide(c.st, b_and(c.e.icmp('Ge', i, 0), c.e.icmp('Lt', i, c.e.iadd(hi, -lo)))):
        return some(Ref(cl, p + (elem(lo, i),)))
    return NONE


@rx(r'^core::slice::<impl \[T\]>::get_unchecked(_mut)?$')
def _(c):
    cl, p, lo, hi, v = vec(c, 0)
    return Ref(cl, p + (elem(lo, c.args[1]),))


@rx(r'^core::slice::<impl \[T\]>::(first|last)(_mut)?$')
def _(c):
    cl, p, lo, hi, v = vec(c, 0)
    if c.e.decide(c.st, c.e.icmp('Le', c.e.iadd(hi, -lo), 0)):
        return NONE
    return some(Ref(cl, p + (('x', lo if 'first' in c.fn['def'] else c.e.iadd(hi, -1)),)))


def conc(v):
    return isinstance(v, VecV)


@exact('std::vec::Vec::<T, A>::push')
def _(c):
    v = c.deref(0)
    if conc(v):
        c.save(0, VecV(v.e + (c.args[1],)))
    else:
        c.save(0, SVec(('ins', v, v.n, c.args[1]), c.e.iadd(v.n, 1)))
    return ()


@exact('<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend', 'std::vec::Vec::<T, A>::extend_from_slice',
       "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend")
def _(c):
    v, x = c.deref(0), c.args[1]
    if isinstance(x, Ref):
        cl, p, lo, hi, w = vec(c, 1)
        if not conc(w) or not isinstance(lo, int) or not isinstance(hi, int):
            raise Unsupported('extend by a symbolic sequence')
        new = w.e[lo:hi]
    elif isinstance(x, En):
        new = x.f if x.v == 1 else ()
    elif isinstance(x, VecV):
        new = x.e
    elif isinstance(x, tuple) and len(x) == 3 and x[0] == 'arr':
        new = x[1].e[x[2]:]
    else:
        raise Unsupported('extend')
    if conc(v):
        c.save(0, VecV(v.e + tuple(new)))
    else:
        for y in new:
            v = SVec(('ins', v, v.n, y), c.e.iadd(v.n, 1))
        c.save(0, v)
    return ()


@exact('std::vec::Vec::<T, A>::pop')
def _(c):
    v = c.deref(0)
    if not conc(v):
        raise Unsupported('pop of a symbolic Vec')
    if not v.e:
        return NONE
    c.save(0, VecV(v.e[:-1]))
    return some(v.e[-1])


@exact('std::vec::Vec::<T, A>::insert')
def _(c):
    v, i = c.deref(0), c.args[1]
    n = c.e.seq_len(v)
    c.e.oblige(c.st, b_and(c.e.icmp('Ge', i, 0), c.e.icmp('Le', i, n)), 'no panic: insertion out of bounds', c.where())
    if conc(v):
        i = c.e.pick(c.st, i, len(v.e) + 1)
        c.save(0, VecV(v.e[:i] + (c.args[2],) + v.e[i:]))
    else:
        c.save(0, SVec(('ins', v, i, c.args[2]), c.e.iadd(n, 1)))
    return ()


@exact('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def _(c):
    v, i = c.deref(0), c.args[1]
    n = c.e.seq_len(v)
    c.e.oblige(c.st, b_and(c.e.icmp('Ge', i, 0), c.e.icmp('Lt', i, n)), 'no panic: removal out of bounds', c.where())
    if conc(v):
        i = c.e.pick(c.st, i, len(v.e))
        x = v.e[i]
        if c.fn['def'].endswith('swap_remove'):
            l = list(v.e)
            l[i] = l[-1]
            c.save(0, VecV(l[:-1]))
        else:
            c.save(0, VecV(v.e[:i] + v.e[i + 1:]))
        return x
    if c.fn['def'].endswith('swap_remove'):
        raise Unsupported('swap_remove of a symbolic Vec')
    x = c.e.seq_read(c.st, v, i)
    c.save(0, SVec(('rem', v, i), c.e.iadd(n, -1)))
    return x


@exact('std::vec::Vec::<T, A>::clear')
def _(c):
    c.save(0, VecV([]))
    return ()


@exact('std::vec::Vec::<T, A>::truncate')
def _(c):
    v, n = c.deref(0), c.args[1]
    if not conc(v) or not isinstance(n, int):
        raise Unsupported('truncate')
    c.save(0, VecV(v.e[:n]))
    return ()


@rx(r'^std::slice::<impl \[T\]>::(to_vec|into_vec)$', r'^<std::vec::Vec<T, A> as std::clone::Clone>::clone$',
    r'^std::slice::<impl std::borrow::ToOwned for \[T\]>::to_owned$', r'^<std::vec::Vec<T> as std::convert::From<&\[T\]>>::from$')
def _(c):
    cl, p, lo, hi, v = vec(c, 0)
    if conc(v):
        if not (isinstance(lo, int) and isinstance(hi, int)):
            raise Unsupported('symbolic slice')
        return VecV(v.e[lo:hi])
    if isinstance(lo, int) and lo == 0 and same(hi, v.n):
        return v
    raise Unsupported('clone of a part of a symbolic sequence')


@rx(r'^<std::vec::Vec<T> as std::convert::From<\[T; N\]>>::from$', r'^std::slice::<impl \[T\]>::into_vec$')
def _(c):
    if isinstance(c.args[0], VecV):
        return c.args[0]
    raise Unsupported('into_vec')


@exact('core::slice::<impl [T]>::swap')
def _(c):
    cl, p, lo, hi, v = vec(c, 0)
    i, j = c.args[1], c.args[2]
    n = c.e.iadd(hi, -lo)
    for k in (i, j):
        c.e.oblige(c.st, b_and(c.e.icmp('Ge', k, 0), c.e.icmp('Lt', k, n)), 'no panic: swap out of bounds', c.where())
    pi, pj = p + (elem(lo, i),), p + (elem(lo, j),)
    a, b = c.e.load(c.st, cl, pi), c.e.load(c.st, cl, pj)
    c.e.save(c.st, cl, pi, b)
    c.e.save(c.st, cl, pj, a)
    return ()


@exact('core::slice::<impl [T]>::reverse')
def _(c):
    cl, p, lo, hi, v = vec(c, 0)
    if not conc(v) or not isinstance(lo, int) or not isinstance(hi, int):
        raise Unsupported('reverse')
    c.e.save(c.st, cl, p, VecV(v.e[:lo] + v.e[lo:hi][::-1] + v.e[hi:]))
    return ()


# iterators over slices: (reference, position, end)
@exact('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'core::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter',
       "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "std::slice::Iter::<'a, T>::new",
       "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def _(c):
    cl, p, lo, hi, v = vec(c, 0)
    return (Ref(cl, p), lo, hi)


@exact("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
def _(c):
    r, lo, hi = c.deref(0)
    if c.e.decide(c.st, c.e.icmp('Ge', lo, hi)):
        return NONE
    c.save(0, (r, c.e.iadd(lo, 1), hi))
    return some(Ref(r.c, r.p + (('x', lo),)))


@exact("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back")
def _(c):
    r, lo, hi = c.deref(0)
    if c.e.decide(c.st, c.e.icmp('Ge', lo, hi)):
        return NONE
    hi = c.e.iadd(hi, -1)
    c.save(0, (r, lo, hi))
    return some(Ref(r.c, r.p + (('x', hi),)))


@exact("<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len")
def _(c):
    r, lo, hi = c.deref(0)
    return c.e.iadd(hi, -lo)


@exact('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def _(c):
    v = c.args[0]
    return ('vec', Ref(c.st.cell(v), ()), 0, c.e.seq_len(v))


@exact('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next')
def _(c):
    _, r, lo, hi = c.deref(0)
    if c.e.decide(c.st, c.e.icmp('Ge', lo, hi)):
        return NONE
    c.save(0, ('vec', r, c.e.iadd(lo, 1), hi))
    return some(c.e.load(c.st, r.c, r.p + (('x', lo),)))


@exact('std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def _(c):
    v = c.args[0]
    return ('arr', v, 0)


@exact('<std::array::IntoIter<T, N> as std::iter::Iterator>::next')
def _(c):
    _, v, i = c.deref(0)
    if i >= len(v.e):
        return NONE
    c.save(0, ('arr', v, i + 1))
    return some(v.e[i])


@exact('std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq', '<T as std::array::equality::SpecArrayEq<U, N>>::spec_eq')
def _(c):
    a, b = c.deref(0), c.deref(1)
    for _, x in leaves(a):
        if not (is_float(x) or isinstance(x, (int, bool, z3.ExprRef))):
            from engine import DEFER
            return DEFER
    return veq(c.e, c.st, a, b)


@exact('<usize as std::iter::Step>::forward_unchecked', '<i32 as std::iter::Step>::forward_unchecked')
def _(c):
    return c.e.iadd(c.args[0], c.args[1])


@exact('<usize as std::iter::Step>::backward_unchecked', '<i32 as std::iter::Step>::backward_unchecked')
def _(c):
    return c.e.iadd(c.args[0], -c.args[1] if isinstance(c.args[1], int) else -zi(c.args[1]))


def closure_key(c):
    return c.e.closure_fn(c)


def unshim(e, key):
    """The closure behind its FnOnce form, whose body calls it by reference."""
    fn = e.p.fns[key]
    if fn.get('kind') == 'shim' and 'body' in fn:
        for b in fn['body']['blocks']:
            if b['t']['k'] == 'call' and b['t']['f'].get('fn') and len(b['t']['args']) == 2:
                return b['t']['f']['fn']
    return key


def call_closure(e, st, key, cell, args, then):
    """Calls the closure kept in a cell; then(e, st, frame, result) runs when it returns."""
    key = unshim(e, key)
    fn = e.p.fns[key]
    body = fn.get('body')
    if body is None:
        raise Unsupported('no body: ' + fn['name'])
    if '{closure' not in fn['def']:
        e.push(st, key, list(args), None, None, then)
        return
    t = e.ty(body['locals'][1])
    self = Ref(cell, ()) if t['k'] in ('ref', 'ptr') else st.store[cell]
    if body['argc'] == 1 and not args:
        e.push(st, key, [self], None, None, then)
    else:
        e.push(st, key, [self, tuple(args)], None, None, then)


def pure_formula(e, st, key, cell, args, store=None):
    """The truth of a predicate closure, as a formula (it must not have effects nor need new variables)."""
    out = []
    t = st.copy()
    if store is not None:
        t.store = store
    n0, base, pre = t.n, len(t.pc), dict(t.store)
    depth = len(t.frames)

    class Done(Exception):
        pass

    def then(e, s, up, v):
        if s.n != n0:
            raise Unsupported('predicate that needs new variables')
        for cl, x in pre.items():
            if not same(s.store.get(cl), x):
                raise Unsupported('predicate with effects')
        out.append(z3.And(*([zb(x) for x in s.pc[base:]] + [zb(v)])))
        raise Infeasible_()

    from engine import Infeasible as Infeasible_
    call_closure(e, t, key, cell, args, then)
    e.explore([t])
    return z3.simplify(z3.Or(*out)) if out else z3.BoolVal(False)


class ForAll:
    """Every element of a symbolic sequence in a range satisfies a predicate."""

    def __init__(s, v, lo, hi, pred):
        s.v, s.lo, s.hi, s.pred = v, lo, hi, pred
        k, s.over = v.kind, []
        while k[0] == 'set':
            s.over.append((k[2], k[3]))
            v = k[1]
            k = v.kind
        if k[0] not in ('base', 'fill'):
            raise Unsupported('predicate over ' + k[0])
        s.root = v

    def inside(s, i):
        return z3.And(zi(i) >= zi(s.lo), zi(i) < zi(s.hi))

    def facts(s, e, st):
        """What holds of the elements that were written or read."""
        for n, (i, x) in enumerate(s.over):
            cond = [s.inside(i)] + [zi(i) != zi(j) for j, _ in s.over[:n]]
            st.assume(z3.Implies(z3.And(*cond), s.pred(e, st, x)))
        if s.root.kind[0] == 'base':
            for (name, i, x) in st.reads:
                if name == s.root.kind[1]:
                    s.on_read(e, st, i, x)

    def on_read(s, e, st, i, x):
        cond = [s.inside(i)] + [zi(i) != zi(j) for j, _ in s.over]
        st.assume(z3.Implies(z3.And(*cond), s.pred(e, st, x)))


def quantified(c, want):
    """all (want=True) and any (want=False) over a slice."""
    e, st = c.e, c.st
    r, lo, hi = c.deref(0)
    v = e.load(st, r.c, r.p)
    key = closure_key(c)
    cell = st.cell(c.args[1])
    if not isinstance(v, SVec):
        st.store.pop(cell)
        from engine import DEFER
        return DEFER

    snap = dict(st.store)       # what the closure has captured

    def pred(e, st, x):
        k = st.cell(x)
        p = pure_formula(e, st, key, cell, [Ref(k, ())], dict(snap, **{k: x}))
        return p if want else z3.simplify(z3.Not(p))
    fa = ForAll(v, lo, hi, pred)
    holds = e.decide(st, e.rdef(st, ('forall', v.kind[0], id(v), str(lo), str(hi), key, want, tuple(map(str, leaves(c.args[1])))),
                                lambda: (st.fresh('b', 'all'), v)))
    if holds:
        fa.facts(e, st)
        if fa.root.kind[0] == 'base':
            st.foralls = st.foralls + ((fa.root.kind[1], fa),)
        return want
    w = st.fresh('i', 'witness')
    st.assume(fa.inside(w))
    x = e.seq_read(st, v, w)
    st.assume(z3.Not(pred(e, st, x)))
    if not e.dry and e.sol.sat(st.pc, z3.BoolVal(True)) == 'unsat':
        from engine import Infeasible
        raise Infeasible()
    return not want


@exact("<std::slice::Iter<'a, T> as std::iter::Iterator>::all")
def _(c):
    return quantified(c, True)


@exact("<std::slice::Iter<'a, T> as std::iter::Iterator>::any")
def _(c):
    return quantified(c, False)


@rx(r'^<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter$')
def _(c):
    if 'std::iter::Take<std::iter::Repeat<' in c.fn['name']:
        it = c.args[0]                       # ((element), count)
        x, n = it
        while isinstance(x, tuple) and len(x) == 1:
            x = x[0]
        return SVec(('fill', x), n)
    raise Unsupported('collect')


# -------------------------------------------------------------------- hash maps and sets
class SMap:
    """kind: ('empty',) ('base', name) ('set', map, key, value) ('rem', map, key)"""
    __slots__ = ('kind',)

    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return 'SMap%r' % (self.kind[:1],)


def map_get(e, st, m, key):
    """The value, or None when absent (forks)."""
    k = m.kind
    if k[0] == 'empty':
        return None
    if k[0] == 'set':
        if e.decide(st, veq(e, st, k[2], key)):
            return k[3]
        return map_get(e, st, k[1], key)
    if k[0] == 'rem':
        if e.decide(st, veq(e, st, k[2], key)):
            return None
        return map_get(e, st, k[1], key)
    if k[0] == 'base':
        for (n, k0, present, val) in st.maps:
            if n == k[1] and same(k0, key):
                return val if e.decide(st, present) else None
        for (n, k0, present, val) in st.maps:
            if n == k[1] and e.decide(st, veq(e, st, k0, key)):
                return val if e.decide(st, present) else None
        present = st.fresh('b', k[1] + '.has')
        val = k[2](e, st)
        st.maps = st.maps + ((k[1], key, present, val),)
        return val if e.decide(st, present) else None
    raise Unsupported('map')


def arbitrary_map(e, st, d, hint):
    """Any map of its type. A value has the shape of its type's default where it has containers."""
    st.n += 1
    name = '%s#%d' % (hint, st.n)
    if d['name'].endswith('HashSet'):
        return SMap(('base', name, lambda e, st: ()))
    vt = d['args'][1]
    vd = e.ty(vt)
    default = None
    for k, f in e.p.fns.items():
        if f['name'] == '<%s as std::default::Default>::default' % vd['disp'] and 'body' in f:
            default = k
    if default is None:
        return SMap(('base', name, lambda e, st: e.fresh_of(st, vt, name + '@', record=False)))
    skel = []

    def then(e2, s2, up, v):
        skel.append(v)
        from engine import Infeasible
        raise Infeasible()
    t = st.copy()
    t.frames = []
    e.push(t, default, [], None, None, None)
    root = t.frames[0]
    e.push(t, default, [], None, None, then)
    e.explore([t])
    if len(skel) != 1:
        raise Unsupported('default of ' + vd['disp'])

    def like(e, st, v, t):
        d = e.ty(t)
        if isinstance(v, SVec):
            st.n += 1
            return SVec(('base', '%s@%d' % (name, st.n), d['args'][0]), v.n)
        if isinstance(v, tuple) and d['k'] == 'adt' and d['kind'] == 'struct':
            return tuple(like(e, st, x, f['ty']) for x, f in zip(v, d['variants'][0]['fields']))
        return v
    return SMap(('base', name, lambda e, st: like(e, st, skel[0], vt)))


def map_at(e, st, m, key):
    v = map_get(e, st, m, key)
    if v is None:
        raise Unsupported('reference to a missing map entry')
    return v


def keyval(c, v):
    while isinstance(v, Ref):
        v = c.e.load(c.st, v.c, v.p)
    return v


def themap(c):
    r = c.args[0]
    m = c.e.load(c.st, r.c, r.p)
    p = r.p
    while isinstance(m, tuple):        # wrappers
        i = next(i for i, x in enumerate(m) if isinstance(x, (SMap, tuple)) and x != ())
        m, p = m[i], p + (i,)
    if not isinstance(m, SMap):
        raise Unsupported('hash map %r' % (m,))
    return r.c, p, m


@exact('<std::collections::HashMap<K, V, S> as std::default::Default>::default', 'std::collections::HashMap::<K, V>::new',
       'std::collections::HashSet::<T>::new', '<std::collections::HashSet<T, S> as std::default::Default>::default')
def _(c):
    return SMap(('empty',))


@exact('std::collections::HashMap::<K, V, S, A>::get', 'std::collections::HashMap::<K, V, S, A>::get_mut')
def _(c):
    cl, p, m = themap(c)
    k = keyval(c, c.args[1])
    if map_get(c.e, c.st, m, k) is None:
        return NONE
    return some(Ref(cl, p + (('m', k),)))


@exact('std::collections::HashMap::<K, V, S, A>::contains_key', 'std::collections::HashSet::<T, S, A>::contains')
def _(c):
    cl, p, m = themap(c)
    return map_get(c.e, c.st, m, keyval(c, c.args[1])) is not None


@exact('std::collections::HashMap::<K, V, S, A>::insert')
def _(c):
    cl, p, m = themap(c)
    old = map_get(c.e, c.st, m, c.args[1])
    c.e.save(c.st, cl, p, SMap(('set', m, c.args[1], c.args[2])))
    return NONE if old is None else some(old)


@exact('std::collections::HashSet::<T, S, A>::insert')
def _(c):
    cl, p, m = themap(c)
    old = map_get(c.e, c.st, m, c.args[1])
    if old is None:
        c.e.save(c.st, cl, p, SMap(('set', m, c.args[1], ())))
    return old is None


@exact('std::collections::HashMap::<K, V, S, A>::remove')
def _(c):
    cl, p, m = themap(c)
    k = keyval(c, c.args[1])
    old = map_get(c.e, c.st, m, k)
    if old is None:
        return NONE
    c.e.save(c.st, cl, p, SMap(('rem', m, k)))
    return some(old)


@exact('std::collections::HashMap::<K, V, S, A>::entry')
def _(c):
    cl, p, m = themap(c)
    return ('entry', Ref(cl, p), c.args[1])


@rx(r'hash_map::Entry::<[^>]*>::(or_insert_with|or_insert|or_default)$')
def _(c):
    _, r, k = c.args[0]
    m = c.e.load(c.st, r.c, r.p)
    if map_get(c.e, c.st, m, k) is not None:
        return Ref(r.c, r.p + (('m', k),))
    if c.fn['def'].endswith('or_insert'):
        c.e.save(c.st, r.c, r.p, SMap(('set', m, k, c.args[1])))
        return Ref(r.c, r.p + (('m', k),))
    dest, to = c.dest, c.t['to']

    def then(e, st, up, v):
        m = e.load(st, r.c, r.p)
        e.save(st, r.c, r.p, SMap(('set', m, k, v)))
        e.save(st, dest[0], dest[1], Ref(r.c, r.p + (('m', k),)))
        return e.jump(st, up, to)
    if c.fn['def'].endswith('or_default'):
        vt = c.e.ty([a for a in c.fn['args'] if isinstance(a, int)][1])
        name = '<%s as std::default::Default>::default' % vt['disp']
        if vt['k'] == 'int':
            c.e.save(c.st, r.c, r.p, SMap(('set', m, k, 0)))
            return Ref(r.c, r.p + (('m', k),))
        key = next((x for x, f in c.e.p.fns.items() if f['name'] == name and 'body' in f), None)
        if key is None:
            raise Unsupported(name)
        c.e.push(c.st, key, [], None, None, then)
        c.pushed = True
        return None
    # the closure is a generic argument of the entry method
    call_closure(c.e, c.st, closure_key(c), c.st.cell(c.args[1] if len(c.args) > 1 else ()), [], then)
    c.pushed = True
    return None
