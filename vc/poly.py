"""Equalities that follow from polynomial equations in the path condition.

The goal `l = r` is proved when `l - r` reduces to zero modulo the equations that define
quotients, square roots and sine/cosine pairs (and other equalities on the path), times a factor
that the path condition shows to be non-zero.  Pure rewriting plus a Gröbner basis (sympy).
"""
import os
import signal
import threading
import z3


def to_sympy(t, syms, memo):
    import sympy
    i = t.get_id()
    if i in memo:
        return memo[i]
    k = t.decl().kind()
    if z3.is_rational_value(t):
        r = sympy.Rational(t.numerator_as_long(), t.denominator_as_long())
    elif z3.is_int_value(t):
        r = sympy.Integer(t.as_long())
    elif z3.is_const(t) and k == z3.Z3_OP_UNINTERPRETED:
        r = syms.setdefault(t.decl().name(), sympy.Symbol(t.decl().name()))
    else:
        a = [to_sympy(x, syms, memo) for x in t.children()]
        if k == z3.Z3_OP_ADD:
            r = sympy.Add(*a)
        elif k == z3.Z3_OP_MUL:
            r = sympy.Mul(*a)
        elif k == z3.Z3_OP_SUB:
            r = a[0] - sum(a[1:])
        elif k == z3.Z3_OP_UMINUS:
            r = -a[0]
        elif k == z3.Z3_OP_POWER and a[1].is_Integer and a[1] >= 0:
            r = a[0] ** a[1]
        elif k == z3.Z3_OP_TO_REAL:
            r = a[0]
        else:
            raise ValueError(str(t.decl()))
    memo[i] = r
    return r


def _field(pc, goal, defs):
    """Normal form in the field of rational functions over the base variables, with the squares of
    sines and of square roots rewritten."""
    from sympy import ring, QQ
    import solve
    memo = {}
    names, todo = set(), [goal]
    while todo:
        for n in solve._vars(todo.pop(), memo):
            if n not in names:
                names.add(n)
                d = defs.get(n)
                if d:
                    if d[0] == 'sin':
                        names.add(d[1])
                    else:
                        todo.extend(d[1:])
    if not names:
        return False
    names = sorted(names)
    R, *gens = ring(names, QQ, order='grevlex')
    base = dict(zip(names, gens))
    quot, squares = {}, []
    for n in sorted(names, key=lambda n: int(n.split('!')[-1]) if '!' in n else 0):
        d = defs.get(n)
        if d and d[0] == 'quot':
            quot[n] = (d[2], d[1])
        elif d and d[0] == 'sqrt':
            squares.append((n, d[1], None))
        elif d:
            squares.append((n, None, d[1]))
    val, tm = {}, {}

    def var(n):
        if n not in val:
            if n in quot:
                b, a = quot[n]
                (bn, bd), (an, ad) = conv(b), conv(a)
                val[n] = red(an * bd, ad * bn)
            else:
                val[n] = (base[n], R(1))
        return val[n]

    def red(n, d):
        if n == 0:
            return (R(0), R(1))
        if len(d) == 1:
            (m, c), = d.terms()
            k = tuple(min(y) for y in zip(m, *[x for x in n.monoms()]))
            if any(k):
                x = n.ring.from_dict({k: QQ(1)})
                return n.quo(x), d.quo(x)
        return n, d

    def conv(t):
        i = t.get_id()
        if i in tm:
            return tm[i]
        k = t.decl().kind()
        if z3.is_rational_value(t):
            r = (R(QQ(t.numerator_as_long(), t.denominator_as_long())), R(1))
        elif z3.is_const(t) and k == z3.Z3_OP_UNINTERPRETED:
            r = var(t.decl().name())
        else:
            a = [conv(x) for x in t.children()]
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                n, d = a[0]
                for n2, d2 in a[1:]:
                    if k == z3.Z3_OP_SUB:
                        n2 = -n2
                    if d == d2:
                        n = n + n2
                    else:
                        n, d = n * d2 + n2 * d, d * d2
                r = red(n, d)
            elif k == z3.Z3_OP_MUL:
                n, d = a[0]
                for n2, d2 in a[1:]:
                    n, d = n * n2, d * d2
                r = red(n, d)
            elif k == z3.Z3_OP_UMINUS:
                r = (-a[0][0], a[0][1])
            elif k == z3.Z3_OP_TO_REAL:
                raise ValueError('int')
            else:
                raise ValueError(str(t.decl()))
        tm[i] = r
        return r
    ln, ld = conv(goal.arg(0))
    rn, rd = conv(goal.arg(1))
    g = ln * rd - rn * ld
    if g == 0:
        return True
    rules = []
    for n, arg, cos in squares:
        if cos is not None:
            rules.append((n, base[n] ** 2 + base[cos] ** 2 - 1))
        else:
            an, ad = conv(arg)
            rules.append((n, (ad, an)))
    # later square roots may contain earlier ones: rewrite from the last to the first
    for _ in range(2):
        for n, r in reversed(rules):
            x = base[n]
            if isinstance(r, tuple):
                g = _rewrite(g, x, r[0], r[1])
            else:
                g = _rewrite(g, x, R(1), x ** 2 - r)
            if g == 0:
                return True
    return False


def _rewrite(g, x, ad, an):
    """Replaces x^2 by an/ad and clears the denominator."""
    i = g.ring.gens.index(x)
    parts = {}
    for m, c in g.terms():
        k = m[i]
        m2 = list(m)
        m2[i] = k % 2
        h = parts.setdefault(k // 2, {})
        m2 = tuple(m2)
        h[m2] = h.get(m2, 0) + c
    top = max(parts)
    out = g.ring(0)
    for k, h in parts.items():
        out += g.ring.from_dict({m: c for m, c in h.items() if c}) * an ** k * ad ** (top - k)
    return out


def _identity(pc, goal, defs):
    try:
        if _field(pc, goal, defs):
            return True
    except ValueError:
        pass
    import sympy
    syms, memo = {}, {}
    g = sympy.expand(to_sympy(goal.arg(0), syms, memo) - to_sympy(goal.arg(1), syms, memo))
    if g == 0:
        return True
    eqs, nonzero = [], []
    for c in pc:
        try:
            if z3.is_eq(c) and c.arg(0).sort() == z3.RealSort():
                eqs.append(sympy.expand(to_sympy(c.arg(0), syms, memo) - to_sympy(c.arg(1), syms, memo)))
            elif z3.is_not(c) and z3.is_eq(c.arg(0)) and c.arg(0).arg(0).sort() == z3.RealSort():
                d = c.arg(0)
                nonzero.append(sympy.expand(to_sympy(d.arg(0), syms, memo) - to_sympy(d.arg(1), syms, memo)))
            elif c.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_GT):
                nonzero.append(sympy.expand(to_sympy(c.arg(0), syms, memo) - to_sympy(c.arg(1), syms, memo)))
        except ValueError:
            continue
    eqs = [x for x in eqs if x != 0]
    # equations that define a variable linearly with a constant coefficient: substitute
    changed = True
    while changed:
        changed = False
        for x in eqs:
            for v in x.free_symbols:
                p = sympy.Poly(x, v)
                if p.degree() == 1 and p.LC().is_number:
                    sub = sympy.expand(-p.nth(0) / p.LC())
                    g = sympy.expand(g.subs(v, sub))
                    eqs = [y for y in (sympy.expand(y.subs(v, sub)) for y in eqs if y is not x) if y != 0]
                    nonzero = [sympy.expand(y.subs(v, sub)) for y in nonzero]
                    changed = True
                    break
            if changed:
                break
    if g == 0:
        return True
    want = set(g.free_symbols)
    used, grow = [], True
    rest = list(eqs)
    while grow:
        grow = False
        for x in list(rest):
            if x.free_symbols & want:
                used.append(x)
                rest.remove(x)
                if not x.free_symbols <= want:
                    want |= x.free_symbols
                    grow = True
    # a factor u with u * nz = 1 makes the non-zero facts usable
    nz = [n for n in nonzero if n.free_symbols and n.free_symbols <= want]
    fact = []
    for n in nz:
        for f, _ in sympy.factor_list(n)[1]:
            if f not in fact:
                fact.append(f)
    gens = sorted(want, key=str)
    inv = [sympy.Symbol('inv_%d' % i) for i in range(len(fact))]
    basis = used + [n * u - 1 for n, u in zip(fact, inv)]
    for subset in ([used] if not inv else [used, basis]):
        if not subset:
            continue
        gb = sympy.groebner(subset, *(inv + gens), order='grevlex')
        if gb.contains(g):
            return True
    return False


class _Timeout(Exception):
    pass


def identity(pc, goal, secs, defs):
    if threading.current_thread() is not threading.main_thread():
        return False

    def hit(*_):
        raise _Timeout()
    old = signal.signal(signal.SIGALRM, hit)
    signal.setitimer(signal.ITIMER_REAL, secs, 0.25)
    try:
        return _identity(pc, goal, defs)
    except (_Timeout, ValueError, Exception) as x:
        if os.environ.get("DEBUG"):
            import traceback
            traceback.print_exc()
        return False
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
