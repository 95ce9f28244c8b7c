"""Refutation by products of constraints (Positivstellensatz certificates of low degree): products of
the constraints with each other are added as further constraints, monomials become opaque numbers,
and linear arithmetic decides.  Sound: every added constraint follows from the given ones."""
import time
from fractions import Fraction
import z3


class Big(Exception):
    pass


class Polys:
    """Terms as polynomials: {sorted tuple of variable numbers: coefficient}."""

    def __init__(s):
        s.ids, s.vars, s.memo = {}, [], {}

    def var(s, c):
        i = c.get_id()
        if i not in s.ids:
            s.ids[i] = len(s.vars)
            s.vars.append(c)
        return {(s.ids[i],): 1}

    def of(s, c):
        i = c.get_id()
        r = s.memo.get(i)
        if r is None:
            r = s.memo[i] = (c, s.conv(c))
        return r[1]

    def conv(s, c):
        if z3.is_rational_value(c):
            f = Fraction(c.numerator_as_long(), c.denominator_as_long())
            return {(): f} if f else {}
        k = c.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for x in c.children():
                addto(r, s.of(x), 1)
            return r
        if k == z3.Z3_OP_SUB:
            r = dict(s.of(c.arg(0)))
            for x in c.children()[1:]:
                addto(r, s.of(x), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in s.of(c.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for x in c.children():
                r = mul(r, s.of(x))
            return r
        if k == z3.Z3_OP_POWER and z3.is_rational_value(c.arg(1)):
            n = c.arg(1)
            if n.denominator_as_long() == 1 and 0 <= n.numerator_as_long() <= 6:
                r = {(): Fraction(1)}
                for _ in range(n.numerator_as_long()):
                    r = mul(r, s.of(c.arg(0)))
                return r
        return s.var(c)


def addto(r, p, k):
    for m, v in p.items():
        w = r.get(m, 0) + k * v
        if w:
            r[m] = w
        else:
            r.pop(m, None)


def mul(a, b, cap=1500):
    if len(a) * len(b) > 20 * cap:
        raise Big()
    r = {}
    for m, v in a.items():
        for n, w in b.items():
            t = tuple(sorted(m + n))
            x = r.get(t, 0) + v * w
            if x:
                r[t] = x
            else:
                r.pop(t, None)
    if len(r) > cap:
        raise Big()
    return r


def degree(p):
    return max((len(m) for m in p), default=0)


REL = {z3.Z3_OP_LE: ('<=', 1), z3.Z3_OP_LT: ('<', 1), z3.Z3_OP_GE: ('<=', -1), z3.Z3_OP_GT: ('<', -1), z3.Z3_OP_EQ: ('=', 1)}


def atoms(P, cs):
    """[(polynomial, rel)] with rel one of > >= = for `polynomial rel 0`; what is not a conjunction is left out."""
    out, todo = [], [(c, False) for c in cs]
    while todo:
        c, neg = todo.pop()
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            todo.append((c.arg(0), not neg))
        elif (k == z3.Z3_OP_AND and not neg) or (k == z3.Z3_OP_OR and neg):
            todo.extend((x, neg) for x in c.children())
        elif k in REL and c.arg(0).sort() == z3.RealSort():
            rel, sg = REL[k]
            try:
                d = dict(P.of(c.arg(0)))
                addto(d, P.of(c.arg(1)), -1)
                if rel == '=':
                    if neg:
                        out.append((mul(d, d), '>'))
                    else:
                        out.append((d, '='))
                    continue
            except Big:
                continue
            # d <= 0 (sg 1) or d >= 0 (sg -1)
            if neg:
                rel = '<' if rel == '<=' else '<='
                sg = -sg
            if sg == 1:
                d = {m: -v for m, v in d.items()}
            out.append((d, '>' if rel == '<' else '>='))
    return out


def norm(p):
    """Up to a positive factor."""
    if not p:
        return ()
    m = min(p)
    k = abs(p[m])
    return tuple(sorted((n, v / k) for n, v in p.items()))


def product(a, b, rules):
    (p, r), (q, t) = a, b
    rel = '=' if '=' in (r, t) else '>' if (r, t) == ('>', '>') else '>='
    return reduced(mul(p, q, 400), rules), rel


def linear_sums(cs):
    """Sums of numbers that occur in the constraints, the most frequent first."""
    count, seen, keep = {}, set(), {}
    todo = list(cs)
    while todo:
        c = todo.pop()
        i = c.get_id()
        first = i not in seen
        seen.add(i)
        if not first:
            continue
        for x in c.children():
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ADD and x.sort() == z3.RealSort():
                ok, vs = True, []
                for y in x.children():
                    v = y
                    if y.decl().kind() == z3.Z3_OP_MUL and y.num_args() == 2 and z3.is_rational_value(y.arg(0)):
                        v = y.arg(1)
                    if not (z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                        ok = False
                    vs.append(v)
                if ok and len(vs) >= 2:
                    count[x.get_id()] = count.get(x.get_id(), 0) + 1
                    keep[x.get_id()] = (x, vs)
            todo.append(x)
    return [keep[i] for i in sorted(count, key=lambda i: (-count[i], i))]


def straighten(cs):
    """A linear change of variables after which frequent sums are variables."""
    sums = linear_sums(cs)
    fixed, gone = set(), set()
    sub = []
    for x, vs in sums:
        if len(sub) >= 12:
            break
        if any(v.get_id() in gone for v in vs):
            continue
        for v in vs:
            if v.get_id() not in fixed:
                break
        else:
            continue
        # v = (new - rest) / coefficient
        k, rest = 0, []
        for y in x.children():
            if y.decl().kind() == z3.Z3_OP_MUL:
                a, w = y.arg(0), y.arg(1)
            else:
                a, w = z3.RealVal(1), y
            if w.eq(v):
                k = a
            else:
                rest.append(a * w)
        new = z3.Real('sum!%d' % len(sub))
        sub.append((v, (new - z3.Sum(rest)) / k))
        gone.add(v.get_id())
        fixed.update(w.get_id() for w in vs if not w.eq(v))
    if not sub:
        return None
    return [z3.simplify(z3.substitute(c, *sub)) for c in cs]


def rules_of(P, cs):
    """Quotients: q * D = N becomes the rule  q * (leading term of D) -> ..."""
    out = []
    for c in cs:
        if c.decl().kind() != z3.Z3_OP_EQ or c.arg(0).sort() != z3.RealSort():
            continue
        try:
            d = dict(P.of(c.arg(0)))
            addto(d, P.of(c.arg(1)), -1)
        except Big:
            continue
        qs = {i for m in d for i in m if P.vars[i].decl().name().startswith('quot!')}
        if len(qs) != 1:
            continue
        k = qs.pop()
        D = {}
        for m, v in d.items():
            if k in m:
                n = list(m)
                n.remove(k)
                if k in n:
                    D = None
                    break
                D[tuple(n)] = v
        if not D or () in D and len(D) == 1:
            continue
        lead = max(D, key=lambda m: (len(m), m))
        lm = tuple(sorted(lead + (k,)))
        c0 = Fraction(D[lead])
        rest = {m: -Fraction(v) / c0 for m, v in d.items() if m != lm}
        N = {m: -v for m, v in d.items() if k not in m}
        out.append((k, lm, rest, D, N))
    return out


def divides(a, m):
    """m / a or None"""
    r = list(m)
    for i in a:
        if i in r:
            r.remove(i)
        else:
            return None
    return tuple(r)


def reduced(p, rules):
    if not rules:
        return p
    todo, out, n = dict(p), {}, 0
    while todo:
        m = next(iter(todo))
        v = todo.pop(m)
        if not v:
            continue
        for (k, lm, rest, _, _) in rules:
            if k in m:
                t = divides(lm, m)
                if t is not None:
                    for x, w in rest.items():
                        y = tuple(sorted(x + t))
                        z = todo.get(y, 0) + v * w
                        if z:
                            todo[y] = z
                        else:
                            todo.pop(y, None)
                    n += 1
                    if n > 3000:
                        raise Big()
                    break
        else:
            w = out.get(m, 0) + v
            if w:
                out[m] = w
            else:
                out.pop(m, None)
    return out


def refute(cs, secs, maxdeg=6, goals=1):
    """True when the constraints (the last `goals` of them being the negated goal) have no solution."""
    cs = [z3.simplify(c) for c in cs]
    st = straighten(cs)
    if st is not None and attempt(st, secs, maxdeg, goals):
        return True
    return attempt(cs, secs / 2, maxdeg, goals)


def attempt(cs, secs, maxdeg, goals):
    end = time.time() + secs
    P = Polys()
    try:
        goal = atoms(P, cs[-goals:])
        base = atoms(P, cs[:-goals])
        rules = rules_of(P, cs)
        goal = [(reduced(p, rules), r) for p, r in goal]
        base = [(reduced(p, rules), r) for p, r in base]
    except Big:
        return False
    facts, have = [], set()

    def put(f):
        p, rel = f
        if all(m == () for m in p):
            return
        k = (norm(p), rel)
        if rel == '=':
            k = min(k, (norm({m: -v for m, v in p.items()}), rel))
        if k not in have:
            have.add(k)
            facts.append(f)
    for f in goal + base:
        put(f)
    ng = len(goal)
    n = len(facts)
    sol = z3.SolverFor('QF_LRA')
    mono = {}

    def lin(p):
        ts = []
        for m, v in p.items():
            c = z3.Q(v.numerator, v.denominator) if isinstance(v, Fraction) else z3.RealVal(v)
            if m == ():
                ts.append(c)
                continue
            x = mono.get(m)
            if x is None:
                x = mono[m] = z3.Real('m' + '_'.join(map(str, m)))
                if len(m) % 2 == 0 and all(m.count(i) % 2 == 0 for i in set(m)):
                    sol.add(x >= 0)
            ts.append(c * x)
        return z3.Sum(ts)

    def push(f):
        p, rel = f
        e = lin(p)
        sol.add(e > 0 if rel == '>' else e >= 0 if rel == '>=' else e == 0)

    def ask():
        left = end - time.time()
        if left <= 0:
            return None
        sol.set('timeout', int(left * 1000) + 1)
        return sol.check()
    for f in facts:
        push(f)
    if ask() == z3.unsat:
        return True

    def sign(p):
        """1, -1 or 0 (unknown) with strictness: (sign, strict)"""
        for sg in (1, -1):
            e = lin(p)
            for strict in (True, False):
                sol.push()
                sol.add((e if sg == 1 else -e) <= 0 if strict else (e if sg == 1 else -e) < 0)
                r = ask()
                sol.pop()
                if r == z3.unsat:
                    return sg, strict
        return 0, False
    # the signs of quotients
    for (k, lm, rest, D, N) in rules:
        a, b = sign(D), sign(N)
        if a[0]:
            # the divisor of a quotient is not zero
            f = ({m: a[0] * v for m, v in D.items()}, '>')
            put(f)
            push(f)
        if a[0] and b[0]:
            f = ({(k,): a[0] * b[0]}, '>' if b[1] else '>=')
            put(f)
            push(f)
    n = len(facts)
    # products, those that speak about known monomials first
    pairs = []
    for i in range(n):
        for j in range(i, n):
            if facts[i][1] == '=' and i == j:
                continue
            d = degree(facts[i][0]) + degree(facts[j][0])
            if d <= maxdeg:
                pairs.append((0 if i < ng else 1, d, len(facts[i][0]) * len(facts[j][0]), i, j))
    pairs.sort()
    known = set()
    for p, _ in facts[:n]:
        known |= set(p)
    prods = []
    for _, d, sz, i, j in pairs:
        if time.time() > end or len(prods) > 1500:
            break
        if sz > 900:
            continue
        try:
            prods.append(product(facts[i], facts[j], rules))
        except Big:
            continue
    used = [False] * len(prods)
    target = set(m for m in known if len(m) > 1)
    for rnd in range(3):
        new = 0
        grow = set()
        for k, f in enumerate(prods):
            if not used[k]:
                ms = [m for m in f[0] if m]
                hit = sum(m in target for m in ms)
                if hit and (hit * 2 >= len(ms) or rnd):
                    used[k] = True
                    push(f)
                    grow.update(ms)
                    new += 1
        target |= grow
        if not new and rnd:
            break
        r = ask()
        if r == z3.unsat:
            return True
        if r is None:
            return False
    return False


if __name__ == '__main__':
    import sys
    for f in sys.argv[1:]:
        s = z3.Solver()
        s.from_file(f)
        t = time.time()
        r = refute(list(s.assertions()), 10)
        print(f, r, '%.2f' % (time.time() - t))
