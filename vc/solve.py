"""Back ends: z3 (SMT core), z3 nlsat, and an exact polynomial-identity prover."""
import time
import z3
from values import zb, b_not


def _vars(c, memo):
    """The free constants of a term."""
    i = c.get_id()
    r = memo.get(i)
    if r is not None:
        return r[1]
    out = set()
    if z3.is_const(c):
        if c.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(c.decl().name())
    else:
        for x in c.children():
            out |= _vars(x, memo)
    memo[i] = (c, frozenset(out))
    return memo[i][1]


class Solver:
    def __init__(s, lim):
        s.lim = lim
        s.feas, s.wasted = lim.feas_ms, 0.0
        s.memo = {}
        s.cache = {}
        s.calls, s.secs = 0, 0.0
        s.by = {}

    def cone(s, pc, cond):
        """The constraints connected to `cond` through shared variables (dropping the others is
        sound for an unsat answer; a sat answer is only used as `not refuted`)."""
        want = set(_vars(cond, s.memo))
        rest = [(c, _vars(c, s.memo)) for c in pc]
        out, changed = [], True
        while changed:
            changed = False
            nxt = []
            for c, v in rest:
                if not v or v & want:
                    out.append(c)
                    if not v <= want:
                        want |= v
                        changed = True
                else:
                    nxt.append((c, v))
            rest = nxt
        return out

    def _check(s, cs, ms, tactic=None):
        t = time.time()
        try:
            if tactic == 'nlsat':
                sol = z3.Tactic('qfnra-nlsat').solver()
            elif tactic == 'linear':
                sol = z3.SimpleSolver()
                sol.set('smt.arith.nl', False)
            elif tactic:
                sol = z3.SolverFor(tactic)
            else:
                sol = z3.Solver()
            sol.set('timeout', int(ms))
            for c in cs:
                sol.add(c)
            r = str(sol.check())
            m = sol.model() if r == 'sat' else None
        except z3.Z3Exception:
            r, m = 'unknown', None
        s.calls += 1
        s.secs += time.time() - t
        return r, m

    def sat(s, pc, cond):
        cond = zb(cond)
        cs = s.cone(pc, cond)
        key = (cond.get_id(), tuple(sorted(c.get_id() for c in cs)))
        r = s.cache.get(key)
        if r is None:
            t = time.time()
            r = s._check(cs + [cond], s.feas)[0]
            if r == 'unknown':
                # products as opaque numbers
                r = s._check(cs + [cond], s.feas, 'linear')[0]
                r = r if r == 'unsat' else 'unknown'
            if r == 'unknown' and s.feas > 100 and s.products(cs + [cond], 0.3):
                r = 'unsat'
            if r == 'unknown':
                # give up sooner when this has cost much
                s.wasted += time.time() - t
                s.feas = s.lim.feas_ms if s.wasted < 8 else s.lim.feas_ms / 5
            s.cache[key] = (r, cs, cond)
        else:
            r = r[0]
        return r

    def products(s, cs, secs):
        import handel
        t = time.time()
        try:
            return handel.refute(cs, secs) if len(cs) <= 120 else False
        except z3.Z3Exception:
            return False
        finally:
            s.calls += 1
            s.secs += time.time() - t

    # ---------------------------------------------------------------- obligations
    def prove(s, st, c, quick=False):
        """('proved'|'failed'|'unknown', back end, model)"""
        raw = c
        if isinstance(c, bool):
            if c:
                return 'proved', 'syntactic', None
            c = z3.BoolVal(False)
        else:
            c = z3.simplify(c)
            if z3.is_true(c):
                return 'proved', 'syntactic', None
            k = st.known.get(c.get_id())
            if k is not None and k[0]:
                return 'proved', 'syntactic', None
        if z3.is_and(c):
            how = 'syntactic'
            for x in c.children():
                r, h, m = s.prove(st, x, quick)
                if r != 'proved':
                    return r, h, m
                how = h if how == 'syntactic' else how
            return 'proved', how, None
        pc = list(st.pc) if z3.is_false(c) else s.cone(st.pc, c)
        neg = b_not(c)
        ms = min(s.lim.solver_ms, 1000) if quick else s.lim.solver_ms
        r, m = s._check(pc + [neg], 50)
        if r == 'unsat':
            return 'proved', 'z3', None
        if r == 'unknown' and s.products(pc + [neg], 0.5):
            return 'proved', 'products of constraints and linear arithmetic', None
        if r == 'unknown':
            r, m = s._check(pc + [neg], 150)
            if r == 'unsat':
                return 'proved', 'z3', None
        if r == 'unknown' and quick:
            if s._check(pc + [neg], 200, 'linear')[0] == 'unsat':
                return 'proved', 'z3', None
            if all(x.sort() != z3.IntSort() for x in _consts(pc + [neg])):
                r, m = s._check(pc + [neg], 400, 'nlsat')
                if r == 'unsat':
                    return 'proved', 'z3-nlsat', None
            if r == 'unknown':
                return 'unknown', 'none', None
        if r == 'unknown':
            r, m = s._check(pc + [neg], min(ms, 800), 'linear')
            if r == 'unsat':
                return 'proved', 'z3', None
            if not quick and s.products(pc + [neg], 5):
                return 'proved', 'products of constraints and linear arithmetic', None
            for level in (1, 2):
                small = shared(pc + [b_not(raw if not isinstance(raw, bool) else c)], level)
                if small is None:
                    continue
                small = s.cone(small[:-1], small[-1]) + [small[-1]] if _vars(small[-1], s.memo) else small
                for tac in (None, 'nlsat'):
                    if tac is None or all(x.sort() != z3.IntSort() for x in _consts(small)):
                        if s._check(small, min(ms, 1000), tac)[0] == 'unsat':
                            return 'proved', 'z3', None
            r, m = s._check(pc + [neg], min(ms, 1500))
        if r == 'unsat':
            return 'proved', 'z3', None
        if r == 'sat':
            return s._full(st, neg, m, quick)
        if z3.is_eq(c) and c.arg(0).sort() == z3.RealSort():
            import poly
            t = time.time()
            ok = poly.identity(pc, c, ms / 1000.0 * 2, st.defs)
            s.secs += time.time() - t
            if ok:
                return 'proved', 'polynomial identity', None
        if all(x.sort() != z3.IntSort() for x in _consts(pc + [neg])):
            r, m = s._check(pc + [neg], ms, 'nlsat')
            if r == 'unsat':
                return 'proved', 'z3-nlsat', None
            if r == 'sat':
                return s._full(st, neg, m, quick)
        r, m = s._check(pc + [neg], ms, 'QF_NIRA')
        if r == 'unsat':
            return 'proved', 'z3', None
        if r == 'sat':
            return s._full(st, neg, m, quick)
        if quick:
            return 'unknown', 'none', None
        import cvc
        t = time.time()
        r = cvc.unsat(pc + [neg], ms)
        s.secs += time.time() - t
        if r:
            return 'proved', 'cvc5', None
        return 'unknown', 'none', None

    def _full(s, st, neg, m, quick=False):
        """A model of the cone may say nothing about the other variables: ask for a full one."""
        r, m2 = s._check(list(st.pc) + [neg], 500 if quick else s.lim.solver_ms)
        if r == 'unsat':
            return 'proved', 'z3', None
        if r != 'sat' and not quick:
            r, m2 = s._check(list(st.pc) + [neg], s.lim.solver_ms, 'QF_NRA')
            if r == 'unsat':
                return 'proved', 'z3', None
        return ('failed', 'z3', m2) if r == 'sat' else ('unknown', 'none', m)


def square(c):
    """A product in which every factor occurs an even number of times."""
    if z3.is_rational_value(c):
        return c.numerator_as_long() >= 0
    if c.decl().kind() == z3.Z3_OP_POWER:
        n = c.arg(1)
        return z3.is_rational_value(n) and n.denominator_as_long() == 1 and n.numerator_as_long() % 2 == 0
    if c.decl().kind() != z3.Z3_OP_MUL:
        return False
    n = {}
    for x in c.children():
        if z3.is_rational_value(x):
            if x.numerator_as_long() < 0:
                return False
        else:
            n[x.get_id()] = n.get(x.get_id(), 0) + 1
    return all(v % 2 == 0 for v in n.values())


def shared(cs, level=1):
    """The constraints with every sum that occurs more than once replaced by a variable (weaker,
    so that unsat carries over), or None when there is no such sum."""
    count, seen, keep = {}, set(), []
    cs = [z3.simplify(c) for c in cs]
    todo = list(cs)
    while todo:
        c = todo.pop()
        if c.get_id() in seen:
            continue
        seen.add(c.get_id())
        for x in c.children():
            keep.append(x)
            count[x.get_id()] = count.get(x.get_id(), 0) + 1
            todo.append(x)
    memo, extra, flag = {}, [], []

    def linear(c):
        return all(z3.is_const(x) or z3.is_rational_value(x) or
                   (x.decl().kind() == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_rational_value(x.arg(0)) and z3.is_const(x.arg(1)))
                   for x in c.children())

    def fits(c):
        # differences of numbers, and sums that are not made of such differences
        return linear(c) or not any(inner(x) for x in c.children())

    def inner(c):
        return (c.decl().kind() == z3.Z3_OP_ADD and linear(c)) or any(inner(x) for x in c.children())

    def walk(c):
        i = c.get_id()
        if i in memo:
            return memo[i]
        k = c.decl().kind()
        if k == z3.Z3_OP_ADD and c.sort() == z3.RealSort() and count.get(i, 0) > 1 and (level == 1 or fits(c)):
            flag.append(1)
            r = z3.Real('shared!%d' % i)
            if all(square(x) for x in c.children()):
                extra.append(r >= 0)
        elif c.num_args() == 0:
            r = c
        else:
            ch = [walk(x) for x in c.children()]
            if all(x.eq(y) for x, y in zip(ch, c.children())):
                r = c
            elif k == z3.Z3_OP_ADD:
                r = z3.Sum(ch)
            elif k == z3.Z3_OP_MUL:
                r = z3.Product(ch)
            elif k == z3.Z3_OP_AND:
                r = z3.And(ch)
            elif k == z3.Z3_OP_OR:
                r = z3.Or(ch)
            else:
                r = c.decl()(*ch)
        memo[i] = r
        return r
    out = [walk(c) for c in cs]
    return extra + out if flag else None


def _consts(cs):
    seen, out, todo = set(), [], list(cs)
    while todo:
        c = todo.pop()
        i = c.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(c):
            if c.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(c)
        else:
            todo.extend(c.children())
    return out
