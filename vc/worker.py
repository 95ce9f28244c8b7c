"""Verifies one contract in a process of its own; everything returned is plain data."""
import math
import os
import sys
import time
import traceback
from fractions import Fraction
import z3
import engine
import values
import solve

PROG = None


def load(path):
    global PROG
    PROG = engine.Prog(path)


def number(m, v):
    """A float from a model value."""
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, bool):
        return 1.0 if v else 0.0
    if isinstance(v, int):
        return float(v)
    if isinstance(v, values.Special):
        return {'NaN': math.nan, '+inf': math.inf, '-inf': -math.inf}.get(v.n, 0.0)
    x = m.eval(v, model_completion=True)
    if z3.is_true(x) or z3.is_false(x):
        return 1.0 if z3.is_true(x) else 0.0
    if z3.is_int_value(x):
        return float(x.as_long())
    if z3.is_rational_value(x):
        return x.numerator_as_long() / x.denominator_as_long()
    if z3.is_algebraic_value(x):
        return number(m, x.approx(20))
    return 0.0


def inputs(m, rec):
    """The input leaves of a model, in the order in which the native run reads them."""
    out = []
    for kind, v in rec['inputs']:
        if kind == 'leaf':
            x = None
            if not isinstance(v, (values.Special, Fraction, int)):
                for (a, s, c) in rec['trig']:
                    if a.eq(v):
                        x = math.atan2(number(m, s), number(m, c))
            out.append(number(m, v) if x is None else x)
        elif kind == 'set':
            # the abstract set becomes the hull of the points that the path asked for
            ps = [r for (r, d) in rec['oracles'].get(v, ())] + [p for (k, p) in rec['members'] if k == v]
            ps = ps or [(Fraction(0), Fraction(0))]
            out.append(float(len(ps)))
            for p in ps:
                out.extend(number(m, x) for x in p)
            out.append(0.0)
        elif kind == 'map':
            ent = [(k, x) for (n, k, has, x) in rec['maps'] if n == v and z3.is_true(m.eval(has, model_completion=True))]
            if any(x == () for _, x in ent) or not ent:
                keys = sorted({number(m, k) for k, _ in ent})
                out.append(float(len(keys)))
                out.extend(keys)
                continue
            ops, seen = [], set()
            for k, x in ent:
                cx, cy = [int(number(m, y)) for _, y in values.leaves(k)]
                if (cx, cy) in seen:
                    continue
                seen.add((cx, cy))
                # a chunk comes to be by setting a tile, here to 0
                ops.append((cx * 16, cy * 16, 0))
                for _, y in values.leaves(x):
                    if isinstance(y, values.SVec):
                        for (n, i, val) in rec['reads']:
                            if n == y.kind[1]:
                                i = int(number(m, i))
                                ops.append((cx * 16 + i % 16, cy * 16 + i // 16, int(number(m, val))))
            out.append(float(len(ops)))
            for o in ops:
                out.extend(map(float, o))
        elif kind == 'vec':
            n = int(number(m, v.n))
            if n > 64:
                return None
            out.append(float(n))
            rs = {}
            for (name, idx, val) in rec['reads']:
                if name == v.kind[1]:
                    rs[int(number(m, idx))] = val
            w = None
            for val in rs.values():
                w = len(list(values.leaves(val)))
            w = w or rec['width'].get(v.kind[1], 2)
            for i in range(n):
                if i in rs:
                    out.extend(number(m, x) for _, x in values.leaves(rs[i]))
                else:
                    out.extend([0.0] * w)
    return out


def spread(goal):
    """A negated goal that fails visibly, not by a hair."""
    g = goal
    if not isinstance(g, z3.ExprRef):
        return []
    out = []
    if z3.is_and(g):
        for x in g.children():
            out += spread(x)
        return out
    if z3.is_eq(g) and g.arg(0).sort() == z3.RealSort():
        a, b = g.children()
        return [z3.Or(a - b >= z3.Q(1, 4), b - a >= z3.Q(1, 4))]
    if z3.is_le(g) and g.arg(0).sort() == z3.RealSort():
        return [g.arg(0) - g.arg(1) >= z3.Q(1, 4)]
    if z3.is_ge(g) and g.arg(0).sort() == z3.RealSort():
        return [g.arg(1) - g.arg(0) >= z3.Q(1, 4)]
    return out


def models(rec, secs):
    """Candidate inputs for a failing path: small and round numbers first."""
    pc = list(rec['pc'])
    neg = z3.BoolVal(True) if rec['goal'] is None else z3.Not(values.zb(rec['goal']))
    base = pc + [neg]
    lv = [v for k, v in rec['inputs'] if k == 'leaf' and isinstance(v, z3.ArithRef)]
    trig = [a for (a, s, c) in rec['trig']]
    real = [v for v in lv if v.is_real() and not any(a.eq(v) for a in trig)]
    box = [z3.And(v >= -6, v <= 6) for v in real]
    vecs = [v.n for k, v in rec['inputs'] if k == 'vec' and not isinstance(v.n, int)]
    box += [n <= 6 for n in vecs]
    soft = list(rec['soft'])
    grid = []
    for i, v in enumerate(real):
        grid.append(v * 4 == z3.ToReal(z3.Int('grid!%d' % i)))
    sp = spread(rec['goal'])
    out = []
    end = time.time() + secs
    tries = [[z3.Or(*sp) if sp else z3.BoolVal(True)] + box + soft, box + soft + grid, box + soft, soft, []]
    for extra in tries:
        left = end - time.time()
        if left < 0.2:
            break
        s = z3.Solver()
        s.set('timeout', int(min(3.0, left) * 1000))
        s.add(*base)
        s.add(*extra)
        try:
            if s.check() == z3.sat:
                v = inputs(s.model(), rec)
                if v is not None and v not in out:
                    out.append(v)
        except z3.Z3Exception:
            pass
        if len(out) >= 3:
            break
    if not out and rec.get('model') is not None:
        v = inputs(rec['model'], rec)
        if v is not None:
            out.append(v)
    return out


def run(job):
    name, secs, ms, end = job
    t0 = time.time()
    lim = engine.Limits()
    lim.secs, lim.solver_ms = min(secs, max(10, end - t0)), ms
    r = dict(name=name, obls=[], error=None, kind=None, functions=[], trusted=[], paths=0, vacuous=False, candidates=[],
             secs=0.0, solver_calls=0, solver_secs=0.0, loops={}, notes=[])
    e = engine.Engine(PROG, lim)
    try:
        e.run(name)
    except (values.Unsupported, values.Budget) as x:
        r['error'], r['kind'] = str(x), type(x).__name__
    except RecursionError:
        r['error'], r['kind'] = 'recursion', 'Budget'
    except KeyError as x:
        r['error'], r['kind'] = 'missing %s' % x, 'Unsupported'
        if os.environ.get('DEBUG'):
            traceback.print_exc()
    except z3.Z3Exception as x:
        r['error'], r['kind'] = 'z3: %s' % x, 'Unsupported'
    except (AttributeError, TypeError, IndexError, ValueError, AssertionError, ZeroDivisionError, StopIteration) as x:
        # a construct the machine does not know: undecided, never an alarm
        r['error'], r['kind'] = 'engine: %r' % (x,), 'Unsupported'
        if os.environ.get('DEBUG'):
            traceback.print_exc()
    cand = []
    for o in e.obls.values():
        if o.status == 'failed' and e.weak:
            o.status = 'unknown'
        r['obls'].append(dict(label=o.label, where=o.where, status=o.status, n=o.n, how=o.how, secs=round(o.secs, 3),
                              model=str(o.model)[:4000] if o.model is not None else None))
        if o.status != 'proved' and o.rec is not None:
            try:
                for v in models(o.rec, 8.0 if o.status == 'failed' else 4.0):
                    cand.append((o.label, v))
            except (z3.Z3Exception, ValueError, OverflowError) as x:
                r['notes'].append('model: %r' % (x,))
    if r['error'] or any(o['status'] == 'unknown' for o in r['obls']):
        # inputs that drive the real code down the paths that were reached
        end = time.time() + 10
        for rec in e.ends[:40]:
            if time.time() > end:
                break
            try:
                for v in models(dict(rec, goal=None), 1.0):
                    cand.append(('path', v))
            except (z3.Z3Exception, ValueError, OverflowError):
                pass
    r['candidates'] = cand
    r['paths'], r['forks'] = e.completed, e.npaths
    r['vacuous'] = e.completed == 0 or e.all_vacuous
    r['functions'] = sorted({PROG.fns[k]['name'] for k in e.used if PROG.fns[k]['krate'] == 'auburn'})
    r['others'] = sorted({PROG.fns[k]['name'] for k in e.used if PROG.fns[k]['krate'] not in ('auburn', 'auburn_specs')})
    r['trusted'] = sorted(e.trusted)
    r['loops'] = dict(e.inv_report)
    r['notes'] += sorted(e.notes)
    r['secs'] = time.time() - t0
    r['solver_calls'], r['solver_secs'] = e.sol.calls, e.sol.secs
    return r
