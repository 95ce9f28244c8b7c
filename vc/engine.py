"""Symbolic machine for the MIR written by mirdump.

Path-based: every path from the start of a harness to its end yields a path condition over real
and integer variables; every `ensures`, `requires` of a contract, assertion and panic on the way
is an obligation `path condition => fact`.  Loops are cut by invariants (loops.py).
"""
import json
import struct
import time
from fractions import Fraction
import z3
from values import *
import solve


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Infeasible(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'key', 'blk', 'idx', 'cells', 'ret', 'retblk', 'id', 'cuts', 'iters', 'then')

    def __init__(s, **k):
        for n, v in k.items():
            setattr(s, n, v)

    def copy(s):
        return Frame(fn=s.fn, key=s.key, blk=s.blk, idx=s.idx, cells=s.cells, ret=s.ret, retblk=s.retblk,
                     id=s.id, cuts=s.cuts, iters=dict(s.iters), then=s.then)


class State:
    def __init__(s):
        s.frames, s.store, s.pc, s.known = [], {}, [], {}
        s.n = 0
        s.oracles, s.reads, s.caches, s.ghosts = {}, (), {}, ()
        s.inputs, s.trig = [], ()
        s.skel = ()
        s.ncell = 0
        s.maps = ()
        s.events = ()
        s.defs = {}
        s.soft = ()
        s.members = ()
        s.foralls = ()
        s.opaque, s.answers = (), ()
        s.hints, s.hintints = (), ()
        s.counts = {}

    def copy(s):
        t = State()
        t.frames = [f.copy() for f in s.frames]
        t.store = dict(s.store)
        t.pc = list(s.pc)
        t.known = dict(s.known)
        t.n = s.n
        t.oracles = dict(s.oracles)
        t.reads, t.caches, t.ghosts = s.reads, dict(s.caches), s.ghosts
        t.inputs, t.trig = s.inputs, s.trig
        t.ncell = s.ncell
        t.maps = s.maps
        t.events = s.events
        t.defs = dict(s.defs)
        t.soft = s.soft
        t.members = s.members
        t.foralls = s.foralls
        t.opaque, t.answers = s.opaque, s.answers
        t.hints, t.hintints = s.hints, s.hintints
        t.counts = s.counts
        return t

    def fresh(s, kind, hint='v'):
        s.n += 1
        n = '%s!%d' % (hint, s.n)
        return {'r': z3.Real, 'i': z3.Int, 'b': z3.Bool}[kind](n)

    def assume(s, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        s.pc.append(c)
        s.known[c.get_id()] = (True, c)

    def cell(s, v=None):
        s.ncell += 1
        c = 'c%d' % s.ncell
        s.store[c] = v
        return c


class Obligation:
    __slots__ = ('label', 'where', 'status', 'model', 'how', 'secs', 'rec', 'n')

    def __init__(s, **k):
        for n, v in k.items():
            setattr(s, n, v)


class Prog:
    def __init__(s, path):
        j = json.load(open(path))
        s.fns, s.types, s.roots = j['fns'], {int(k): v for k, v in j['types'].items()}, j['roots']
        s.vtables = j.get('vtables', {})
        s.loopinfo = {}

    def root(s, name):
        for k, v in s.roots.items():
            if k.endswith('::' + name + '::contract'):
                return v
        raise KeyError(name)


class Limits:
    paths = 12000
    unroll = 12
    steps = 4000000
    secs = 100.0
    solver_ms = 4000
    feas_ms = 200


class Engine:
    def __init__(e, prog, limits=None):
        e.p = prog
        e.lim = limits or Limits()
        e.obls = {}          # (label, where) -> aggregated obligation
        e.used = {}          # functions executed
        e.trusted = set()    # models used
        e.notes = set()
        e.dry = 0
        e.sol = solve.Solver(e.lim)
        e.t0 = time.time()
        e.npaths = 0
        e.nloops = {}
        e.gen_loops = set()
        e.checks = 0
        e.completed = 0
        e.inv_report = {}
        e.weak = False
        e.cutloops = set()
        e.ends, e.all_vacuous = [], True
        import models
        import loops
        e.models, e.loops = models, loops

    # ---------------------------------------------------------------- types
    def ty(e, t):
        return e.p.types[t]

    @staticmethod
    def fieldty(d, i):
        return d['variants'][0]['fields'][i]['ty']

    def fresh_of(e, st, t, hint, record=True):
        """An arbitrary value of a type; its scalar leaves are recorded as inputs."""
        d = e.ty(t)
        k = d['k']
        if k == 'float':
            v = st.fresh('r', hint)
        elif k == 'int':
            v = st.fresh('i', hint)
            lo, hi = e.irange(d)
            st.assume(z3.And(v >= lo, v <= hi))
        elif k == 'bool':
            v = st.fresh('b', hint)
        elif k == 'tuple':
            return tuple(e.fresh_of(st, x, hint, record) for x in d['elems'])
        elif k == 'array':
            return VecV([e.fresh_of(st, d['elem'], hint, record) for _ in range(d['len'])])
        elif k == 'adt' and d['name'].endswith('AbstractSet'):
            st.n += 1
            n = '%s#%d' % (hint, st.n)
            st.inputs = st.inputs + [('set', n)]
            return (Opaque(n),)
        elif k == 'adt' and d['name'].endswith('vec::Vec'):
            n = st.fresh('i', hint + '.len')
            # a Vec holds at most isize::MAX elements
            st.assume(z3.And(n >= 0, n <= (1 << 63) - 1))
            sv = SVec(('base', '%s#%d' % (hint, st.n), d['args'][0]), n)
            if record:
                st.inputs = st.inputs + [('vec', sv)]
            return sv
        elif k == 'adt' and d['name'] in ('std::collections::HashMap', 'std::collections::HashSet'):
            m = e.models.arbitrary_map(e, st, d, hint)
            if record:
                st.inputs = st.inputs + [('map', m.kind[1])]
            return m
        elif k == 'adt' and d['name'].endswith('::Tilemap'):
            # natively a map is drawn as a history of operations
            fs = tuple(e.fresh_of(st, f['ty'], '%s.%s' % (hint, f['name']), False) for f in d['variants'][0]['fields'])
            if record:
                st.inputs = st.inputs + [('map', m.kind[1]) for m in fs if isinstance(m, e.models.SMap)]
            return fs
        elif k == 'adt' and d['kind'] == 'struct':
            return tuple(e.fresh_of(st, f['ty'], '%s.%s' % (hint, f['name']), record)
                         for f in d['variants'][0]['fields'])
        elif k == 'adt' and d['kind'] == 'enum' and len(d['variants']) == 2:
            i = 1 if e.decide(st, st.fresh('b', hint + '.variant')) else 0
            return En(i, [e.fresh_of(st, f['ty'], hint, record) for f in d['variants'][i]['fields']])
        else:
            raise Unsupported('arbitrary value of type ' + d['disp'])
        if record:
            st.inputs = st.inputs + [('leaf', v)]
        return v

    @staticmethod
    def irange(d):
        w = d['w']
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if d['s'] else (0, (1 << w) - 1)

    # ---------------------------------------------------------------- decisions
    def decide(e, st, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = st.known.get(c.get_id())
        if k is not None:
            return k[0]
        if z3.is_not(c):
            return not e.decide(st, c.arg(0))
        r1 = e.sol.sat(st.pc, c)
        if r1 == 'unsat':
            r2 = 'sat'
        else:
            r2 = e.sol.sat(st.pc, z3.Not(c))
        if r1 == 'unsat':
            st.known[c.get_id()] = (False, c)
            return False
        if r2 == 'unsat':
            st.known[c.get_id()] = (True, c)
            if z3.is_eq(c) and c.arg(0).sort() == z3.IntSort():
                st.pc.append(c)           # implied, and useful to know
            return True
        raise Fork(c)

    def valid(e, st, c):
        """c follows from the path condition (quick check; False when unknown)."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = st.known.get(c.get_id())
        if k is not None:
            return k[0]
        return e.sol.sat(st.pc, z3.Not(c)) == 'unsat'

    def pick(e, st, idx, n):
        """The concrete value of an index into n elements (forks)."""
        if isinstance(idx, int):
            return idx
        for k in range(n):
            if e.decide(st, idx == k):
                return k
        raise Infeasible()

    # ---------------------------------------------------------------- obligations
    def oblige(e, st, c, label, where):
        if e.dry:
            if c is False:
                raise Infeasible()
            if c is not True:
                st.assume(c)
            return
        key = (label, where)
        o = e.obls.get(key)
        if o is None:
            o = e.obls[key] = Obligation(label=label, where=where, status='proved', model=None, how={}, secs=0.0,
                                         rec=None, n=0)
        o.n += 1
        t = time.time()
        res, how, model = e.sol.prove(st, c)
        o.secs += time.time() - t
        o.how[how] = o.how.get(how, 0) + 1
        if res != 'proved':
            if o.status == 'proved' or (o.status == 'unknown' and res == 'failed'):
                o.status, o.model = res, model
                o.rec = e.record(st, c, model)
        if c is False:
            raise Infeasible()
        if c is not True:
            st.assume(c)

    def record(e, st, goal, model):
        w = {}
        for kind, v in st.inputs:
            if kind == 'vec':
                w[v.kind[1]] = e.width(v.kind[2])
        return dict(pc=list(st.pc), goal=goal, inputs=list(st.inputs), trig=st.trig, reads=st.reads, soft=st.soft,
                    oracles=dict(st.oracles), members=st.members, maps=st.maps,
                    model=model, width=w)

    def width(e, t):
        d = e.ty(t)
        if d['k'] in ('float', 'int', 'bool'):
            return 1
        if d['k'] == 'tuple':
            return sum(e.width(x) for x in d['elems'])
        if d['k'] == 'array':
            return d['len'] * e.width(d['elem'])
        if d['k'] == 'adt' and d['kind'] == 'struct':
            return sum(e.width(f['ty']) for f in d['variants'][0]['fields'])
        return 1

    # ---------------------------------------------------------------- memory
    def get(e, st, v, step):
        if isinstance(step, tuple) and step[0] == 'x':      # symbolic or concrete element of a sequence
            idx = step[1]
            if isinstance(v, VecV):
                k = e.pick(st, idx, len(v.e))
                return v.e[k]
            if isinstance(v, SVec):
                return e.seq_read(st, v, idx)
            raise Unsupported('index into %r' % (v,))
        if isinstance(step, tuple) and step[0] == 'm':
            return e.models.map_at(e, st, v, step[1])
        if isinstance(v, tuple):
            return v[step]
        if isinstance(v, En):
            return v.f[step]
        if isinstance(v, VecV):
            return v.e[step]
        if isinstance(v, Opaque):
            return Opaque(v.n + '.%s' % step)
        if isinstance(v, Ref) and step == 0:
            return v                        # the pointer inside of a box
        raise Unsupported('field %r of %r' % (step, v))

    def load(e, st, c, path):
        v = st.store[c]
        for s in path:
            v = e.get(st, v, s)
        return v

    def put(e, st, v, path, new):
        if not path:
            return new
        s = path[0]
        if isinstance(s, tuple) and s[0] == 'x':
            if isinstance(v, VecV):
                k = e.pick(st, s[1], len(v.e))
                l = list(v.e)
                l[k] = e.put(st, l[k], path[1:], new)
                return VecV(l)
            if isinstance(v, SVec):
                old = e.seq_read(st, v, s[1]) if len(path) > 1 else None
                return SVec(('set', v, s[1], e.put(st, old, path[1:], new)), v.n)
        if isinstance(s, tuple) and s[0] == 'm':
            old = e.models.map_at(e, st, v, s[1]) if len(path) > 1 else None
            return e.models.SMap(('set', v, s[1], e.put(st, old, path[1:], new)))
        if isinstance(v, tuple):
            l = list(v)
            l[s] = e.put(st, l[s], path[1:], new)
            return tuple(l)
        if isinstance(v, En):
            l = list(v.f)
            l[s] = e.put(st, l[s], path[1:], new)
            return En(v.v, l)
        if isinstance(v, VecV):
            l = list(v.e)
            l[s] = e.put(st, l[s], path[1:], new)
            return VecV(l)
        if v is None and isinstance(s, int):
            l = [None] * (s + 1)
            l[s] = e.put(st, None, path[1:], new)
            return tuple(l)
        raise Unsupported('store to field %r of %r' % (s, v))

    def save(e, st, c, path, new):
        st.store[c] = e.put(st, st.store[c], path, new)

    # sequences -----------------------------------------------------
    def seq_len(e, v):
        return len(v.e) if isinstance(v, VecV) else v.n

    def seq_read(e, st, v, idx):
        if isinstance(v, VecV):
            return v.e[e.pick(st, idx, len(v.e))]
        k = v.kind
        if k[0] == 'base':
            return e.base_read(st, v, idx)
        if k[0] == 'fill':
            return k[1]
        if k[0] == 'set':
            if e.decide(st, zi(idx) == zi(k[2])):
                return k[3]
            return e.seq_read(st, k[1], idx)
        if k[0] == 'ins':
            if e.decide(st, zi(idx) == zi(k[2])):
                return k[3]
            if e.decide(st, zi(idx) < zi(k[2])):
                return e.seq_read(st, k[1], idx)
            return e.seq_read(st, k[1], z3.simplify(zi(idx) - 1))
        if k[0] == 'rem':
            if e.decide(st, zi(idx) < zi(k[2])):
                return e.seq_read(st, k[1], idx)
            return e.seq_read(st, k[1], z3.simplify(zi(idx) + 1))
        raise Unsupported(k[0])

    def base_read(e, st, v, idx):
        name = v.kind[1]
        idx = z3.simplify(zi(idx))
        rs = [r for r in st.reads if r[0] == name]
        for r in rs:
            if r[1].eq(idx):
                return r[2]
        for r in rs:
            if e.valid(st, r[1] == idx):
                return r[2]
        val = e.fresh_of(st, v.kind[2], name + '@', record=False)
        for r in rs:
            eqs = [x == y for (_, x), (_, y) in zip(leaves(val), leaves(r[2]))]
            st.assume(z3.Implies(r[1] == idx, z3.And(*eqs)))
        for f in v.facts:
            f(e, st, v, idx, val, rs)
        st.reads = st.reads + ((name, idx, val),)
        for (n, fa) in st.foralls:
            if n == name:
                fa.on_read(e, st, idx, val)
        return val

    # places ----------------------------------------------------------
    def place(e, st, fr, p):
        c, path, sl = fr.cells[p[0]], (), None
        for s in p[1]:
            if s == 'd':
                r = e.load(st, c, path)
                if isinstance(r, StrV):
                    c, path, sl = st.cell(r), (), None
                    continue
                if isinstance(r, tuple) and e.is_boxlike(r):
                    r = e.box_ref(r)
                if not isinstance(r, Ref):
                    raise Unsupported('dereference of %r' % (r,))
                c, path, sl = r.c, r.p, r.s
            elif s[0] == 'f':
                path = path + (s[1],)
            elif s[0] == 'v':
                pass
            elif s[0] == 'i':
                i = st.store[fr.cells[s[1]]]
                if sl is not None:
                    i = e.iadd(sl[0], i)
                    sl = None
                path = path + (('x', i),)
            elif s[0] == 'c':
                if s[3]:
                    n = e.seq_len(e.load(st, c, path)) if sl is None else sl[1]
                    i = e.iadd(n, -s[1])
                else:
                    i = s[1] if sl is None else e.iadd(sl[0], s[1])
                sl = None
                path = path + (('x', i),)
            elif s[0] == 's':
                lo, n = (0, e.seq_len(e.load(st, c, path))) if sl is None else sl
                end = e.iadd(n, -s[2]) if s[3] else e.iadd(lo, s[2])
                sl = (e.iadd(lo, s[1]), end)
            elif s[0] == 'o':
                pass
            else:
                raise Unsupported('projection %r' % (s,))
        return c, path, sl

    @staticmethod
    def is_boxlike(r):
        while isinstance(r, tuple):
            r = next((x for x in r if x != ()), None)
        return isinstance(r, Ref)

    @staticmethod
    def box_ref(r):
        while isinstance(r, tuple):
            r = next((x for x in r if x != ()), None)
        return r

    @staticmethod
    def iadd(a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        return z3.simplify(zi(a) + zi(b))

    def read_place(e, st, fr, p):
        c, path, sl = e.place(st, fr, p)
        return e.load(st, c, path)

    def place_ty(e, fr, p):
        t = fr.fn['body']['locals'][p[0]]
        for s in p[1]:
            if s == 'd':
                d = e.ty(t)
                if d['k'] in ('ref', 'ptr'):
                    t = d['to']
                elif d['k'] == 'adt':
                    t = d['args'][0]
            elif s[0] in ('f', 'o'):
                t = s[2] if s[0] == 'f' else s[1]
            elif s[0] in ('i', 'c'):
                t = e.ty(t)['elem']
        return t

    # constants -------------------------------------------------------
    def const(e, st, c):
        k = c['k']
        if k == 'bool':
            return bool(c['v'])
        if k == 'int':
            return int(c['v'])
        if k == 'float':
            b = int(c['bits'])
            f = struct.unpack('<f', struct.pack('<I', b))[0] if c['w'] == 32 else \
                struct.unpack('<d', struct.pack('<Q', b))[0]
            if f != f:
                return NAN
            if f in (float('inf'), float('-inf')):
                return PINF if f > 0 else NINF
            return Fraction(f)
        if k == 'tup':
            return tuple(e.const(st, x) for x in c['f'])
        if k == 'arr':
            return VecV([e.const(st, x) for x in c['f']])
        if k == 'adt':
            t = e.ty(c['t'])
            f = tuple(e.const(st, x) for x in c['f'])
            return En(c['v'], f) if t['kind'] == 'enum' else f
        if k == 'zst':
            return e.zst(c['t'])
        if k == 'str':
            return StrV(c['v'])
        if k == 'ref':
            v = e.const(st, c['v'])
            if isinstance(v, StrV):
                return v
            cell = st.cell(v)
            return Ref(cell, (), None)
        if k == 'fnptr':
            return FnVal(c['fn'])
        return Opaque('const')

    def zst(e, t):
        d = e.ty(t)
        if d['k'] == 'fndef':
            return FnVal(d['fn'])
        if d['k'] == 'adt' and d['kind'] == 'enum':
            return En(0, tuple(e.zst(f['ty']) for f in d['variants'][0]['fields'])) if d['variants'] else ()
        if d['k'] == 'adt' and d['kind'] == 'struct':
            return tuple(e.zst(f['ty']) for f in d['variants'][0]['fields'])
        if d['k'] == 'array':
            return VecV([])
        if d['k'] == 'tuple':
            return tuple(e.zst(x) for x in d['elems'])
        return ()

    def operand(e, st, fr, o):
        if 'p' in o:
            return e.read_place(st, fr, o['p'])
        if 'rc' in o:
            return False
        return e.const(st, o['c'])

    def op_ty(e, fr, o):
        return e.place_ty(fr, o['p']) if 'p' in o else o.get('t')

    # arithmetic ------------------------------------------------------
    def rdef(e, st, key, mk):
        """A named real defined by axioms, created once per state."""
        v = st.caches.get(key)
        if v is None:
            v = mk()
            st.caches[key] = v
        return v[0]

    def fneg(e, st, a):
        if isinstance(a, Special):
            return {NAN: NAN, ANY: ANY, PINF: NINF, NINF: PINF}[a]
        return -a

    def fadd(e, st, a, b):
        if isinstance(a, Special) or isinstance(b, Special):
            for x in (NAN, ANY):
                if a is x or b is x:
                    return x
            if isinstance(a, Special) and isinstance(b, Special):
                return a if a is b else NAN
            return a if isinstance(a, Special) else b
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return a + b
        if isinstance(a, Fraction) and a == 0:
            return b
        if isinstance(b, Fraction) and b == 0:
            return a
        return q(a) + q(b)

    def fmul(e, st, a, b):
        if isinstance(a, Special) or isinstance(b, Special):
            for x in (NAN, ANY):
                if a is x or b is x:
                    return x
            if not isinstance(a, Special):
                a, b = b, a
            sb = 1 if b is PINF else -1 if b is NINF else e.sign(st, b)
            if sb == 0:
                return NAN
            return a if sb > 0 else e.fneg(st, a)
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return a * b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Fraction):
                if x == 0:
                    return Fraction(0)
                if x == 1:
                    return y
                if x == -1:
                    return -y
        return q(a) * q(b)

    def sign(e, st, a):
        if isinstance(a, Fraction):
            return (a > 0) - (a < 0)
        if e.decide(st, a > 0):
            return 1
        return 0 if e.decide(st, a == 0) else -1

    def fdiv(e, st, a, b):
        if isinstance(a, Special) or isinstance(b, Special):
            for x in (NAN, ANY):
                if a is x or b is x:
                    return x
            if isinstance(b, Special):
                return NAN if isinstance(a, Special) else Fraction(0)
            s = e.sign(st, b)
            return ANY if s == 0 else a if s > 0 else e.fneg(st, a)
        if isinstance(b, Fraction):
            if b != 0:
                return e.fmul(st, a, 1 / b)
        if e.decide(st, q(b) == 0):
            if e.decide(st, q(a) == 0):
                return NAN
            d = isinstance(b, z3.ExprRef) and z3.is_const(b) and st.defs.get(b.decl().name())
            # a root is +0; otherwise the sign of the zero is not known
            pos = True if d and d[0] == 'sqrt' else e.decide(st, st.fresh('b', 'zerosign'))
            return PINF if pos == (e.sign(st, a) > 0) else NINF
        if isinstance(a, Fraction) and a == 0:
            return Fraction(0)

        def mk():
            v = st.fresh('r', 'quot')
            st.defs[v.decl().name()] = ('quot', q(a), b)
            st.assume(v * b == qa)
            return v, qa, b
        qa = q(a)
        return e.rdef(st, ('div', qa.get_id(), b.get_id()), mk)

    def fsqrt(e, st, a):
        if isinstance(a, Special):
            return {NAN: NAN, ANY: ANY, PINF: PINF, NINF: NAN}[a]
        if isinstance(a, Fraction):
            if a < 0:
                return NAN
            import math
            n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
            if n * n == a.numerator and d * d == a.denominator:
                return Fraction(n, d)
        a = q(a)
        if e.decide(st, a < 0):
            return NAN

        def mk():
            v = st.fresh('r', 'sqrt')
            st.defs[v.decl().name()] = ('sqrt', a)
            st.assume(v >= 0)
            st.assume(v * v == a)
            return v, a, normal
        normal = z3.simplify(a, som=True)
        return e.rdef(st, ('sqrt', normal.get_id()), mk)

    def fcmp(e, st, op, a, b):
        if a is NAN or b is NAN:
            return op == 'Ne'
        if a is ANY or b is ANY:
            return st.fresh('b', 'anycmp')
        f = {'Lt': lambda x, y: x < y, 'Le': lambda x, y: x <= y, 'Gt': lambda x, y: x > y,
             'Ge': lambda x, y: x >= y, 'Eq': lambda x, y: x == y, 'Ne': lambda x, y: x != y}[op]
        if isinstance(a, Special) or isinstance(b, Special):
            w = lambda x: 1 if x is PINF else -1 if x is NINF else 0
            return f(w(a), w(b))
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return f(a, b)
        return f(q(a), q(b))

    def fabs(e, st, a):
        if isinstance(a, Special):
            return {NAN: NAN, ANY: ANY, PINF: PINF, NINF: PINF}[a]
        if isinstance(a, Fraction):
            return abs(a)
        return a if e.decide(st, a >= 0) else -a

    def icmp(e, op, a, b):
        f = {'Lt': lambda x, y: x < y, 'Le': lambda x, y: x <= y, 'Gt': lambda x, y: x > y,
             'Ge': lambda x, y: x >= y, 'Eq': lambda x, y: x == y, 'Ne': lambda x, y: x != y}[op]
        if isinstance(a, int) and isinstance(b, int):
            return f(a, b)
        return f(zi(a), zi(b))

    def wrap(e, st, v, d):
        lo, hi = e.irange(d)
        if isinstance(v, int):
            return (v - lo) % (1 << d['w']) + lo
        if e.decide(st, z3.And(v >= lo, v <= hi)):
            return v
        return (v - lo) % (1 << d['w']) + lo

    def idiv(e, st, a, b):
        """Truncating division and remainder."""
        if isinstance(a, int) and isinstance(b, int):
            if b == 0:
                raise Infeasible()
            qq = abs(a) // abs(b)
            qq = qq if (a < 0) == (b < 0) else -qq
            return qq, a - qq * b
        an = e.decide(st, zi(a) < 0)
        bn = e.decide(st, zi(b) < 0)
        x, y = (-zi(a) if an else zi(a)), (-zi(b) if bn else zi(b))
        y = z3.simplify(y)
        qq = x / y
        rr = x - qq * y
        return z3.simplify(-qq if an != bn else qq), z3.simplify(-rr if an else rr)

    def binop(e, st, op, a, b, d):
        """d: type description of the left operand."""
        if isinstance(a, Opaque) and a.n == 'undef':
            return a
        if is_float(a) or is_float(b):
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                return e.fcmp(st, op, a, b)
            if op == 'Add':
                return e.fadd(st, a, b)
            if op == 'Sub':
                return e.fadd(st, a, e.fneg(st, b))
            if op == 'Mul':
                return e.fmul(st, a, b)
            if op == 'Div':
                return e.fdiv(st, a, b)
            raise Unsupported('float ' + op)
        isb = lambda x: isinstance(x, (bool, z3.BoolRef))
        if isb(a) and isb(b):
            if op == 'BitAnd':
                return b_and(a, b)
            if op == 'BitOr':
                return b_or(a, b)
            if op in ('Eq', 'BitXor', 'Ne'):
                if isinstance(a, bool) and isinstance(b, bool):
                    return (a == b) if op == 'Eq' else (a != b)
                r = zb(a) == zb(b)
                return r if op == 'Eq' else z3.Not(r)
            raise Unsupported('bool ' + op)
        if isinstance(a, Ref) and isinstance(b, Ref) and op in ('Eq', 'Ne'):
            r = same(a, b)
            return r if op == 'Eq' else not r
        if isinstance(a, Ref) and op == 'BitAnd' and isinstance(b, int) and b < 16:
            return 0                        # allocations are aligned
        if isinstance(a, Ref) and b == 0 and isinstance(b, int) and op in ('Eq', 'Ne'):
            return op == 'Ne'               # and not null
        isi = lambda x: isinstance(x, int) or (isinstance(x, z3.ArithRef) and x.is_int())
        if not (isi(a) and isi(b)):
            raise Unsupported('%s on %r and %r' % (op, a, b))
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            return e.icmp(op, a, b)
        con = isinstance(a, int) and isinstance(b, int)
        op = op.replace('Unchecked', '')
        if op in ('Add', 'Sub', 'Mul'):
            r = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b}[op]()
            return e.wrap(st, r if con else z3.simplify(r), d)
        if op in ('Div', 'Rem'):
            return e.idiv(st, a, b)[0 if op == 'Div' else 1]
        if op in ('Shl', 'Shr') and isinstance(b, int):
            b %= d['w']
            if op == 'Shl':
                return e.wrap(st, a * (1 << b), d)
            return a >> b if isinstance(a, int) else a / (1 << b)
        if con and op in ('BitAnd', 'BitOr', 'BitXor'):
            r = {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
            return e.wrap(st, r, d)
        if op == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y >= 0 and (y & (y + 1)) == 0:
                    return z3.simplify(zi(x) % (y + 1))     # two's complement low bits
        raise Unsupported('int %s' % op)

    def rvalue(e, st, fr, r, destp):
        k = r[0]
        if k == 'use':
            return e.operand(st, fr, r[1])
        if k in ('ref', 'addr'):
            p = r[2] if isinstance(r[1], dict) else r[1]
            c, path, sl = e.place(st, fr, p)
            t = e.ty(e.place_ty(fr, p))
            v = st.store[c] if not path else None
            if isinstance(v, StrV):
                return v
            return Ref(c, path, sl)
        if k == 'bin':
            a, b = e.operand(st, fr, r[2]), e.operand(st, fr, r[3])
            t = e.op_ty(fr, r[2])
            return e.binop(st, r[1], a, b, e.ty(t) if t is not None else None)
        if k == 'cbin':
            a, b = e.operand(st, fr, r[2]), e.operand(st, fr, r[3])
            d = e.ty(e.op_ty(fr, r[2]))
            if r[1] not in ('Add', 'Sub', 'Mul'):
                raise Unsupported('checked ' + r[1])
            con = isinstance(a, int) and isinstance(b, int)
            v = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b}[r[1]]()
            lo, hi = e.irange(d)
            if con:
                return (e.wrap(st, v, d), not (lo <= v <= hi))
            v = z3.simplify(v)
            if e.valid(st, z3.And(v >= lo, v <= hi)):
                return (v, False)
            return (v, z3.Or(v < lo, v > hi))
        if k == 'un':
            a = e.operand(st, fr, r[2])
            if r[1] == 'Not':
                if isinstance(a, (bool, z3.BoolRef)):
                    return b_not(a)
                d = e.ty(e.op_ty(fr, r[2]))
                return e.wrap(st, -a - 1, d)
            if r[1] == 'Neg':
                if is_float(a):
                    return e.fneg(st, a)
                return -a if isinstance(a, int) else z3.simplify(-a)
            if r[1] == 'PtrMetadata':
                if isinstance(a, Ref):
                    if a.s is not None:
                        return e.iadd(a.s[1], e.neg(a.s[0]))
                    v = e.load(st, a.c, a.p)
                    if isinstance(v, (VecV, SVec)):
                        return e.seq_len(v)
                    return ()
                if isinstance(a, StrV):
                    return len(a.s)
            raise Unsupported('unary ' + r[1])
        if k == 'cast':
            return e.cast(st, fr, r)
        if k == 'discr':
            v = e.read_place(st, fr, r[1])
            if v is None:
                return Opaque('undef')       # only fed to an assumption of the optimiser
            if not isinstance(v, En):
                raise Unsupported('discriminant of %r' % (v,))
            d = e.ty(e.place_ty(fr, r[1]))
            return int(d['variants'][v.v]['discr'])
        if k == 'len':
            c, path, sl = e.place(st, fr, r[1])
            if sl is not None:
                return e.iadd(sl[1], e.neg(sl[0]))
            return e.seq_len(e.load(st, c, path))
        if k == 'repeat':
            v = e.operand(st, fr, r[1])
            if r[2] is None or r[2] > 4096:
                raise Unsupported('repeat')
            return VecV([v] * r[2])
        if k == 'agg':
            ops = [e.operand(st, fr, o) for o in r[2]]
            kk = r[1]['k']
            if kk in ('tuple', 'closure'):
                return tuple(ops)
            if kk == 'array':
                return VecV(ops)
            if kk == 'adt':
                d = e.ty(r[1]['t'])
                if d['kind'] == 'enum':
                    return En(r[1]['v'], ops)
                if d['kind'] == 'struct':
                    return tuple(ops)
            if kk == 'rawptr':
                p, meta = ops
                if isinstance(p, Ref):
                    if meta == ():
                        return p
                    lo = p.s[0] if p.s else 0
                    return Ref(p.c, p.p, (lo, e.iadd(lo, meta)))
            raise Unsupported('aggregate ' + kk)
        raise Unsupported('rvalue ' + k)

    @staticmethod
    def neg(a):
        return -a

    def cast(e, st, fr, r):
        kind, a, t = r[1], e.operand(st, fr, r[2]), e.ty(r[3])
        if kind.startswith('IntToInt'):
            if isinstance(a, (bool, z3.BoolRef)):
                return (1 if a else 0) if isinstance(a, bool) else z3.If(a, z3.IntVal(1), z3.IntVal(0))
            if isinstance(a, En):
                raise Unsupported('enum cast')
            if t['k'] != 'int':
                raise Unsupported('cast')
            return e.wrap(st, a, t)
        if kind.startswith('IntToFloat'):
            return Fraction(a) if isinstance(a, int) else z3.ToReal(a)
        if kind.startswith('FloatToInt'):
            return e.float_to_int(st, a, t)
        if kind.startswith('FloatToFloat'):
            return a
        if kind.startswith('PointerCoercion'):
            if 'Unsize' in kind and len(r) > 4 and r[4] is not None:
                b = e.box_ref(a)
                if isinstance(b, Ref):
                    return Ref(b.c, b.p, ('dyn', r[4]))
            if 'Unsize' in kind and isinstance(a, Ref) and a.s is None:
                v = e.load(st, a.c, a.p)
                if t['k'] in ('ref', 'ptr') and e.ty(t['to'])['k'] == 'slice' and isinstance(v, (VecV, SVec)):
                    return Ref(a.c, a.p, (0, e.seq_len(v)))
            return a
        if kind.startswith('BoxDerefTransmute'):
            return e.box_ref(a)
        if kind.startswith('PtrToPtr') or kind.startswith('Transmute') or kind.startswith('Subtype'):
            src = e.op_ty(fr, r[2])
            if t['k'] in ('ptr', 'ref') and e.is_boxlike(a) and not isinstance(a, Ref):
                return e.box_ref(a)
            if isinstance(a, (Ref, StrV)):
                if t['k'] == 'adt' and t['name'].endswith('NonNull'):
                    return (a,)
                return a
            if src is not None and e.ty(src)['disp'] == t['disp']:
                return a
            if e.ty(src)['size'] == t['size'] and t['k'] == 'adt' and t['kind'] == 'struct' and not isinstance(a, (tuple, VecV)):
                return (a,)
            if t['k'] == 'array' and isinstance(a, tuple):
                ls = [x for _, x in leaves(a)]
                if len(ls) == t['len']:
                    return VecV(ls)
            raise Unsupported('cast %s to %s' % (kind, t['disp']))
        raise Unsupported('cast ' + kind)

    def float_to_int(e, st, a, t):
        lo, hi = e.irange(t)
        if a is NAN:
            return 0
        if a is PINF:
            return hi
        if a is NINF:
            return lo
        if a is ANY:
            v = st.fresh('i', 'anyint')
            st.assume(z3.And(v >= lo, v <= hi))
            return v
        if isinstance(a, Fraction):
            import math
            return max(lo, min(hi, math.trunc(a)))
        if z3.is_to_real(a):
            v = a.arg(0)
        else:
            v = st.fresh('i', 'trunc')
            if e.decide(st, a >= 0):
                st.assume(z3.And(z3.ToReal(v) <= a, a < z3.ToReal(v) + 1))
            else:
                st.assume(z3.And(z3.ToReal(v) >= a, a > z3.ToReal(v) - 1))
        if e.decide(st, v < lo):
            return lo
        if e.decide(st, v > hi):
            return hi
        return v

    # ---------------------------------------------------------------- execution
    def push(e, st, key, args, ret, retblk, then=None):
        fn = e.p.fns[key]
        b = fn.get('body')
        if b is None:
            raise Unsupported('no body: ' + fn['name'])
        if len(st.frames) > 60:
            raise Budget('call depth')
        cells = []
        args = list(args)
        clo = '{closure' in fn['def'].split('::')[-1] or '{closure#' in fn['def']
        if b['argc'] != len(args) or clo:
            if args and isinstance(args[-1], tuple) and len(args) == 2 and b['argc'] == 1 + len(args[-1]) and \
                    b['spread'] is None and fn['kind'] == 'item':
                args = [args[0]] + list(args[-1])
            elif b['argc'] != len(args):
                raise Unsupported('argument count of ' + fn['name'])
        for i in range(len(b['locals'])):
            cells.append(st.cell(args[i - 1] if 1 <= i <= b['argc'] else None))
        st.n += 0
        fr = Frame(fn=fn, key=key, blk=0, idx=0, cells=cells, ret=ret, retblk=retblk,
                   id='%s@%d' % (key[-12:], st.ncell), cuts=(), iters={}, then=then)
        st.frames.append(fr)
        e.used[key] = e.used.get(key, 0) + 1

    def closure_fn(e, c):
        """The function behind the last callable generic argument of a call."""
        for a in reversed(c.fn['args']):
            if isinstance(a, int):
                d = e.ty(a)
                if d['k'] in ('closure', 'fndef') and d.get('fn'):
                    return d['fn']
        raise Unsupported('no callable argument')

    def where(e, fr, t):
        return '%s:%s' % (fr.fn['name'], t.get('line'))

    def step(e, st):
        """Executes one statement or terminator. Returns None to go on, or 'end'."""
        fr = st.frames[-1]
        bb = fr.fn['body']['blocks'][fr.blk]
        if fr.idx < len(bb['s']):
            s = bb['s'][fr.idx]
            if s[0] == '=':
                v = e.rvalue(st, fr, s[2], s[1])
                c, path, _ = e.place(st, fr, s[1])
                e.save(st, c, path, v)
            elif s[0] == 'setd':
                c, path, _ = e.place(st, fr, s[1])
                v = e.load(st, c, path)
                e.save(st, c, path, En(s[2], v.f if isinstance(v, En) else v if isinstance(v, tuple) else ()))
            elif s[0] == 'assume':
                pass
            else:
                raise Unsupported('statement ' + s[0])
            fr.idx += 1
            return None
        t = bb['t']
        k = t['k']
        if k == 'goto':
            return e.jump(st, fr, t['to'])
        if k == 'switch':
            d = e.operand(st, fr, t['d'])
            for val, to in t['br']:
                if isinstance(d, (bool, z3.BoolRef)):
                    c = d if int(val) else b_not(d)
                else:
                    n = int(val)
                    ty = e.ty(t['ty'])
                    if ty['k'] == 'int' and ty['s'] and isinstance(d, (int, z3.ArithRef)):
                        if n >= 1 << (ty['w'] - 1):
                            n -= 1 << ty['w']
                        if isinstance(d, int) and d >= 1 << (ty['w'] - 1):
                            d -= 1 << ty['w']
                    c = (d == n) if isinstance(d, int) else zi(d) == n
                if e.decide(st, c):
                    return e.jump(st, fr, to)
            return e.jump(st, fr, t['else'])
        if k == 'ret':
            return e.do_return(st)
        if k == 'drop':
            return e.jump(st, fr, t['to'])
        if k == 'assert':
            c = e.operand(st, fr, t['c'])
            c = c if t['exp'] else b_not(c)
            e.oblige(st, c, 'no panic: ' + t['msg'], e.where(fr, t))
            return e.jump(st, fr, t['to'])
        if k == 'call':
            return e.call(st, fr, t)
        if k == 'unreach':
            e.oblige(st, False, 'unreachable', e.where(fr, t))
        raise Unsupported('terminator ' + k)

    def do_return(e, st):
        fr = st.frames.pop()
        v = st.store[fr.cells[0]]
        for c in fr.cells:
            # cells of a finished frame can not be referred to any more (the borrow checker saw to it)
            st.store.pop(c, None)
        if not st.frames:
            return 'end'
        up = st.frames[-1]
        if fr.then is not None:
            r = fr.then(e, st, up, v)
            return r if r == 'head' else None
        if fr.ret is not None:
            e.save(st, fr.ret[0], fr.ret[1], v)
        return e.jump(st, up, fr.retblk)

    def jump(e, st, fr, to):
        fr.blk, fr.idx = to, 0
        return 'head' if to in e.heads(fr) else None

    def heads(e, fr):
        li = e.p.loopinfo.get(fr.key)
        if li is None:
            li = e.p.loopinfo[fr.key] = e.loops.analyse(fr.fn['body'])
        return li

    def call(e, st, fr, t):
        f = t['f']
        args = [e.operand(st, fr, a) for a in t['args']]
        key = f.get('fn')
        if key is None and 'op' in f:
            v = e.operand(st, fr, f['op'])
            if isinstance(v, FnVal):
                key = v.k
        if key is None:
            raise Unsupported('call of %r' % (f,))
        return e.invoke(st, fr, t, key, args)

    def invoke(e, st, fr, t, key, args):
        fn = e.p.fns[key]
        if fn['kind'] == 'virtual':
            self = e.box_ref(args[0])
            if not isinstance(self, Ref) or self.s is None or self.s[0] != 'dyn':
                raise Unsupported('virtual call of ' + fn['name'])
            key = e.p.vtables.get(key, {}).get(str(self.s[1]))
            if key is None:
                raise Unsupported('virtual call of ' + fn['name'])
            args = [Ref(self.c, self.p)] + list(args[1:])
            fn = e.p.fns[key]
        m = e.models.lookup(fn)
        dest = e.place(st, fr, t['dest'])
        o = next((o for o in st.opaque if o.lstrip('=') in fn['name']), None)
        if o is not None:
            r = e.models.uninterpreted(e, st, fr, t, key, args, dest, o.startswith('='))
            e.save(st, dest[0], dest[1], r)
            return e.jump(st, fr, t['to'])
        if m is not None:
            ctx = Call(e, st, fr, t, fn, args, dest, key)
            r = m(ctx)
            if r is not DEFER:
                e.trusted.add(e.models.trust_name(fn, m))
                if ctx.pushed:
                    return None
                e.save(st, dest[0], dest[1], r)
                if t['to'] is None:
                    raise Infeasible()
                return e.jump(st, fr, t['to'])
        if fn.get('skipped') or 'body' not in fn:
            raise Unsupported('external function ' + fn['name'])
        e.push(st, key, args, (dest[0], dest[1]), t['to'])
        return 'head' if 0 in e.heads(st.frames[-1]) else None

    # ---------------------------------------------------------------- exploration
    def tick(e):
        if time.time() - e.t0 > e.lim.secs:
            raise Budget('time')

    def explore(e, states, stop=None, on_end=None):
        """Runs states to their end. `stop(st)` is asked after every jump to a loop head or out of
        a frame; it returns True to take the state out of the exploration."""
        work = [(st, None) for st in states]
        steps = 0
        while work:
            st, r = work.pop()
            e.tick()
            snap = None
            if r is not None:
                # behind a loop
                if r[0] == 'end':
                    continue
                if stop is not None and stop(st, r[0]):
                    continue
                if r[0] == 'head':
                    new = e.loops.arrive(e, st, stop)
                    if new is not None:
                        work.extend((s, (x,)) for s, x in new)
                        continue
            while True:
                steps += 1
                if steps % 500 == 0:
                    e.tick()
                if steps > e.lim.steps:
                    raise Budget('steps')
                snap = st.copy()
                try:
                    r = e.step(st)
                except Fork as f:
                    e.npaths += 1
                    if e.npaths > e.lim.paths:
                        raise Budget('paths')
                    a, b = snap, snap.copy()
                    a.assume(f.cond)
                    b.assume(z3.Not(f.cond))
                    b.known[f.cond.get_id()] = (False, f.cond)
                    work.append((b, None))
                    st = a
                    continue
                except Infeasible:
                    break
                if r == 'end':
                    if not e.dry:
                        e.completed += 1
                        if e.all_vacuous and e.sol._check(st.pc, 2000)[0] != 'unsat':
                            e.all_vacuous = False
                        if len(e.ends) < 60:
                            e.ends.append(e.record(st, None, None))
                    if on_end:
                        on_end(st)
                    break
                if stop is not None and stop(st, r):
                    break
                if r == 'head':
                    new = e.loops.arrive(e, st, stop)
                    if new is not None:
                        work.extend((s, (x,)) for s, x in new)
                        break

    def run(e, root):
        """Verifies one harness. Returns the list of obligations."""
        while True:
            try:
                return e.attempt(root)
            except e.loops.Uncut as x:
                # start again, with the loop cut by an invariant
                e.cutloops.add(x.loop)
                e.obls, e.completed, e.ends, e.npaths, e.inv_report, e.dry = {}, 0, [], 0, {}, 0

    def attempt(e, root):
        key = e.p.root(root)
        st = State()
        fn = e.p.fns[key]
        b = fn['body']
        args = []
        names = fn.get('names', {})
        for i in range(1, b['argc'] + 1):
            args.append(e.fresh_of(st, b['locals'][i], names.get(str(i), 'a%d' % i)))
        e.push(st, key, args, None, None)
        e.explore([st])
        return list(e.obls.values())


DEFER = object()


class Call:
    def __init__(s, e, st, fr, t, fn, args, dest, key):
        s.e, s.st, s.fr, s.t, s.fn, s.args, s.dest, s.key = e, st, fr, t, fn, args, dest, key
        s.pushed = False

    def deref(s, i):
        r = s.args[i]
        if isinstance(r, StrV):
            return r
        return s.e.load(s.st, r.c, r.p)

    def save(s, i, v):
        r = s.args[i]
        s.e.save(s.st, r.c, r.p, v)

    def where(s):
        return s.e.where(s.fr, s.t)

    def tail(s, key, args):
        """Continue by calling another function with the same destination."""
        s.e.push(s.st, key, args, (s.dest[0], s.dest[1]), s.t['to'])
        s.pushed = True
