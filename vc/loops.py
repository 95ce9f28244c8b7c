"""Loop heads, and what happens when an execution arrives at one.

A loop is unrolled while that is short.  Otherwise it is cut: from the state that enters it, the
places that the body changes are found, they are replaced by arbitrary values, and an inductive
invariant over them is inferred: the conjunction of those candidates that hold on entry and are
preserved by the body (Houdini).  Candidates are comparisons of the numbers of the state, and the
predicates that a contract suggests with `rt::invariant*`, tried on every place of a fitting type.
Nothing is taken on trust: the last pass over the body proves every candidate that is kept.
"""
import itertools
import z3
from values import *


def succs(t):
    k = t['k']
    if k == 'goto':
        return [t['to']]
    if k == 'switch':
        return [x[1] for x in t['br']] + [t['else']]
    if k in ('drop', 'assert', 'call'):
        return [t['to']] if t.get('to') is not None else []
    return []


class Info(dict):
    """head block -> set of blocks of the loop"""


def analyse(body):
    """Natural loops: targets of back edges of a depth-first search."""
    bl = body['blocks']
    color, heads, order = {}, {}, []
    stack = [(0, iter(succs(bl[0]['t'])))]
    color[0] = 1
    back = []
    while stack:
        b, it = stack[-1]
        for n in it:
            if color.get(n) == 1:
                back.append((b, n))
            elif n not in color:
                color[n] = 1
                stack.append((n, iter(succs(bl[n]['t']))))
                break
        else:
            color[b] = 2
            stack.pop()
    preds = {}
    for b in color:
        for n in succs(bl[b]['t']):
            preds.setdefault(n, []).append(b)
    for (src, h) in back:
        blocks = heads.setdefault(h, {h})
        todo = [src]
        while todo:
            b = todo.pop()
            if b not in blocks:
                blocks.add(b)
                todo.extend(preds.get(b, []))
    return Info(heads)


# ---------------------------------------------------------------- liveness
def is_place(x):
    return isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list)


def uses(x, out):
    """Every local mentioned by something that is evaluated (generous)."""
    if is_place(x):
        out.add(x[0])
        for s in x[1]:
            if isinstance(s, list) and s and s[0] == 'i':
                out.add(s[1])
    elif isinstance(x, dict):
        for k, y in x.items():
            if k not in ('c', 'ty', 't', 'fn', 'line', 'to', 'br', 'else', 'msg'):
                uses(y, out)
    elif isinstance(x, list):
        for y in x:
            uses(y, out)


def defuse(bl):
    """(locals read before written, locals written as a whole) of a block."""
    use, dfn = set(), set()

    def read(x):
        s = set()
        uses(x, s)
        use.update(s - dfn)

    def write(p):
        if p[1]:
            read(p)
        else:
            dfn.add(p[0])
    for s in bl['s']:
        if s[0] == '=':
            read(s[2])
            write(s[1])
        elif s[0] == 'setd':
            read(s[1])
    t = bl['t']
    k = t['k']
    if k == 'switch':
        read(t['d'])
    elif k == 'assert':
        read(t['c'])
    elif k == 'call':
        read(t['args'])
        if 'op' in t['f']:
            read(t['f']['op'])
        write(t['dest'])
    elif k == 'ret':
        use.update({0} - dfn)
    return use, dfn


def live_in(body):
    """Live locals at the start of every block."""
    if 'live' in body:
        return body['live']
    bl = body['blocks']
    du = [defuse(b) for b in bl]
    live = [set(u) for u, _ in du]
    changed = True
    while changed:
        changed = False
        for i in range(len(bl) - 1, -1, -1):
            out = set()
            for n in succs(bl[i]['t']):
                out |= live[n]
            new = du[i][0] | (out - du[i][1])
            if new != live[i]:
                live[i] = new
                changed = True
    body['live'] = live
    return live


# ---------------------------------------------------------------- states at a loop head
def ghosts(st):
    return (tuple(st.events), tuple(st.counts[k] for k in sorted(st.counts)))


class Shape:
    """The state at a loop head: a skeleton that is compared, and scalar leaves that may vary."""

    def __init__(s, e, st, depth, head, widen=()):
        s.e, s.st, s.widen, s.lens = e, st, widen, {}
        s.leaves, s.pairs, s.canon, s.cells = [], [], {}, []
        s.types = []
        s.own = 0           # the first leaf in the frame of the loop
        skel = []
        todo = []
        for fi, fr in enumerate(st.frames[:depth]):
            live, at = None, head if fi == depth - 1 else st.frames[fi + 1].retblk
            if at is not None:
                live = live_in(fr.fn['body'])[at]
            for li, c in enumerate(fr.cells):
                if c not in s.canon and (live is None or li in live):
                    s.canon[c] = (fi, li)
                    s.cells.append(c)
        i = 0
        while i < len(s.cells):
            c = s.cells[i]
            if s.canon[c][0] == depth - 1:
                s.own = s.own or len(s.leaves)
            skel.append((s.canon[c], s.walk(st.store.get(c), s.canon[c], ())))
            i += 1
        skel.append(s.walk(ghosts(st), 'ghosts', ()))
        s.key = repr(skel)

    def leaf(s, v, kind):
        s.leaves.append(v)
        s.types.append(kind)
        return kind

    def walk(s, v, at, path):
        if isinstance(v, tuple) and len(v) == 3 and isinstance(v[0], str) and v[0] == 'arr':
            # the place in an array stays a number
            return ('arr', s.walk(v[1], at, path + (1,)), v[2])
        if isinstance(v, tuple):
            n = len(s.leaves)
            r = ('t',) + tuple(s.walk(x, at, path + (i,)) for i, x in enumerate(v))
            if len(v) == 2 and len(s.leaves) == n + 2 and s.types[n:] == ['f', 'f'] and not isinstance(v[0], tuple) \
                    and not isinstance(v[1], tuple):
                s.pairs.append((n, n + 1))
            return r
        if isinstance(v, En):
            return ('e', v.v) + tuple(s.walk(x, at, path + (i,)) for i, x in enumerate(v.f))
        if isinstance(v, VecV):
            s.lens[(at, path)] = len(v.e)
            if (at, path) in s.widen:
                v = lift(s.e, v, '%s%s' % (at, path))
                return (s.leaf(v, 'seq'), s.leaf(v.n, 'i'))
            return ('v',) + tuple(s.walk(x, at, path + (i,)) for i, x in enumerate(v.e))
        if isinstance(v, Ref):
            if v.c not in s.canon:
                s.canon[v.c] = (at, path)
                s.cells.append(v.c)
            p = []
            for x in v.p:
                if isinstance(x, tuple) and x[0] == 'x':
                    p.append(('x', s.walk(x[1], at, path)))
                elif isinstance(x, tuple):
                    p.append((x[0], s.walk(x[1], at, path)))
                else:
                    p.append(x)
            sl = v.s
            if sl is not None and sl[0] != 'dyn':
                sl = (s.walk(sl[0], at, path), s.walk(sl[1], at, path))
            return ('r', s.canon[v.c], tuple(p), sl)
        if isinstance(v, SVec):
            return (s.leaf(v, 'seq'), s.leaf(v.n, 'i'))
        if isinstance(v, Special):
            return ('S', v.n)
        if isinstance(v, bool):
            return v
        if isinstance(v, z3.BoolRef):
            return s.leaf(v, 'b')
        if is_float(v):
            return s.leaf(v, 'f')
        if isinstance(v, int) or (isinstance(v, z3.ArithRef) and v.is_int()):
            return s.leaf(v, 'i')
        if v is None or isinstance(v, str):
            return v
        if isinstance(v, Opaque):
            return ('o', v.n)
        if isinstance(v, FnVal):
            return ('fn', v.k)
        if isinstance(v, StrV):
            return ('str', v.s)
        if type(v).__name__ == 'SMap':
            return s.leaf(v, 'map')
        raise Unsupported('value %r at a loop head' % (v,))


def lift(e, v, name):
    """A list as a sequence of no particular length."""
    t = next((k for k, d in e.p.types.items() if d['k'] == 'adt' and d['name'].endswith('Vec2') and d['name'].startswith('glam')), None)
    if t is None or not all(isinstance(x, tuple) and len(x) == 2 and is_float(x[0]) and is_float(x[1]) for x in v.e):
        raise Unsupported('a list of changing length')
    r = SVec(('base', 'list ' + name, t), len(v.e))
    for i, x in enumerate(v.e):
        r = SVec(('set', r, i, x), r.n)
    return r


def rebuild(v, new, widen=(), at=None, path=()):
    """The value with its leaves replaced, in the order of Shape.walk (`new` is an iterator)."""
    def go(v, path):
        if isinstance(v, tuple) and len(v) == 3 and isinstance(v[0], str) and v[0] == 'arr':
            return ('arr', go(v[1], path + (1,)), v[2])
        if isinstance(v, tuple):
            return tuple([go(x, path + (i,)) for i, x in enumerate(v)])
        if isinstance(v, En):
            return En(v.v, [go(x, path + (i,)) for i, x in enumerate(v.f)])
        if isinstance(v, VecV) and (at, path) not in widen:
            return VecV([go(x, path + (i,)) for i, x in enumerate(v.e)])
        if isinstance(v, Ref):
            p = tuple([(x[0], go(x[1], path)) if isinstance(x, tuple) else x for x in v.p])
            sl = v.s
            if sl is not None and sl[0] != 'dyn':
                lo = go(sl[0], path)
                sl = (lo, go(sl[1], path))
            return Ref(v.c, p, sl)
        if isinstance(v, (VecV, SVec)):
            r = next(new)
            return SVec(r.kind, next(new), r.facts)
        if isinstance(v, (Special, bool, Opaque, FnVal, StrV, str)) or v is None:
            return v
        return next(new)
    return go(v, path)


def term(v):
    return zi(v) if isinstance(v, int) and not isinstance(v, bool) else q(v) if isinstance(v, Fraction) else zb(v)


class Node:
    """An abstract state at the head."""

    def __init__(s, shape):
        s.shape = shape      # None for the state that enters the loop
        s.mod = set()        # leaves that are arbitrary
        s.cands = []         # the invariant: (name, leaves, formula over placeholders)
        s.ph = None          # placeholders of the leaves
        s.exits = []
        s.dirty = True


SORT = {'f': z3.Real, 'i': z3.Int, 'b': z3.Bool}


def bounds(body):
    """Whole numbers that a function compares with."""
    if 'bounds' not in body:
        known, used, out = {}, [], set()

        def num(o):
            return int(o['c']['v']) if isinstance(o, dict) and isinstance(o.get('c'), dict) and o['c'].get('k') == 'int' else None
        for b in body['blocks']:
            for x in b['s']:
                if x[0] == '=' and x[2][0] == 'use' and not x[1][1] and num(x[2][1]) is not None:
                    known.setdefault(x[1][0], set()).add(num(x[2][1]))
                if x[0] == '=' and x[2][0] == 'bin' and x[2][1] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                    used += x[2][2:4]
        for o in used:
            if num(o) is not None:
                out.add(num(o))
            elif isinstance(o, dict) and 'p' in o and not o['p'][1]:
                out |= known.get(o['p'][0], set())
        body['bounds'] = sorted(n for n in out if 1 < n < 1 << 31)[:4]
    return body['bounds']


def candidates(e, st, sh):
    """Everything that might be invariant: (name, indices, formula over placeholders)."""
    ph = [SORT[t]('leaf!%d' % i) if t in SORT else None for i, t in enumerate(sh.types)]
    out = []

    def add(name, ix, f):
        if not z3.is_true(z3.simplify(f)):
            out.append((name, tuple(ix), f))
    fr = st.frames[-1]
    ints = [i for i, t in enumerate(sh.types) if t == 'i']
    floats = [i for i, t in enumerate(sh.types) if t == 'f']
    symint = [i for i in ints if not isinstance(sh.leaves[i], int)]
    for i in ints:
        v = sh.leaves[i]
        if isinstance(v, int):
            add('leaf %d >= %d' % (i, v), (i,), ph[i] >= v)
            if v > 0:
                add('leaf %d >= 0' % i, (i,), ph[i] >= 0)
        elif i >= sh.own or len(ints) <= 12:
            add('leaf %d in i32' % i, (i,), z3.And(ph[i] >= -(1 << 31), ph[i] < 1 << 31))
            if small(z3.simplify(v)):
                add('leaf %d >= %s' % (i, v), (i,), ph[i] >= v)
                add('leaf %d <= %s' % (i, v), (i,), ph[i] <= v)
    for i, j in itertools.permutations(ints, 2):
        if len(ints) <= 12 or len(ints) <= 20 and max(i, j) >= sh.own:
            add('leaf %d <= leaf %d' % (i, j), (i, j), ph[i] <= ph[j])
            add('leaf %d < leaf %d' % (i, j), (i, j), ph[i] < ph[j])
    for i, j in itertools.combinations(ints, 2):
        if len(ints) <= 12 or len(ints) <= 20 and max(i, j) >= sh.own:
            d = z3.simplify(term(sh.leaves[i]) - term(sh.leaves[j]))
            if small(d):
                # the difference of two numbers stays as it is on entry
                add('leaf %d - leaf %d == %s' % (i, j, d), (i, j), ph[i] - ph[j] == d)
    for i in ints:
        # counters stay within the numbers that the function compares with
        for n in bounds(fr.fn['body']):
            if i >= sh.own and (not isinstance(sh.leaves[i], int) or sh.leaves[i] <= n):
                add('leaf %d <= %d' % (i, n), (i,), ph[i] <= n)
    for i in ints:
        # counters stay below what they start below
        for n, v in st.hintints:
            add('leaf %d <= %s' % (i, n), (i,), ph[i] <= v)
    for (name, kinds, hp, f) in st.hints:
        pools = []
        for k in kinds:
            pools.append([(p,) for p in ints] if k == 'i' else [(p,) for p in floats] if k == 'f' else sh.pairs)
        total = 1
        for p in pools:
            total *= len(p)
        if total > 3000:
            raise Budget('too many places for ' + name)
        for combo in itertools.product(*pools):
            flat = [x for c in combo for x in c]
            if len(set(flat)) != len(flat):
                continue
            add('%s(%s)' % (name, ','.join(map(str, flat))), flat,
                z3.substitute(f, *[(a, ph[x]) for a, x in zip(hp, flat)]))
    return ph, out


def small(d):
    """A number, or a sum of few constants."""
    if z3.is_int_value(d) or z3.is_const(d):
        return True
    if z3.is_mul(d):
        return all(z3.is_int_value(x) or z3.is_const(x) for x in d.children())
    return z3.is_add(d) and len(d.children()) <= 3 and all(not z3.is_add(x) and small(x) for x in d.children())


def instance(c, ph, leaves):
    return z3.substitute(c[2], *[(ph[i], term(leaves[i])) for i in c[1]])


def holds(e, st, c, hard):
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    k = st.known.get(c.get_id())
    if k is not None:
        return k[0]
    r = e.sol.sat(st.pc, z3.Not(c))
    if r == 'unsat':
        return True
    if r != 'sat' and not hard:
        e.weak = True
    if r == 'sat' or not hard:
        return False
    r = e.sol.prove(st, c, quick=True)[0]
    if r == 'unknown':
        # the invariant may be weaker than it has to be
        e.weak = True
    return r == 'proved'


def filt(e, st, sh, ph, cands):
    """The candidates that hold in an arriving state."""
    out = []
    for c in cands:
        if holds(e, st, instance(c, ph, sh.leaves), not c[0].startswith('leaf')):
            out.append(c)
    return out


def havoc(e, base, node, n):
    """An arbitrary state of a node: what is known on entry, and the invariant."""
    t = node.shape.st
    st = base.copy()
    st.n = n
    st.ncell = max(base.ncell, t.ncell)
    st.frames = [f.copy() for f in t.frames]
    st.store = dict(t.store)
    leaves = list(node.shape.leaves)
    for i in sorted(node.mod):
        k = node.shape.types[i]
        if k == 'f':
            leaves[i] = st.fresh('r', 'any')
        elif k == 'i':
            leaves[i] = st.fresh('i', 'any')
            if i and node.shape.types[i - 1] == 'seq':
                st.assume(z3.And(leaves[i] >= 0, leaves[i] <= (1 << 63) - 1))
        elif k == 'b':
            leaves[i] = st.fresh('b', 'any')
        elif k == 'seq':
            leaves[i] = anyseq(e, st, node, i)
        else:
            raise Unsupported('a map that changes in a loop')
    it = iter(leaves)
    live = set(node.shape.cells)
    for c in node.shape.cells:
        st.store[c] = rebuild(st.store.get(c), it, node.shape.widen, node.shape.canon[c])
    g = rebuild(ghosts(t), it, (), 'ghosts')
    st.events, st.counts = g[0], dict(zip(sorted(t.counts), g[1]))
    fr = st.frames[-1]
    for c in fr.cells:
        if c not in live:
            st.store[c] = None
    for c in node.cands:
        f = z3.simplify(instance(c, node.ph, leaves))
        if not z3.is_true(f):
            st.assume(f)
    return st


def anyseq(e, st, node, i):
    v = node.shape.leaves[i]
    while v.kind[0] in ('ins', 'set', 'rem'):
        v = v.kind[1]
    if v.kind[0] != 'base':
        raise Unsupported('a sequence that changes in a loop')
    st.fresh('i', 'any')
    return SVec(('base', 'any#%d' % st.n, v.kind[2]), node.shape.leaves[i + 1])


def put(st, sh, i, v):
    """Replaces a leaf."""
    leaves = list(sh.leaves)
    leaves[i] = v
    it = iter(leaves)
    for c in sh.cells:
        st.store[c] = rebuild(st.store.get(c), it, sh.widen, sh.canon[c])
    g = rebuild(ghosts(st), it, (), 'ghosts')
    st.events, st.counts = g[0], dict(zip(sorted(st.counts), g[1]))


def covered(node, sh):
    """Leaves of an arriving state that differ from the node's and are not arbitrary in it."""
    out = set()
    for i, (a, b) in enumerate(zip(node.shape.leaves, sh.leaves)):
        if node.shape.types[i] == 'seq':
            if i not in node.mod and not (a.kind[0] == 'base' and b.kind[0] == 'base' and a.kind[1] == b.kind[1] and same(a.n, b.n)):
                out.add(i)
            continue
        if i not in node.mod and not same(a, b):
            if is_sym(a) and is_sym(b) and z3.simplify(a).eq(z3.simplify(b)):
                continue
            out.add(i)
    return out


def cut(e, entry, stop):
    """Continues behind a loop, for a state that arrives at its head. The first iteration is run
    from the entering state itself; the states that come out of it start the invariant."""
    fr = entry.frames[-1]
    head, depth = fr.blk, len(entry.frames)
    inside = e.heads(fr)[head]
    nodes, n, widen = {}, [entry.n], set()

    def runner(node):
        """Runs the body once. Keeps the exits; gives back the states that arrive at the head."""
        if node.shape is None:
            st = entry.copy()
        else:
            st = havoc(e, entry, node, n[0] + 1)
        st.frames[-1].iters = {}
        arrivals, node.exits = [], []

        def out(s, r):
            n[0] = max(n[0], s.n)
            if len(s.frames) < depth:
                node.exits.append((s, r))
                return True
            if len(s.frames) == depth:
                f = s.frames[-1]
                if f.idx == 0 and r == 'head' and f.blk == head:
                    arrivals.append(s)
                    return True
                if f.idx == 0 and f.blk not in inside:
                    node.exits.append((s, r))
                    return True
            return False
        e.explore([st], out)
        return arrivals

    def arrive_at(s):
        """Takes an arriving state into account; True if it changed anything."""
        sh = Shape(e, s, depth, head, frozenset(widen))
        flags = [i for i, t in enumerate(sh.types) if t == 'b']
        if flags and all(is_sym(sh.leaves[i]) for i in flags):
            i = flags[0]
            r = False
            for b in (True, False):
                f = sh.leaves[i] if b else z3.Not(sh.leaves[i])
                if e.sol.sat(s.pc, f) != 'unsat':
                    t = s.copy()
                    t.assume(f)
                    put(t, sh, i, b)
                    r |= arrive_at(t)
            return r
        node = nodes.get(sh.key)
        if node is None:
            lens = {}
            for x in list(nodes.values()) + [Node(sh)]:
                for k, v in x.shape.lens.items() if x.shape else ():
                    lens.setdefault(k, set()).add(v)
            grow = {k for k, v in lens.items() if len(v) > 3} - widen
            if grow:
                widen.update(grow)
                raise Widen()
            if len(nodes) >= 16:
                raise Unsupported('too many kinds of states at the loop in ' + fr.fn['name'])
            node = nodes[sh.key] = Node(sh)
            node.ph, cs = candidates(e, s, sh)
            node.cands = filt(e, s, sh, node.ph, cs)
            return True
        new = covered(node, sh)
        keep = filt(e, s, sh, node.ph, node.cands)
        if new or len(keep) != len(node.cands):
            node.mod |= new
            node.cands = keep
            node.dirty = True
            return True
        return False

    start = Node(None)
    rounds = 0
    e.dry += 1
    try:
        first = runner(start)
        start.dirty = False

        def restart():
            while True:
                try:
                    nodes.clear()
                    for a in first:
                        arrive_at(a)
                    return
                except Widen:
                    pass
        restart()
        while True:
            node = next((x for x in nodes.values() if x.dirty), None)
            if node is None:
                break
            node.dirty = False
            rounds += 1
            if rounds > 80:
                raise Budget('loop invariant in ' + fr.fn['name'])
            arrivals = runner(node)
            try:
                for a in arrivals:
                    arrive_at(a)
            except Widen:
                restart()
    finally:
        e.dry -= 1
    again = not e.dry
    while again:
        # the pass that counts: every obligation of the body, and every invariant once more
        again = False
        rounds += 1
        if rounds > 90:
            raise Budget('loop invariant in ' + fr.fn['name'])
        for node in [start] + list(nodes.values()):
            for a in runner(node):
                again |= arrive_at(a)
    if not e.dry:
        rep = e.inv_report.setdefault('%s block %d' % (fr.fn['name'], head), dict(states=0, invariants=[]))
        rep['states'] += len(nodes)
        for node in nodes.values():
            for c in node.cands:
                if c[0] not in rep['invariants'] and len(rep['invariants']) < 60:
                    rep['invariants'].append(c[0])
    exits = []
    for node in [start] + list(nodes.values()):
        for s, r in node.exits:
            if len(s.frames) == depth:
                s.frames[-1].iters.pop(head, None)
            exits.append((s, r))
    return exits


class Widen(Exception):
    """A list grows in the loop."""


class Uncut(Budget):
    """A loop that is too long to unroll."""

    def __init__(s, fr):
        Budget.__init__(s, 'loop unrolling in ' + fr.fn['name'])
        s.loop = (fr.key, fr.blk)


def short(v):
    """A short array or a range of a pair, or something around one."""
    if not isinstance(v, tuple):
        return False
    if len(v) == 3 and isinstance(v[0], str) and v[0] == 'arr':
        return len(v[1].e) <= 8
    if len(v) == 2 and all(isinstance(x, int) and not isinstance(x, bool) for x in v):
        return 0 <= v[1] - v[0] <= 2
    return any(short(x) for x in v)


def brief(st, fr):
    """A loop over something short."""
    live = live_in(fr.fn['body'])[fr.blk]
    todo = [st.store.get(c) for i, c in enumerate(fr.cells) if i in live]
    return any(short(st.store.get(v.c) if isinstance(v, Ref) and not v.p else v) for v in todo)


def arrive(e, st, stop):
    fr = st.frames[-1]
    n = fr.iters.get(fr.blk, 0) + 1
    fr.iters[fr.blk] = n
    inside = e.heads(fr)[fr.blk]
    for h in list(fr.iters):  # loops inside this one start afresh
        if h != fr.blk and h in inside:
            del fr.iters[h]
    if (fr.key, fr.blk) in e.cutloops or st.hints and not brief(st, fr):
        return cut(e, st, stop)
    if n > e.lim.unroll:
        raise Uncut(fr)
    return None
