#!/usr/bin/env python3-vt
"""check.py PROPERTY [--thorough]: decides one property on /repo's current tree.

Builds the MIR of the contracts (specs/) and of the code of /repo they call, proves every contract
of the property with vc/, runs the contracts natively as well, and writes evidence/PROPERTY.json.
Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: the check could not run.
"""
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'vc'))
sys.setrecursionlimit(20000)
B = os.environ.setdefault('VERIF_BUILD', os.path.join(V, 'build'))


def sh(cmd, log, timeout):
    with open(log, 'w') as f:
        return subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=V)


def build():
    os.makedirs(B, exist_ok=True)
    import registry
    registry.write()
    a = sh([os.path.join(V, 'build_mir.sh')], os.path.join(B, 'mir.log'), 600)
    b = sh([os.path.join(V, 'build_native.sh')], os.path.join(B, 'native.log'), 600)
    ra, rb = a.wait(), b.wait()
    for r, n in ((ra, 'mir'), (rb, 'native')):
        if r != 0:
            sys.stdout.write(open(os.path.join(B, n + '.log')).read()[-3000:])
            print('ERROR: building %s failed' % n)
            sys.exit(2)


def native(args, timeout):
    out = os.path.join(B, 'native-%d-%s.json' % (os.getpid(), args[1]))
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ, NATIVE_OUT=out)
    try:
        p = subprocess.run([os.path.join(B, 'native')] + args, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(error='time', cases=0, run=0, ensures=0, distinct=0, samples=[], failure=None)
    if not os.path.exists(out):
        # an abort (stack overflow, out of memory) is a failure of the code under test
        return dict(error='died: %d %s' % (p.returncode, p.stderr.decode(errors='replace')[-300:]), cases=0, run=0, ensures=0,
                    distinct=0, samples=[], failure=None)
    r = json.load(open(out))
    os.unlink(out)
    return r


def replay_file(prop, name):
    d = os.path.join(V, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, '%s-%s.json' % (prop, name))


def nat_job(job):
    name, cases, seed, secs = job
    return native(['search', name, str(cases), str(seed), str(secs)], secs + 60)


def main():
    prop = sys.argv[1]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import registry
    mine = [c for c in registry.contracts() if c[0] == prop]
    if not mine:
        print('no contracts for ' + prop)
        sys.exit(2)
    build()
    t_build = time.time() - t0
    import worker
    worker.load(os.path.join(B, 'mir.json'))
    proofs = [c for c in mine if c[3] == 'harness']
    bounded = [c for c in mine if c[3] == 'bounded']
    secs, ms = (900, 30000) if thorough else (240, 4000)
    end = t0 + (100000 if thorough else 480)       # when the first attempt has to be over
    res, nat = {}, {}
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        vj = [(c[1], pool.apply_async(worker.run, ((c[1], secs, ms, end),))) for c in proofs]
        # the quick tier's native cases are the same on every run
        nseed = seed if thorough else 1
        cases_p, cases_b = (2000000, 20000000) if thorough else (40000, 3000000)
        sp, sb = (60, 240) if thorough else (4, 25)
        nj = [(c[1], pool.apply_async(nat_job, ((c[1], cases_b, nseed, sb),))) for c in bounded]
        nj += [(c[1], pool.apply_async(nat_job, ((c[1], cases_p, nseed, sp),))) for c in proofs]
        for n, j in nj:
            nat[n] = j.get()
        for n, j in vj:
            res[n] = j.get()
        # second attempt with longer limits for what the solvers left open
        again = [n for n, r in res.items() if any(o['status'] == 'unknown' for o in r['obls']) and
                 not any(o['status'] == 'failed' for o in r['obls'])]
        left = (3000 if thorough else 400) - (time.time() - t0)
        if again and left > 60:
            for n, j in [(n, pool.apply_async(worker.run, ((n, min(left, secs * 2), ms * 4, time.time() + left),))) for n in again]:
                r = j.get()
                if sum(o['status'] == 'proved' for o in r['obls']) >= sum(o['status'] == 'proved' for o in res[n]['obls']) and not r['error']:
                    r['candidates'] += res[n]['candidates']
                    res[n] = r
    t_prove = time.time() - t0 - t_build
    if os.environ.get('VERIF_VERBOSE'):
        for n, r in res.items():
            print('%-40s %6.1fs paths %d %s' % (n, r['secs'], r['paths'], r['error'] or ''), 'VACUOUS' if r['vacuous'] else '')
            for o in r['obls']:
                if o['status'] != 'proved':
                    print('     ', o['status'], o['label'], o['where'])
        for n, r in nat.items():
            print('%-40s native cases %d run %d distinct %d %s' % (n, r['cases'], r['run'], r['distinct'], r.get('error') or ''), r['failure'] or '')

    known = known_findings(prop)
    bad = []          # (name, labels, inputs or None, text)
    undecided = []
    extra_native = 0
    for c in mine:
        n = c[1]
        nr, r = nat.get(n), res.get(n)
        if nr and nr['failure']:
            bad.append((n, nr['failure']['labels'], nr['failure']['inputs'], r))
            continue
        if nr and nr.get('error', '') and nr['error'].startswith('died'):
            bad.append((n, ['does not abort: ' + nr['error']], None, r))
            continue
        if r is None:
            continue
        failed = [o for o in r['obls'] if o['status'] == 'failed']
        unknown = [o for o in r['obls'] if o['status'] == 'unknown']
        if not failed and not unknown and not r['error'] and not r['vacuous']:
            continue
        # replay the solver's inputs against the real code
        lines = [' '.join(repr(float(x)) for x in v) for _, v in r['candidates']]
        hit = None
        if lines:
            f = os.path.join(B, 'cand-%d-%s.txt' % (os.getpid(), n))
            open(f, 'w').write('\n'.join(lines) + '\n')
            q = native(['replay', n, f], 120)
            extra_native += q['run']
            os.unlink(f)
            if q['failure']:
                hit = q['failure']
        if hit is None and (thorough or time.time() - t0 < 600):
            q = nat_job((n, cases_b, nseed + 7, sb))
            extra_native += q['run']
            hit = q['failure']
        if hit is not None:
            bad.append((n, hit['labels'], hit['inputs'], r))
        elif failed:
            bad.append((n, [o['label'] for o in failed], None, r))
        else:
            undecided.append((n, r['error'] or 'vacuous' if r['error'] or r['vacuous'] else 'solver: ' + unknown[0]['label']))

    lines, reported = [], 0
    for n, labels, inp, r in bad:
        path = replay_file(prop, n)
        json.dump(dict(property=prop, contract=n, failed=labels, inputs=inp,
                       how='build with /verif/build_native.sh, then: build/native replay %s FILE, FILE holding the inputs on one line' % n
                       if isinstance(inp, list) else 'verifier output below' if inp is None else 'native search seed, see inputs',
                       verifier=[o for o in (r or {}).get('obls', []) if o['status'] != 'proved'],
                       error=(r or {}).get('error')), open(path, 'w'), indent=1)
        hitk = [k for k in known if k['contract'] == n and any(k['label'] in l for l in labels)]
        if hitk and all(any(k['label'] in l for k in hitk) for l in labels):
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, hitk[0]['text']))
            continue
        reported += 1
        print('contract %s: %s' % (n, '; '.join(labels)))
        if inp is not None:
            print('  inputs: %s' % (inp,))
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if inp is not None else ' no-failing-input-found'))
    evidence(prop, thorough, seed, t0, t_build, t_prove, mine, res, nat, undecided, bad, reported, extra_native)
    for n, why in undecided:
        print('undecided (sampled natively instead): %s: %s' % (n, why))
    # violations with a failing input first
    for l in sorted(lines, key=lambda l: l.endswith('no-failing-input-found')):
        print(l)
    nobl = sum(len(r['obls']) for r in res.values())
    print('%s: %d contracts, %d obligations, %d native cases, %.0f s' % (
        prop, len(mine), nobl, sum(r['run'] for r in nat.values()) + extra_native, time.time() - t0))
    sys.exit(1 if reported else 0)


def known_findings(prop):
    """known-findings lines of the form  open: property=P contract=NAME label=[...] text"""
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'open: property=(\S+) contract=(\S+) label=\[([^\]]*)\] (.*)', l)
            if m and m.group(1) == prop:
                out.append(dict(contract=m.group(2), label=m.group(3), text=m.group(4)))
    return out


def evidence(prop, thorough, seed, t0, t_build, t_prove, mine, res, nat, undecided, bad, reported, extra):
    ob = [(n, o) for n, r in res.items() for o in r['obls']]
    back = {}
    for _, o in ob:
        for h, k in o['how'].items():
            back[h] = back.get(h, 0) + k
    fns = sorted({f for r in res.values() for f in r['functions']})
    trusted = sorted({f for r in res.values() for f in r['trusted']})
    und = {n for n, _ in undecided}
    level = next((c['level'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks'] if c['property'] == prop), 'proof')
    cov = dict(
        contracts=[c[1] for c in mine if c[3] == 'harness'],
        bounded_contracts=[dict(name=c[1], cases=nat[c[1]]['run'], bound='%d native cases drawn at random; never counted as proved' % nat[c[1]]['cases'])
                           for c in mine if c[3] == 'bounded'],
        undecided_contracts=[dict(name=n, why=w) for n, w in undecided],
        obligations=len(ob), discharged=sum(o['status'] == 'proved' for _, o in ob),
        obligations_on_paths=sum(o['n'] for _, o in ob),
        discharged_by=back,
        paths=sum(r['paths'] for r in res.values()),
        solver_calls=sum(r['solver_calls'] for r in res.values()),
        solver_seconds=round(sum(r['solver_secs'] for r in res.values()), 2),
        functions_under_contract=fns,
        library_functions_verified_from_their_bodies=sorted({f for r in res.values() for f in r.get('others', [])}),
        checker_cmd='/verif/check.py ' + prop + (' --thorough' if thorough else ''),
        trusted_base=['rustc (MIR generation)', 'mirdump and vc/ (this verifier)', 'z3, cvc5, sympy'] + ['model of ' + t for t in trusted if not t.startswith('auburn_specs')],
        loop_invariants={k: v for r in res.values() for k, v in r['loops'].items()},
        evaluations=sum(r['run'] for r in nat.values()) + extra,
        distinct_nontrivial=sum(r['distinct'] for r in nat.values()),
        rule='native runs of the same contracts; non-trivial: the preconditions hold; distinct by the bits of all inputs',
        samples=[dict(contract=n, inputs=s) for n, r in nat.items() for s in r['samples'][:1]][:8],
        proof_samples=[dict(contract=n, obligation=o['label'], where=o['where'], by=o['how'], paths=o['n']) for n, o in ob][:12],
        build_seconds=round(t_build, 1), proof_seconds=round(t_prove, 1),
        explanation='Obligations are generated from the MIR of /repo\'s current tree for all inputs; floats are treated as real numbers.')
    json.dump(dict(property=prop, tier='thorough' if thorough else 'quick', seed=seed, level=level, coverage=cov,
                   assumptions=['machine floats are treated as exact real numbers in proofs (native runs use the real f32 code)',
                                'inputs are finite numbers; contracts state further preconditions',
                                'a path that exceeds the limits is listed under undecided_contracts and not counted as discharged',
                                'modelled library functions behave as modelled (trusted_base)'],
                   wall_s=round(time.time() - t0, 2), violations=reported),
              open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    main()
