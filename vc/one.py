import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import engine, values
p = engine.Prog(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'build', 'mir.json'))
for n in sys.argv[1:]:
    lim = engine.Limits()
    lim.secs = float(os.environ.get('SECS', '100'))
    e = engine.Engine(p, lim)
    t = time.time()
    err = ''
    try:
        e.run(n)
    except (values.Unsupported, values.Budget) as x:
        err = '%s: %s' % (type(x).__name__, x)
    print(n, '%.1fs' % (time.time() - t), 'paths', e.completed, 'forks', e.npaths, 'solver', e.sol.calls, '%.1fs' % e.sol.secs, err)
    for o in e.obls.values():
        print('   ', o.status, o.n, o.how, '%.2fs' % o.secs, o.label, '@', o.where)
        if o.model is not None and os.environ.get('MODEL'):
            print(o.model)
