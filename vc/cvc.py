"""cvc5 with cylindrical coverings, in a process of its own."""
import os
import subprocess
import tempfile
import z3


def unsat(cs, ms):
    s = z3.Solver()
    for c in cs:
        s.add(c)
    fd, name = tempfile.mkstemp('.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('(set-logic ALL)\n' + s.to_smt2())
        r = subprocess.run(['cvc5', '--nl-cov', '--tlimit', str(int(ms)), name], capture_output=True, text=True,
                           timeout=ms / 1000.0 + 2)
        return r.stdout.strip().split('\n')[0] == 'unsat'
    except (OSError, subprocess.TimeoutExpired):
        return False
    finally:
        os.unlink(name)
