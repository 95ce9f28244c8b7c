"""Lists the contracts of /verif/specs/src and writes specs/src/registry.rs from them."""
import os
import re

SPECS = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs', 'src')
PAT = re.compile(r'^(harness|bounded)! \{ (P\d+) (\w+)\(', re.M)


def contracts():
    """[(property, name, module, 'harness' or 'bounded')]"""
    out = []
    for f in sorted(os.listdir(SPECS)):
        if f.endswith('.rs') and f not in ('registry.rs', 'gen.rs', 'rt.rs', 'lib.rs'):
            for m in PAT.finditer(open(os.path.join(SPECS, f)).read()):
                out.append((m.group(2), m.group(3), f[:-3], m.group(1)))
    return out


def write():
    t = '// Written by vc/registry.py.\npub static ALL: &[(&str, &str, fn(&mut crate::gen::Src))] = &[\n'
    for p, n, m, _ in contracts():
        t += '    ("%s", "%s", crate::%s::%s::native),\n' % (p, n, m, n)
    t += '];\n'
    p = os.path.join(SPECS, 'registry.rs')
    if not os.path.exists(p) or open(p).read() != t:
        open(p, 'w').write(t)


if __name__ == '__main__':
    write()
