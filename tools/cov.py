#!/usr/bin/env python3
"""cov.py Cxx FILE... : lines of FILE (relative to /repo) that look like code and that no law of Cxx
interprets (development aid, not used by any check)."""
import os, re, sys
os.environ['NSA_COV'] = '1'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/nsa')
import driver, registry
from report import Report
seen = set()
orig = driver.each_of


def each_of(work, **kw):
    for r in orig(work, **kw):
        seen.update(r.get('cov', ()))
        yield r


driver.each_of = each_of
rep = Report(sys.argv[1])
registry.CHECKS[sys.argv[1]][0](rep, 'quick')
print('findings', len(rep.findings), 'undecided', len(rep.undecided), 'broken', rep.broken)
for f in sys.argv[2:]:
    lines = {l for (p, l) in seen if p == driver.REPO + '/' + f}
    src = open(driver.REPO + '/' + f, encoding='latin-1').read().split('\n')
    print('== %s: %d lines interpreted' % (f, len(lines)))
    if not lines:
        continue
    for i, s in enumerate(src, 1):
        t = s.strip()
        if i in lines or not t or t.startswith(('//', '*', '#', 'using ', 'typedef', 'template', 'struct', 'class', 'friend', 'namespace', 'static constexpr', 'mutable ', 'virtual')):
            continue
        if not (';' in t or '{' in t and '(' in t) or t.endswith(('= 0;', '= default;', '= delete;')) or t in ('};', '}', '{'):
            continue
        if re.match(r'^[\w:<>,&*\s]+ i[A-Z]\w*( = [^;]*|\{[^}]*\})?;$', t) or re.match(r'^[\w:<>,&*\s]+\([^;{}]*\)( const)?( noexcept)?( final| override)?;$', t) and not t.startswith(('return', 'throw')):
            continue
        print('%5d %s' % (i, t[:170]))
