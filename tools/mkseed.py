#!/usr/bin/env python3
"""mkseed.py SPEC.py : plant, confirm and keep a bug (development aid, not used by any check).
SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (C++ source), libs(optional)."""
import json, os, subprocess, sys, runpy
R = '/repo'
V = '/verif'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


DEMO = '''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken
set -e
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
here=$(cd "$(dirname "$0")" && pwd)
g++-13 -std=gnu++20 %s -DNEOLIB_HOSTED_ENVIRONMENT -mavx -w -Wno-changes-meaning -I"$PWD/include" -I"$PWD/_build/include" %s"$here/demo.cpp" -o "$d/demo" "$PWD/_build/libneolib.a" %s -lpthread
cd "$d"
timeout 60 ./demo
'''


SHIM = '''// the cache line size that this boost version names differently
#pragma once
#include <cstddef>
namespace boost { namespace lockfree { namespace detail { constexpr std::size_t cacheline_bytes = 64; } } }
'''


def main(spec):
    s = runpy.run_path(spec)
    d = '%s/seeded/%s' % (V, s['id'])
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'repo dirty'
    open(d + '/demo.cpp', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO % (s.get('cflags', ''), ('-include "$here/shim.hpp" ' if s.get('shim') else '') + ''.join('"$PWD/%s" ' % x for x in s.get('srcs', [])), s.get('libs', '')))
    os.chmod(d + '/demo.sh', 0o755)
    if s.get('shim'):
        open(d + '/shim.hpp', 'w').write(SHIM)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    p = sh('cd %s && bash %s/demo.sh' % (R, d))
    print('demo on clean tree: rc', p.returncode, p.stdout[-1500:])
    if p.returncode:
        return 1
    ok = True
    try:
        for f, old, new in s['edits']:
            t = open(R + '/' + f, newline='', encoding='latin-1').read()
            crlf = '\r\n' in t
            if crlf:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert t.count(old) == s.get('count', 1), (f, t.count(old))
            open(R + '/' + f, 'w', newline='', encoding='latin-1').write(t.replace(old, new))
        open(d + '/patch.diff', 'wb').write(subprocess.run('git -C %s diff --binary' % R, shell=True, stdout=subprocess.PIPE).stdout)
        if '--nobuild' not in sys.argv:
            p = sh('bash /opt/vp/test.sh /tmp/w/out.json')
            r = json.load(open('/tmp/w/out.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            print('tests:', {k: (len(v) if isinstance(v, list) else v) for k, v in r.items()})
            if r['failed'] or not r['passed']:
                print(p.stdout[-1500:])
                ok = False
        p = sh('cd %s && bash %s/demo.sh' % (R, d))
        print('demo with bug: rc', p.returncode, p.stdout[-300:])
        ok = ok and p.returncode != 0
        p = sh('cd %s && python3 check.py %s' % (V, s['property']))
        print('check: rc', p.returncode, p.stdout[-1200:])
        print('RESULT', s['id'], 'valid' if ok else 'INVALID', 'CAUGHT' if p.returncode == 1 else 'MISSED')
    finally:
        sh('git -C %s checkout -- .' % R)
    if '--nobuild' not in sys.argv:
        sh('bash /opt/vp/build.sh')


sys.exit(main(sys.argv[1]))
