"""Extraction, law running, evidence and verdicts."""
import hashlib
import json
import os
import subprocess
import sys
import time
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('NSA_REPO', '/repo')
sys.path.insert(0, HERE)

CACHE = os.path.join(ROOT, '.cache')


CXX = '/usr/lib/gcc/x86_64-linux-gnu/13/../../../../include/c++/13/'
STD = ['optional', 'bits/stl_pair.h', 'tuple', 'bits/unique_ptr.h', 'bits/shared_ptr', 'array', 'initializer_list', 'variant', 'bits/stl_iterator.h', 'bits/std_function.h', 'string_view', 'bits/enable_special', 'bits/stl_construct.h', 'bits/invoke.h', 'compare', 'any', 'typeinfo', 'ext/aligned_buffer.h', 'bits/ranges_base.h']


class Broken(Exception):
    """the analysis itself could not be carried out"""


def nsx():
    exe = os.path.join(HERE, 'nsx')
    src = os.path.join(HERE, 'nsx.cpp')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        subprocess.run([os.path.join(HERE, 'build_nsx.sh')], check=True)
    return exe


def flags(extra=()):
    exp = os.path.join(REPO, '_build', 'include')
    inc = ['-I' + os.path.join(ROOT, 'laws', 'shim'), '-I' + REPO + '/include', '-I' + os.path.join(ROOT, 'laws', 'gen')]
    return ['-std=gnu++20', '-DNEOLIB_HOSTED_ENVIRONMENT', '-DNDEBUG', '-mavx'] + inc + ['-I' + os.path.join(ROOT, 'laws'), '-Wno-everything', '-ferror-limit=0',
            '-include', os.path.join(ROOT, 'laws', 'nsa_shim.hpp')] + list(extra)


_treehash = None


def treehash():
    global _treehash
    if _treehash is None:
        h = hashlib.sha256()
        for base in (REPO + '/include', REPO + '/src', ROOT + '/laws'):
            for dp, dn, fn in sorted(os.walk(base)):
                for f in sorted(fn):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
        with open(os.path.join(HERE, 'nsx.cpp'), 'rb') as fh:
            h.update(fh.read())
        _treehash = h.hexdigest()[:24]
    return _treehash


def extract(files, extra=(), dirs=None):
    """run the extractor over the files (absolute paths) in parallel -> list of jsonl paths"""
    exe = nsx()
    os.makedirs(CACHE, exist_ok=True)
    dirs = dirs or [REPO + '/include/neolib', REPO + '/src', ROOT + '/laws'] + [CXX + x for x in STD]

    def one(f):
        tag = hashlib.sha256((f + ' '.join(flags(extra)) + ','.join(dirs)).encode()).hexdigest()[:10]
        out = os.path.join(CACHE, treehash() + '-' + os.path.basename(f) + '-' + tag + '.jsonl')
        if os.path.exists(out):
            return out, ''
        tmp = out + '.%d.tmp' % os.getpid()
        p = subprocess.run([exe, tmp, ','.join(dirs), f, '--', 'clang++'] + flags(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if not os.path.exists(tmp) or p.returncode not in (0,):
            raise Broken('extraction of %s failed: %s' % (f, p.stderr[-2000:]))
        os.rename(tmp, out)
        return out, p.stderr
    with ThreadPoolExecutor(8) as ex:
        return [o for o, _ in ex.map(one, files)]


def is_real(f):
    """law files marked so are analysed with the bodies of the standard containers themselves"""
    try:
        with open(f) as fh:
            return 'nsa: std=real' in fh.read(200)
    except OSError:
        return False


def wants_statics(f):
    """law files marked so start with no static variable initialised"""
    with open(f) as fh:
        return 'statics=init' in fh.read(200)


def wants_reals(f):
    """law files marked so do arithmetic on floating-point numbers as if they were exact"""
    with open(f) as fh:
        return 'reals=exact' in fh.read(200)


def dirs_of(files):
    return [REPO + '/include/neolib', REPO + '/src', ROOT + '/laws', CXX] if any(is_real(f) for f in files) else None


def prefetch(groups, extra=()):
    """extract several groups of files at once"""
    nsx()
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda g: extract(g, extra, dirs_of(g)), groups))


def load(files, extra=(), need_clean=()):
    from engine import Program
    p = Program()
    p.real = any(is_real(f) for f in files)
    p.statics = any(wants_statics(f) for f in files)
    p.reals = any(wants_reals(f) for f in files)
    outs = extract(files, extra, dirs_of(files))
    for f, o in zip(files, outs):
        before = p.errors
        p.load(o)
        if p.errors > before and f in need_clean:
            raise Broken('%s does not parse (%d errors)' % (f, p.errors - before))
    return p


def law(name):
    return os.path.join(ROOT, 'laws', name)


def src(name):
    return os.path.join(REPO, 'src', name)


# ------------------------------------------------------------------ laws
LAW_LIMIT = float(os.environ.get('NSA_LAW_LIMIT', '200'))   # seconds per law and pass
DEADLINE = time.time() + 640                                # no law is followed beyond this


def setup_param(eng, st, fr, q):
    from state import Loc, addr
    from engine import base_type
    loc = Loc(('v', fr.id, q['id'], q['n']), ())
    t = base_type(q['t'])
    if q.get('ref'):
        tgt = Loc(('o', q['n']), ())
        st.write(loc.root, loc.path, addr(tgt.root, tgt.path))
        if q.get('cls'):
            st.dyn[(tgt.root, ())] = q['cls']
    elif q.get('cls'):
        st.dyn[(loc.root, ())] = q['cls']


def interpret(prog, rec, hooks=(), prepare=None, bound=None, **kw):
    from engine import Engine, Frame, Blowup, Unsupported
    from state import St
    eng = Engine(prog, **kw)
    eng.bound = bound
    eng.deadline = min(DEADLINE, time.time() + LAW_LIMIT)
    eng.hooks = list(hooks)
    st = St()
    fr = Frame(0, rec, None, None)
    for q in rec['params']:
        setup_param(eng, st, fr, q)
    if prepare:
        prepare(eng, st, fr)
    outs, err = [], None
    try:
        outs = eng.exec(rec['body'], st, fr)
    except (Blowup, Unsupported) as e:
        err = '%s: %s' % (type(e).__name__, e)
    return eng, outs, err


def run_law(prog, rec, hooks=(), prepare=None, bound=3, finish=None, **kw):
    """decide the obligations of one law: first by fixpoint abstraction; what that leaves open is
    reported only if a path without any abstraction reaches it (loops followed exactly)"""
    from dom import imprecise, show
    t0 = time.time()
    eng, outs, err = interpret(prog, rec, hooks, prepare, **kw)
    if finish and not err:
        finish(eng, outs)
    res = {'law': rec['q'], 'where': '%s:%d' % (rec['file'], rec['line']), 'obligations': len(eng.reqs), 'violations': [], 'undecided': [], 'error': err, 'paths': len(outs)}
    left = [r for r in eng.reqs if r[0] is not True]
    res['discharged'] = len(eng.reqs) - len(left)
    res['functions'] = sorted(prog.fns[i]['q'] for i in eng.entered)
    res['opaque'] = dict(eng.opaque)
    res['steps'] = eng.steps
    res['rounds'] = eng.loop_rounds

    def item(r):
        d, v, msg, where, s = r
        return {'what': msg, 'law': rec['n'], 'at': where, 'condition': show(v), 'path': s.traces()[-40:] if s else []}

    for kd, v, s in outs:
        if s.exc and kd == 't' and s.exc[0] != 'nsa::exception':
            res.setdefault('throws', []).append((s.exc[0], s.traces()[-20:]))
            left.append((False, None, 'no exception leaves (%s)' % s.exc[0], res['where'], s))
            res['obligations'] += 1
    if not left and not err:
        res['wall'] = time.time() - t0
        return res
    if eng.loop_rounds or err:
        eng2, outs2, err2 = interpret(prog, rec, hooks, prepare, bound=bound, **kw)
        if finish and not err2:
            finish(eng2, outs2)
        reqs = list(eng2.reqs)
        for kd, v, s in outs2:
            if s.exc and kd == 't' and s.exc[0] != 'nsa::exception':
                reqs.append((False, None, 'no exception leaves (%s)' % s.exc[0], res['where'], s))
        res['error2'] = err2
    else:
        reqs = left
    from dom import K
    seen = set()
    for r in reqs:
        d, v, msg, where, s = r
        if d is True:
            continue
        if v is None:
            r = (d, K(0), msg, where, s)
        if s.imp or (d is None and imprecise(v)):
            continue
        k = (msg, where)
        if k in seen:
            continue
        seen.add(k)
        res['violations'].append(item(r))
    vs = {(x['what'], x['at']) for x in res['violations']}
    for r in left:
        k = (r[2], r[3])
        if k not in vs:
            vs.add(k)
            res['undecided'].append(item((r[0], r[1] if r[1] is not None else K(0)) + r[2:]))
    res['wall'] = time.time() - t0
    return res


def _one(i):
    prog, rec = _work[0][i]
    r = run_law(prog, rec, **_work[1])
    import engine
    if engine.COV is not None:
        r['cov'] = {x for x in engine.COV if x[0].startswith(REPO)}
    return r


def run_laws(prog, **kw):
    return list(each_law(prog, **kw))


def laws_of(prog, prefix='law_', only=None, files=None):
    recs = sorted((r for r in prog.fns.values() if r['n'].startswith(prefix) and r['file'].startswith(ROOT)), key=lambda r: (r['file'], r['line'], r['id']))
    if only:
        recs = [r for r in recs if r['n'].startswith(only)]
    if files:
        recs = [r for r in recs if r['file'] in files]
    return recs


def each_law(prog, prefix='law_', only=None, files=None, jobs=8, **kw):
    yield from each_of([(prog, r) for r in laws_of(prog, prefix, only, files)], jobs, **kw)


def each_of(work, jobs=8, **kw):
    global _work
    _work = (work, kw)
    if jobs > 1 and len(work) > 2:
        import multiprocessing
        with multiprocessing.get_context('fork').Pool(min(jobs, len(work))) as pool:
            yield from pool.imap(_one, range(len(work)), chunksize=1)
        return
    for i in range(len(work)):
        yield _one(i)


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('law', nargs='+')
    ap.add_argument('-s', action='append', default=[])
    ap.add_argument('-o')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    t = time.time()
    prog = load([law(x) for x in a.law] + [src(x) for x in a.s])
    print('errors', prog.errors, 'fns', len(prog.fns), '%.1fs' % (time.time() - t))
    for r in each_law(prog, only=a.o, jobs=a.j):
        flag = 'VIOL' if r['violations'] else 'und ' if r['undecided'] or r['error'] else 'ok  '
        print('%s %-44s obl %d ok %d viol %d undec %d paths %d err %s/%s steps %d rounds %d %.1fs' % (flag, r['law'], r['obligations'], r['discharged'], len(r['violations']), len(r['undecided']), r['paths'], r['error'], r.get('error2'), r['steps'], r['rounds'], r['wall']), flush=True)
        for v in r['violations'] + r['undecided']:
            print('      ', 'UNDEC' if v in r['undecided'] else 'VIOL ', v['what'], v['at'], v['condition'][:300])
            if a.v:
                for x in v['path']:
                    print('         ', x)
        if r['opaque']:
            print('       opaque', r['opaque'])
