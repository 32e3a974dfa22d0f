"""Models of std:: functions and of the analysis intrinsics (namespace nsa)."""
import math
import os
from state import *
import functools

M = {}      # qualified name -> model(call) -> [(value, state)]
CM = {}     # class (no template arguments) -> {method name: model, 'ctor()':..., 'dtor':..., '*':...}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


# functions of the compiled library whose bodies laws/stdlib.hpp provides
BODIES = {
    'std::__detail::_List_node_base::_M_hook': 'nsa_std::list_hook', 'std::__detail::_List_node_base::_M_unhook': 'nsa_std::list_unhook',
    'std::__detail::_List_node_base::_M_transfer': 'nsa_std::list_transfer', 'std::__detail::_List_node_base::_M_reverse': 'nsa_std::list_reverse',
    'std::__detail::_List_node_base::swap': 'nsa_std::list_swap',
    'std::_Rb_tree_insert_and_rebalance': 'nsa_std::tree_insert', 'std::_Rb_tree_rebalance_for_erase': 'nsa_std::tree_erase',
    'std::_Rb_tree_increment': 'nsa_std::tree_inc', 'std::_Rb_tree_decrement': 'nsa_std::tree_dec',
    'std::__detail::_Prime_rehash_policy::_M_next_bkt': 'nsa_std::next_bkt', 'std::__detail::_Prime_rehash_policy::_M_need_rehash': 'nsa_std::need_rehash',
    'std::_Hash_bytes': 'nsa_std::hash_bytes', 'boost::algorithm::replace_all': 'nsa_std::replace_all', 'strchr': 'nsa_std::str_chr', 'isxdigit': 'nsa_std::is_xdigit', 'std::isxdigit': 'nsa_std::is_xdigit', 'isdigit': 'nsa_std::is_digit', 'std::isdigit': 'nsa_std::is_digit', 'strtol': 'nsa_std::str_tol', 'std::strtol': 'nsa_std::str_tol', 'std::strchr': 'nsa_std::str_chr',
    'neolib::enum_to_hex': 'nsa_std::enum_to_hex',
    'pthread_mutex_lock': 'nsa_std::mutex_lock', 'pthread_mutex_unlock': 'nsa_std::mutex_unlock', 'pthread_mutex_trylock': 'nsa_std::mutex_trylock',
}


def m_body(q):
    def m(c):
        recs = c.eng.p.byq.get(q)
        if not recs:
            return c.eng.opaque_call(c.node, c.f, c.obj, c.args, c.st, c.fr, c.dest)
        a = c.args
        if c.obj is not None:
            a = (addr(c.obj.root, c.obj.path),) + tuple(a)
        return c.eng.enter(recs[0], None, a, c.st, c.fr, c.node, c.dest)
    return m


for _k, _v in BODIES.items():
    M[_k] = m_body(_v)

OWNROOT = ('str', 'v', 't', 'new', 'g', 's')


def m_disjunct(c):
    p = ptr_loc(c.st.norm(L(val(c, 0))))
    q = ptr_loc(c.st.norm(c.st.read(c.obj.root, c.obj.path + ('std::basic_string::_M_dataplus', 'std::basic_string::_Alloc_hider::_M_p'), 'char *')))
    if p and q and p.root != q.root and (p.root[0] in OWNROOT or q.root[0] in OWNROOT):
        return [(ONE, c.st)]
    return m_unknown_range(c)


M['std::basic_string::_M_disjunct'] = m_disjunct

REAL_OFF = ('std::vector', 'std::basic_string', 'std::deque', '__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::pair')
REAL_OFF_F = ('std::swap', 'std::ranges::swap', 'std::iter_swap', 'std::min', 'std::max', 'std::exchange', 'std::distance', 'std::next', 'std::prev', 'std::make_pair')


def install(eng):
    eng.models.update(M)
    for k, v in CM.items():
        eng.class_models[k] = dict(v)
    if getattr(eng.p, 'real', False):
        for k in REAL_OFF:
            eng.class_models.pop(k, None)
        for k in REAL_OFF_F:
            eng.models.pop(k, None)
        for k in ALLOC:
            for n in ('construct', 'destroy'):
                eng.class_models[k].pop(n, None)
        for k in list(eng.models):
            if eng.models[k] is it_cmp:
                del eng.models[k]


def cmodel(cls, *names):
    def d(f):
        for c in (cls if isinstance(cls, (list, tuple)) else [cls]):
            for n in names:
                CM.setdefault(c, {})[n] = f
        return f
    return d


def L(v):
    return addr(v.root, v.path) if isinstance(v, Loc) else v


def val(c, i, t=None):
    """scalar value of argument i"""
    v = c.args[i]
    if isinstance(v, Loc):
        return c.eng.read(v, t or c.node['a'][i].get('t', ''), c.st)
    return v


def sub(loc, *p):
    return Loc(loc.root, loc.path + p)


def rd(c, loc, t=''):
    return c.st.read(loc.root, loc.path, t)


def wr(c, loc, v):
    c.st.write(loc.root, loc.path, v)


def ptr_loc(p):
    d = deref(p)
    return Loc(*d) if d else None


# ---------------------------------------------------------------- intrinsics
@model('nsa::require')
def m_require(c):
    v = c.st.norm(to_bool(L(val(c, 0))))
    text = c.args[1] if len(c.args) > 1 else None
    msg = ''
    if isinstance(text, Lin) and text.t:
        a = text.t[0][0]
        if kind(a) == '&':
            msg = args(a)[0][1]
    d = c.st.decide(v)
    c.eng.reqs.append((d, v, msg, c.eng.where(c.node, c.fr), c.st.copy() if d is not True else None))
    if d is not True and 'NSA_FACTS' in os.environ:
        print('facts at', msg, [show(f) for f in c.st.ge], 'ne', [show(f) for f in c.st.ne])
    # continue under the assumption that it holds, so that one defect gives one report
    if d is None:
        if not c.st.assume(v, True):
            return []
    return [(ZERO, c.st)]


@model('nsa::assume')
def m_assume(c):
    v = c.st.norm(to_bool(L(val(c, 0))))
    if c.st.assume(v, True):
        return [(ZERO, c.st)]
    return []


@model('std::__is_constant_evaluated', 'std::is_constant_evaluated', '__builtin_is_constant_evaluated', '__builtin_constant_p')
def m_notconst(c):
    return [(ZERO, c.st)]


@model('nsa::reach')
def m_reach(c):
    c.eng.reached.add(c.eng.where(c.node, c.fr))
    return [(ZERO, c.st)]


@model('nsa::nondet')
def m_nondet(c):
    t = c.node.get('t', '')
    v = fresh('any', **tflags(t))
    b = base_type(t)
    bits = UNSIGNED.get(b) or SIGNED.get(b)
    if bits and bits < 32:
        lo, hi = (0, (1 << bits) - 1) if b in UNSIGNED else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
        c.st.assume(mk_ge0(v - lo), True)
        c.st.assume(mk_ge0(K(hi) - v), True)
    return [(v, c.st)]


@model('nsa::may_throw')
def m_maythrow(c):
    s2 = c.st.copy()
    s2.exc = ('nsa::exception', ('o', 'exc'), ())
    return [(ZERO, c.st), (None, s2)]


@model('nsa::show')
def m_show(c):
    print('SHOW', c.eng.where(c.node, c.fr), [show(val(c, i)) if not isinstance(val(c, i), Loc) else val(c, i) for i in range(len(c.args))])
    return [(ZERO, c.st)]


@cmodel('std::type_info', 'operator==', 'operator!=')
def m_ti(c):
    a, b = c.obj, c.args[0]
    r = None
    if isinstance(a, Loc) and isinstance(b, Loc):
        if a == b:
            r = ONE
        elif a.root[0] == 'g' and b.root[0] == 'g':
            r = ZERO
    if r is None:
        return [(fresh('typeid==', boolean=True, imp=True), c.st)]
    return [(r if c.f['n'] == 'operator==' else ONE - r, c.st)]


# ---------------------------------------------------------------- utility
@model('std::move', 'std::forward', 'std::as_const', 'std::launder', 'std::__addressof_fwd', 'std::move_if_noexcept', 'std::forward_like')
def m_fwd(c):
    if len(c.args) == 3:
        return m_unknown_range(c)
    return [(c.args[0], c.st)]


@model('std::addressof', 'std::__addressof')
def m_addressof(c):
    v = c.args[0]
    return [(L(v) if isinstance(v, Loc) else v, c.st)]


def m_unknown_range(c):
    rec = c.eng.p.fns.get(c.f['id'])
    if rec and rec.get('body') and getattr(c.eng.p, 'real', False):
        return c.eng.enter(rec, c.obj, c.args, c.st, c.fr, c.node, c.dest)
    return c.eng.opaque_call(c.node, c.f, c.obj, c.args, c.st, c.fr, c.dest)


@model('std::exchange')
def m_exchange(c):
    a, b = c.args
    t = c.node['a'][0].get('t', '')
    if c.eng.isclass(t):
        return m_unknown_range(c)
    old = c.eng.read(a, t, c.st)
    c.eng.assign(a, val(c, 1), c.st, c.fr, c.node)
    return [(old, c.st)]


@model('std::swap', 'std::ranges::swap', 'std::iter_swap')
def m_swap(c):
    a, b = c.args[:2]
    if not isinstance(a, Loc) or not isinstance(b, Loc):
        return m_unknown_range(c)
    if a == b:
        return [(ZERO, c.st)]
    t = c.node['a'][0].get('t', '')
    if not c.eng.isclass(t):
        x = c.eng.read(a, t, c.st)
        y = c.eng.read(b, t, c.st)
        c.eng.assign(a, y, c.st, c.fr, c.node)
        c.eng.assign(b, x, c.st, c.fr, c.node)
        return [(ZERO, c.st)]
    tree_swap(c.st, a, b)
    return [(ZERO, c.st)]


def tree_swap(st, a, b):
    tmp = Loc(('tmp', newver()[1]), ())
    st.copy_tree(a, tmp)
    st.copy_tree(b, a)
    st.copy_tree(tmp, b)
    st.drop_root(tmp.root)


@model('std::min', 'std::max')
def m_minmax(c):
    if len(c.args) != 2 or c.eng.isclass(c.node['a'][0].get('t', '')):
        return m_unknown_range(c)
    a, b = val(c, 0), val(c, 1)
    ismin = c.f['n'] == 'min'
    if isfloat(c.node['a'][0].get('t', '')):
        return m_unknown_range(c)
    t, f = c.eng.split(mk_ge0(b - a), c.st, c.fr)
    outs = []
    for s in t:
        outs.append((c.args[0] if ismin else c.args[1], s))
    for s in f:
        outs.append((c.args[1] if ismin else c.args[0], s))
    return outs


@model('std::abs', 'abs', 'labs')
def m_abs(c):
    a = val(c, 0)
    if isfloat(c.node.get('t', '')):
        return [(app('fabs', a), c.st)]
    t, f = c.eng.split(mk_ge0(a), c.st, c.fr)
    return [(s.norm(a), s) for s in t] + [(-s.norm(a), s) for s in f]


@model('std::log2', 'log2', '__builtin_log2')
def m_log2(c):
    a = val(c, 0)
    x = a.c if a.isconst() else fconst(a)
    if x is not None and 0 < x < 1 << 53:
        return [(mk_float(math.log2(x)), c.st)]
    return [(app('log2', a), c.st)]


@model('__builtin_clzl', '__builtin_clzll', '__builtin_clz')
def m_clz(c):
    a = val(c, 0)
    w = 32 if c.f['q'] == '__builtin_clz' else 64
    if a.isconst() and 0 < a.c < 1 << w:
        return [(K(w - int(a.c).bit_length()), c.st)]
    return [(app('clz%d' % w, a), c.st)]


@model('std::lock', 'boost::lock')
def m_lock_all(c):
    # taking several locks at once succeeds: nothing but the locks changes
    return [(ZERO, c.st)]


@model('std::distance')
def m_distance(c):
    a, b = it_val(c, c.args[0]), it_val(c, c.args[1])
    if a is None or b is None:
        return m_unknown_range(c)
    return [(b - a, c.st)]


@model('std::next', 'std::prev')
def m_next(c):
    p = it_val(c, c.args[0])
    n = val(c, 1) if len(c.args) > 1 else ONE
    if p is None or (isinstance(c.args[0], Loc) and not pointer_iterator(c.node['a'][0].get('t', ''))):
        return m_unknown_range(c)
    r = p + n if c.f['n'] == 'next' else p - n
    if c.dest is not None:
        c.st.kill_tree(c.dest.root, c.dest.path, newver('u'))
        wr(c, sub(c.dest, '#p'), r)
        return [(c.dest, c.st)]
    return [(r, c.st)]


def pointer_iterator(t):
    t = base_type(t)
    return t.endswith('*') or '__normal_iterator' in t


def it_val(c, v):
    """pointer value of a pointer or modelled iterator argument"""
    if isinstance(v, Loc):
        x = c.st.store.get((v.root, v.path + ('#p',)))
        if x is not None:
            return x
        x = c.st.store.get((v.root, v.path))
        if isinstance(x, Lin):
            return x
        return rd(c, sub(v, '#p'), 'x *')
    return v


@model('std::terminate', 'abort', 'std::abort', 'exit', 'std::exit', '__assert_fail', '__builtin_unreachable', 'std::unreachable')
def m_noreturn(c):
    return []


THROWS = {'out_of_range_fmt': 'out_of_range', 'out_of_range': 'out_of_range', 'length_error': 'length_error', 'logic_error': 'logic_error', 'invalid_argument': 'invalid_argument', 'domain_error': 'domain_error',
          'bad_alloc': 'bad_alloc', 'bad_array_new_length': 'bad_array_new_length', 'bad_cast': 'bad_cast', 'runtime_error': 'runtime_error', 'overflow_error': 'overflow_error', 'range_error': 'range_error', 'bad_function_call': 'bad_function_call'}


@model(*('std::__throw_' + k for k in THROWS))
def m_throws(c):
    c.st.exc = ('std::' + THROWS[c.f['n'].split('__throw_')[-1]], ('o', 'exc'), ())
    return [(None, c.st)]


# ---------------------------------------------------------------- atomics
ATOM = ['std::atomic', 'std::__atomic_base', 'std::atomic_flag', 'std::__atomic_float']


@cmodel(ATOM, 'ctor()')
def a_ctor(c):
    c.st.kill_tree(c.obj.root, c.obj.path, newver('u'))
    if c.args:
        wr(c, sub(c.obj, '#v'), val(c, 0))
    else:
        wr(c, sub(c.obj, '#v'), ZERO)
    return [(c.obj, c.st)]


def a_t(c):
    return c.node.get('t', '')


@cmodel(ATOM, 'load', 'operator __integral', 'conversion')
def a_load(c):
    return [(c.st.read(c.obj.root, c.obj.path + ('#v',), a_t(c)), c.st)]


@cmodel(ATOM, '*')
def a_other(c):
    n = c.f['n']
    cell = sub(c.obj, '#v')
    if n.startswith('operator ') :
        return a_load(c)
    if n in ('store', 'operator='):
        v = val(c, 0)
        c.eng.assign(cell, v, c.st, c.fr, c.node)
        return [(v, c.st)]
    if n in ('exchange', 'test_and_set'):
        old = c.st.read(cell.root, cell.path, a_t(c))
        c.eng.assign(cell, val(c, 0) if n == 'exchange' else ONE, c.st, c.fr, c.node)
        return [(old, c.st)]
    if n == 'clear':
        c.eng.assign(cell, ZERO, c.st, c.fr, c.node)
        return [(ZERO, c.st)]
    if n == 'test':
        return [(c.st.read(cell.root, cell.path, 'bool'), c.st)]
    old = c.st.read(cell.root, cell.path, a_t(c))
    if n in ('operator++', 'operator--'):
        new = old + (1 if n == 'operator++' else -1)
        c.eng.assign(cell, new, c.st, c.fr, c.node)
        return [(old if c.args else new, c.st)]
    if n in ('fetch_add', 'operator+='):
        new = old + val(c, 0)
        c.eng.assign(cell, new, c.st, c.fr, c.node)
        return [(old if n == 'fetch_add' else new, c.st)]
    if n in ('fetch_sub', 'operator-='):
        new = old - val(c, 0)
        c.eng.assign(cell, new, c.st, c.fr, c.node)
        return [(old if n == 'fetch_sub' else new, c.st)]
    if n in ('compare_exchange_strong', 'compare_exchange_weak'):
        exp = c.args[0]
        ev = c.eng.read(exp, c.node['a'][0].get('t', ''), c.st)
        outs = []
        t, f = c.eng.split(mk_eq0(old - ev), c.st, c.fr)
        for s in t:
            c.eng.assign(cell, s.norm(val(c, 1)), s, c.fr, c.node)
            outs.append((ONE, s))
        for s in f:
            c.eng.assign(exp, s.norm(old), s, c.fr, c.node)
            outs.append((ZERO, s))
        return outs
    return m_unknown_range(c)


# ---------------------------------------------------------------- locks: no effect on values; events for clients
LOCKS = ['std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock']


@cmodel(LOCKS, '*', 'ctor()')
def lk(c):
    n = c.f['n']
    if n in ('lock_guard', 'unique_lock', 'scoped_lock', 'shared_lock'):
        ms = [L(a) for a in c.args if isinstance(a, Loc)]
        c.st.kill_tree(c.obj.root, c.obj.path, newver('u'))
        wr(c, sub(c.obj, '#m'), ms[0] if ms else ZERO)
        wr(c, sub(c.obj, '#owns'), ONE if ms else ZERO)
        c.st.event('lock', tuple(ms), c.eng.where(c.node, c.fr))
        return [(c.obj, c.st)]
    if n in ('lock', 'unlock'):
        wr(c, sub(c.obj, '#owns'), ONE if n == 'lock' else ZERO)
        c.st.event(n, (rd(c, sub(c.obj, '#m')),), c.eng.where(c.node, c.fr))
        return [(ZERO, c.st)]
    if n in ('owns_lock', 'operator bool'):
        return [(rd(c, sub(c.obj, '#owns'), 'bool'), c.st)]
    return m_unknown_range(c)


def lk_dtor(eng, loc, cls, st, fr):
    if st.read(loc.root, loc.path + ('#owns',), 'bool') != ZERO:
        st.event('unlock', (st.read(loc.root, loc.path + ('#m',), 'x *'),), '')
    return [st]


for _l in LOCKS:
    CM[_l]['dtor'] = lk_dtor

MUTEX = ['std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex']


@cmodel(MUTEX, '*', 'ctor()')
def mx(c):
    n = c.f['n']
    if n in ('lock', 'unlock', 'lock_shared', 'unlock_shared'):
        c.st.event(n, (L(c.obj),), c.eng.where(c.node, c.fr))
    if n.startswith('try_lock'):
        return [(fresh('try_lock', boolean=True), c.st)]
    return [(c.obj, c.st)]


# ---------------------------------------------------------------- std::pair / tuple
@cmodel('std::pair', 'ctor()')
def pair_ctor(c):
    c.st.kill_tree(c.obj.root, c.obj.path, newver('u'))
    if len(c.args) == 1 and isinstance(c.args[0], Loc):
        c.st.copy_tree(c.args[0], c.obj)
        return [(c.obj, c.st)]
    for i, f in enumerate(('std::pair::first', 'std::pair::second')):
        if i < len(c.args):
            put(c, sub(c.obj, f), i)
    return [(c.obj, c.st)]


def put(c, dst, i):
    """store argument i (by value) in dst; class objects of the analysed program are copied field-wise"""
    v = c.args[i]
    if isinstance(v, Loc):
        t = c.node['a'][i].get('t', '')
        if c.eng.isclass(t):
            c.st.copy_tree(v, dst)
        else:
            c.st.write(dst.root, dst.path, c.eng.read(v, t, c.st))
    else:
        c.st.write(dst.root, dst.path, v)


@model('std::make_pair')
def make_pair(c):
    c.st.kill_tree(c.dest.root, c.dest.path, newver('u'))
    put(c, sub(c.dest, 'std::pair::first'), 0)
    put(c, sub(c.dest, 'std::pair::second'), 1)
    return [(c.dest, c.st)]


# ---------------------------------------------------------------- raw memory
@model('__builtin_expect')
def m_expect(c):
    return [(c.args[0], c.st)]


def elem_size(e):
    """size of what a pointer converted to void* points to"""
    while e is not None and e.get('k') in ('Cast', 'Wrap', 'Full'):
        if e.get('psz'):
            sz = e['psz']
            x = e['e']
            while x.get('k') in ('Cast', 'Wrap') and x['e'].get('t', '').endswith('*') and not base_type(x['t']) == 'void *':
                if x.get('psz'):
                    sz = x['psz']
                x = x['e']
            return sz
        e = e['e']
    if e is not None:
        t = base_type(e.get('t', ''))
        if t.endswith('*') and base_type(t[:-1]) in ('char', 'unsigned char', 'signed char', 'char8_t', 'std::byte'):
            return 1
        if t.endswith('*') and base_type(t[:-1]) in ('wchar_t', 'char32_t'):
            return 4
    return None


def mem_units(c, n, wide=False):
    """number of elements the byte count designates, when both sides have the same element size"""
    a = c.node['a']
    s0, s1 = elem_size(a[0]), elem_size(a[1]) if len(a) > 1 else None
    if wide:
        s0 = s1 = 1
    if s0 is None or (s1 is not None and s1 != s0):
        return None
    if n.c % s0 or any(k % s0 for _, k in n.t):
        return None
    return Lin(n.c // s0, tuple((x, k // s0) for x, k in n.t))


def seq_locs(c, p, n):
    """the n locations starting at p; a pointer to a single object designates just that"""
    out = []
    for i in range(n):
        d = ptr_loc(c.st.norm(p) + i)
        if d is None:
            return None
        out.append(d)
    return out


def copy_cell(c, src, dst):
    c.st.copy_tree(src, dst)


def pointee(e):
    while e is not None and e.get('k') in ('Cast', 'Wrap', 'Full') and base_type(e.get('t', '')) in ('void *', 'const void *'):
        e = e['e']
    t = base_type(e.get('t', '')) if e else ''
    return base_type(t[:-1]) if t.endswith('*') else ''


def leaves(eng, cls, loc, out):
    """the scalars an object consists of"""
    rec = eng.p.cls.get(cls)
    if not rec:
        return False
    for b in rec['bases']:
        if not leaves(eng, b, loc, out):
            return False
    for f in rec['fields']:
        l = Loc(loc.root, loc.path + (f['fq'],))
        if f.get('cls') and f['cls'] in eng.p.cls and '[' not in f['t']:
            if not leaves(eng, f['cls'], l, out):
                return False
            continue
        a = eng.array_type(f['t'])
        if a:
            if a[0] in eng.p.cls or a[1] > 64:
                return False
            out += [(Loc(l.root, l.path + (('[', K(i)),)), a[0]) for i in range(a[1])]
        elif '[' in f['t']:
            return False
        else:
            out.append((l, f['t']))
    return len(out) <= 64


def reinterpret(c, src, dst):
    """the bytes of an object of one class copied over one of another: functions of the scalars copied"""
    a = c.node['a']
    td, ts = pointee(a[0]), pointee(a[1])
    if td == ts or td not in c.eng.p.cls or ts not in c.eng.p.cls:
        return False
    ls, ld = [], []
    if not leaves(c.eng, ts, src, ls) or not leaves(c.eng, td, dst, ld):
        return False
    vals = [c.st.norm(L(c.eng.read(l, t, c.st))) for l, t in ls]
    c.st.kill_tree(dst.root, dst.path, None)
    for i, (l, t) in enumerate(ld):
        c.st.write(l.root, l.path, app('bytes', K(i), *vals, **tflags(t)))
    return True


@model('__builtin_memcpy', '__builtin_memmove', 'memcpy', 'memmove', 'std::memcpy', 'std::memmove', '__builtin_wmemcpy', '__builtin_wmemmove', 'wmemcpy', 'wmemmove')
def m_memmove(c):
    n = c.st.norm(val(c, 2))
    n = mem_units(c, n, 'wmem' in c.f['n'])
    if n is None or not n.isconst() or n.c > 64 or n.c < 0:
        return m_unknown_range(c)
    d, s = L(c.args[0]), L(c.args[1])
    if n.c:
        src, dst = seq_locs(c, s, n.c), seq_locs(c, d, n.c)
        if src is None or dst is None:
            return []
        if n.c == 1 and reinterpret(c, src[0], dst[0]):
            return [(d, c.st)]
        tmp = []
        for i, x in enumerate(src):
            t = Loc(('tmp', newver()[1]), ())
            c.st.copy_tree(x, t)
            tmp.append(t)
        for t, x in zip(tmp, dst):
            c.st.copy_tree(t, x)
            c.st.drop_root(t.root)
    return [(d, c.st)]


@model('__builtin_memset', 'memset', 'std::memset', '__builtin_wmemset', 'wmemset')
def m_memset(c):
    n = c.st.norm(val(c, 2))
    v = val(c, 1)
    wide = 'wmem' in c.f['n']
    s0 = 1 if wide else elem_size(c.node['a'][0])
    if s0 is None or not n.isconst() or n.c % s0 or n.c // s0 > 64 or (s0 != 1 and v != ZERO):
        return m_unknown_range(c)
    d = L(c.args[0])
    dst = seq_locs(c, d, n.c // s0)
    if dst is None:
        return []
    for x in dst:
        c.st.kill_tree(x.root, x.path, ('zero',) if v == ZERO else None)
        if v != ZERO:
            c.st.write(x.root, x.path, v)
    return [(d, c.st)]


@model('__builtin_memcmp', 'memcmp', 'std::memcmp', '__builtin_wmemcmp', 'wmemcmp')
def m_memcmp(c):
    if c.node.get('mc'):
        return memcmp_cells(c)
    n = mem_units(c, c.st.norm(val(c, 2)), 'wmem' in c.f['n'])
    if n is None or not n.isconst() or n.c > 64:
        return [(fresh('memcmp', imp=True), c.st)]
    outs = []
    cur = [c.st]
    pa, pb = L(c.args[0]), L(c.args[1])
    for i in range(n.c):
        nxt = []
        for s in cur:
            a, b = ptr_loc(s.norm(pa) + i), ptr_loc(s.norm(pb) + i)
            if a is None or b is None:
                continue
            x, y = rd_char(c, a, s), rd_char(c, b, s)
            t, f = c.eng.split(mk_eq0(x - y), s, c.fr)
            nxt += t
            for s2 in f:
                t2, f2 = c.eng.split(mk_ge0(s2.norm(x) - s2.norm(y)), s2, c.fr)
                outs += [(ONE, s3) for s3 in t2] + [(K(-1), s3) for s3 in f2]
        cur = nxt
    return outs + [(ZERO, s) for s in cur]


@model('_mm256_set_pd', '_mm256_set_ps')
def m_mm_set(c):
    loc = Loc(('t', c.fr.id, 'mm%d' % id(c.node)), ())
    n = len(c.args)
    c.st.kill_tree(loc.root, loc.path, newver('mm'))
    for i in range(n):
        c.st.write(loc.root, (('[', K(n - 1 - i)),), val(c, i))
    return [(loc, c.st)]


@model('_mm256_mul_pd', '_mm256_mul_ps', '_mm256_add_pd', '_mm256_add_ps')
def m_mm_op(c):
    a, b = c.args[0], c.args[1]
    if not isinstance(a, Loc) or not isinstance(b, Loc):
        return [(fresh('mm', imp=True), c.st)]
    loc = Loc(('t', c.fr.id, 'mm%d' % id(c.node)), ())
    t, n = ('double', 4) if c.f['n'].endswith('pd') else ('float', 8)
    xs = [c.eng.binop('*' if '_mul_' in c.f['n'] else '+', *(c.eng.read(Loc(l.root, l.path + (('[', K(i)),)), t, c.st) for l in (a, b)), t, c.st) for i in range(n)]
    c.st.kill_tree(loc.root, loc.path, newver('mm'))
    for i, x in enumerate(xs):
        c.st.write(loc.root, (('[', K(i)),), x)
    return [(loc, c.st)]


def memcmp_cells(c):
    """objects compared as a whole: equal where all their scalars are"""
    n = c.st.norm(val(c, 2))
    a, b = ptr_loc(c.st.norm(L(c.args[0]))), ptr_loc(c.st.norm(L(c.args[1])))
    if a is None or b is None or not n.isconst() or not 0 <= n.c <= c.node['mcs'] or n.c not in c.node['mco'] + [c.node['mcs']]:
        return [(fresh('memcmp', imp=True), c.st)]
    outs, cur = [], [c.st]
    for p, off in zip(c.node['mc'], c.node['mco']):
        if off >= n.c:
            break
        p = tuple(('[', K(int(x[1:]))) if x[0] == '[' else x for x in p)
        nxt = []
        for s in cur:
            x, y = (s.norm(c.eng.read(Loc(l.root, l.path + p), 'int', s)) for l in (a, b))
            t, f = c.eng.split(mk_eq0(x - y), s, c.fr)
            nxt += t
            for s2 in f:
                v = fresh('memcmp', imp=True)
                if s2.assume(mk_eq0(v), False):
                    outs.append((v, s2))
        cur = nxt
    return outs + [(ZERO, s) for s in cur]


def rd_char(c, loc, s):
    if loc.root[0] == 'str':
        return str_char(loc, s)
    return c.eng.read(loc, 'unsigned char', s)


def str_char(loc, s):
    if loc.path and isinstance(loc.path[-1], tuple) and loc.path[-1][0] == '[':
        i = s.norm(loc.path[-1][1])
        if i.isconst() and 0 <= i.c <= len(loc.root[1]):
            return K(ord(loc.root[1][i.c]) if i.c < len(loc.root[1]) else 0)
    return fresh('strchar', imp=True)


@model('__builtin_strlen', 'strlen', 'std::strlen', '__builtin_wcslen', 'wcslen')
def m_strlen(c):
    ln = str_len(c.st.norm(L(c.args[0])))
    if ln is not None:
        return [(ln, c.st)]
    outs = []
    cur = [c.st]
    p = L(c.args[0])
    for i in range(24):
        nxt = []
        for s in cur:
            a = ptr_loc(s.norm(p) + i)
            if a is None:
                continue
            t, f = c.eng.split(mk_eq0(rd_char(c, a, s)), s, c.fr)
            outs += [(K(i), s2) for s2 in t]
            nxt += f
        cur = nxt
        if len(cur) > 1 or len(outs) > 8:
            break
    for s in cur:
        outs.append((fresh('strlen', uns=True, imp=True), s))
    return outs


@model('__builtin_memchr', 'memchr', 'std::memchr', '__builtin_char_memchr')
def m_memchr(c):
    n = c.st.norm(val(c, 2))
    if not n.isconst() or n.c > 64:
        return [(fresh('memchr', ptr=True, imp=True), c.st)]
    p, v = L(c.args[0]), val(c, 1)
    outs = []
    cur = [c.st]
    for i in range(n.c):
        nxt = []
        for s in cur:
            a = ptr_loc(s.norm(p) + i)
            if a is None:
                continue
            t, f = c.eng.split(mk_eq0(rd_char(c, a, s) - s.norm(v)), s, c.fr)
            outs += [(s2.norm(p) + i, s2) for s2 in t]
            nxt += f
        cur = nxt
    return outs + [(ZERO, s) for s in cur]


@model('operator new', 'operator new[]')
def op_new(c):
    loc = Loc(('new', c.fr.id, c.node['i'], newver()[1]), ())
    c.st.hav[(loc.root, ())] = newver('u')
    c.st.event('alloc', addr(loc.root, (('[', ZERO),)), c.eng.where(c.node, c.fr), val(c, 0))
    return [(addr(loc.root, (('[', ZERO),)), c.st)]


@model('operator delete', 'operator delete[]', 'free')
def op_delete(c):
    c.st.event('free', val(c, 0), c.eng.where(c.node, c.fr))
    return [(ZERO, c.st)]


ALLOC = ['std::allocator', 'std::__new_allocator', 'std::allocator_traits']


@cmodel(ALLOC, 'allocate')
def al_allocate(c):
    if c.obj is None:
        n = val(c, 1)
        al = c.args[0]
    else:
        n = val(c, 0)
        al = c.obj
    loc = Loc(('new', c.fr.id, c.node['i'], newver()[1]), ())
    c.st.hav[(loc.root, ())] = newver('u')
    c.st.event('alloc', addr(loc.root, (('[', ZERO),)), c.eng.where(c.node, c.fr), n)
    p = addr(loc.root, (('[', ZERO),))
    for h in c.eng.hooks:
        h('alloc', c.eng, loc, n, c.st, c.fr, c.node)
    return [(p, c.st)]


@cmodel(ALLOC, 'deallocate')
def al_deallocate(c):
    p = val(c, 0 if c.obj is not None else 1)
    c.st.event('free', p, c.eng.where(c.node, c.fr))
    for h in c.eng.hooks:
        h('free', c.eng, p, None, c.st, c.fr, c.node)
    return [(ZERO, c.st)]


@cmodel(ALLOC, 'ctor()')
def al_ctor(c):
    c.st.kill_tree(c.obj.root, c.obj.path, newver('u'))
    return [(c.obj, c.st)]


@cmodel(ALLOC, 'construct')
def al_construct(c):
    p = val(c, 0 if c.obj is not None else 1)
    d = ptr_loc(p)
    if d is None:
        return []
    c.st.kill_tree(d.root, d.path, newver('u'))
    i = 1 if c.obj is not None else 2
    if i < len(c.args):
        put(c, d, i)
    for h in c.eng.hooks:
        h('construct', c.eng, d, None, c.st, c.fr, c.node)
    return [(ZERO, c.st)]


@cmodel(ALLOC, 'destroy')
def al_destroy(c):
    p = val(c, 0 if c.obj is not None else 1)
    d = ptr_loc(p)
    if d is None:
        return []
    i = 0 if c.obj is not None else 1
    t = base_type(c.node['a'][i].get('t', ''))
    t = base_type(t[:-1]) if t.endswith('*') else t
    for h in c.eng.hooks:
        h('destroy', c.eng, d, None, c.st, c.fr, c.node)
    return [(ZERO, s) for s in c.eng.destroy(d, t, c.st, c.fr)]


@cmodel(ALLOC, 'max_size')
def al_max(c):
    return [(K(1 << 60), c.st)]


@cmodel(ALLOC, 'select_on_container_copy_construction')
def al_sel(c):
    return [(c.dest, c.st)]


# ---------------------------------------------------------------- sequences with contiguous or indexable storage
SEQ = ['std::vector', 'std::basic_string', 'std::deque']


def size_of(c, loc):
    v = c.st.read(loc.root, loc.path + ('#size',), 'unsigned long')
    return v


def data0(loc):
    return addr(loc.root, loc.path + ('#data', ('[', ZERO)))


def seq_elem(loc, i):
    return Loc(loc.root, loc.path + ('#data', ('[', i)))


def setsize(c, loc, n):
    c.st.write(loc.root, loc.path + ('#size',), n)


def ret_iter(c, p):
    if c.dest is not None:
        c.st.kill_tree(c.dest.root, c.dest.path, newver('u'))
        wr(c, sub(c.dest, '#p'), p)
        return [(c.dest, c.st)]
    return [(p, c.st)]


def hav_data(c, loc):
    c.st.kill_tree(loc.root, loc.path + ('#data',), newver('sd'))


def str_len(v):
    if isinstance(v, Lin) and len(v.t) == 1 and kind(v.t[0][0]) == '&':
        r = args(v.t[0][0])[0]
        if r[0] == 'str':
            return K(len(r[1]))
    return None


@cmodel(SEQ, 'ctor()')
def seq_ctor(c):
    o = c.obj
    st = c.st
    a = c.node['a']
    ts = [base_type(x.get('t', '')) if x else '' for x in a]
    n = len(c.args)
    while n and ts[n - 1].startswith('std::allocator'):
        n -= 1
    if n == 0:
        st.kill_tree(o.root, o.path, newver('u'))
        setsize(c, o, ZERO)
        return [(o, st)]
    a0 = c.args[0]
    if n == 1 and isinstance(a0, Loc) and strip_t(ts[0]) in SEQ and strip_t(ts[0]) == c.f.get('cq', ''):
        st.copy_tree(a0, o)
        st.write(o.root, o.path + ('#size',), size_of(c, a0))
        if a[0].get('lv') == 2 or c.f.get('movector'):
            st.kill_tree(a0.root, a0.path, newver('mv'))
            setsize(c, a0, ZERO)
        return [(o, st)]
    st.kill_tree(o.root, o.path, newver('u'))
    if n == 1 and isinstance(a0, Loc) and 'initializer_list' in ts[0]:
        setsize(c, o, st.read(a0.root, a0.path + ('#size',), 'unsigned long'))
        return [(o, st)]
    if n == 1 and isinstance(a0, Lin) and ts[0].endswith('*'):
        ln = str_len(a0)
        setsize(c, o, ln if ln is not None else app('strlen', a0, uns=True))
        return [(o, st)]
    if n == 1 and isinstance(a0, Lin):
        setsize(c, o, a0)
        st.hav[(o.root, o.path + ('#data',))] = ('zero',)
        return [(o, st)]
    if n == 2 and (isinstance(a0, Lin) and not ts[0].endswith('*')):
        setsize(c, o, a0)
        return [(o, st)]
    if n == 2 and isinstance(a0, Lin) and ts[0].endswith('*') and isinstance(c.args[1], Lin) and not ts[1].endswith('*'):
        setsize(c, o, c.args[1])
        return [(o, st)]
    if n == 2 and pointer_iterator(ts[0]) and pointer_iterator(ts[1]):
        setsize(c, o, it_val(c, c.args[1]) - it_val(c, a0))
        return [(o, st)]
    v = fresh('seqsize', uns=True, imp=True)
    setsize(c, o, v)
    return [(o, st)]


def strip_t(t):
    out = []
    d = 0
    for ch in t:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out)


@cmodel(SEQ, '*')
def seq_m(c):
    n = c.f['n']
    o = c.obj
    st = c.st
    a = c.node['a']
    if o is None:
        return m_unknown_range(c)
    ts = [base_type(x.get('t', '')) if x else '' for x in a]
    sz = size_of(c, o)
    if n in ('size', 'length'):
        return [(sz, st)]
    if n == 'empty':
        return [(mk_eq0(sz), st)]
    if n in ('capacity', 'max_size'):
        return [(app('capacity', addr(o.root, o.path), uns=True), st)]
    if n in ('reserve', 'shrink_to_fit'):
        return [(ZERO, st)]
    if n == 'clear':
        setsize(c, o, ZERO)
        hav_data(c, o)
        return [(ZERO, st)]
    if n in ('begin', 'cbegin'):
        return ret_iter(c, data0(o))
    if n in ('end', 'cend'):
        return ret_iter(c, data0(o) + sz)
    if n in ('data', 'c_str'):
        return [(data0(o), st)]
    if n in ('operator[]', 'at', 'front', 'back'):
        i = ZERO if n == 'front' else sz - 1 if n == 'back' else val(c, 0)
        if n == 'at':
            b = mk_ge0(sz - i - 1)
            t, f = c.eng.split(b, st, c.fr, c.node, ' (at() in range)')
            outs = []
            for s in t:
                outs.append((seq_elem(o, s.norm(i)), s))
            for s in f:
                s.exc = ('std::out_of_range', ('o', 'exc'), ())
                outs.append((None, s))
            return outs
        for h in c.eng.hooks:
            h('seqindex', c.eng, o, (i, sz, n), st, c.fr, c.node)
        return [(seq_elem(o, i), st)]
    if n in ('push_back', 'emplace_back'):
        e = seq_elem(o, sz)
        st.kill_tree(e.root, e.path, newver('u'))
        if len(c.args) == 1:
            put(c, e, 0)
        for h in c.eng.hooks:
            h('seqpush', c.eng, e, None, st, c.fr, c.node)
        setsize(c, o, sz + 1)
        return [(e, st)]
    if n in ('push_front', 'emplace_front'):
        setsize(c, o, sz + 1)
        hav_data(c, o)
        return [(seq_elem(o, ZERO), st)]
    if n == 'pop_back':
        for h in c.eng.hooks:
            h('seqpop', c.eng, o, (sz, n), st, c.fr, c.node)
        setsize(c, o, sz - 1)
        return [(ZERO, st)]
    if n == 'pop_front':
        for h in c.eng.hooks:
            h('seqpop', c.eng, o, (sz, n), st, c.fr, c.node)
        setsize(c, o, sz - 1)
        hav_data(c, o)
        return [(ZERO, st)]
    if n == 'resize':
        v = val(c, 0)
        setsize(c, o, v)
        return [(ZERO, st)]
    if n == 'swap':
        tree_swap(st, o, c.args[0])
        for x in (o, c.args[0]):
            pass
        return [(ZERO, st)]
    if n == 'operator=' and len(c.args) == 1 and isinstance(c.args[0], Loc) and strip_t(ts[0]) == c.f.get('cq'):
        x = c.args[0]
        if x != o:
            xs = size_of(c, x)
            st.copy_tree(x, o)
            setsize(c, o, xs)
            if a[0].get('lv') == 2 or (not a[0].get('lv')):
                st.kill_tree(x.root, x.path, newver('mv'))
                setsize(c, x, ZERO)
        return [(o, st)]
    if n in ('insert', 'emplace'):
        hav_data_keep(c, o)
        if len(c.args) == 2 and (n == 'emplace' or not pointer_iterator(ts[1])):
            p = it_val(c, c.args[0])
            setsize(c, o, sz + 1)
            return ret_iter(c, p) if c.dest is not None else [(p, st)]
        if len(c.args) == 3 and pointer_iterator(ts[1]) and pointer_iterator(ts[2]) and pointer_iterator(ts[0]):
            p = it_val(c, c.args[0])
            setsize(c, o, sz + it_val(c, c.args[2]) - it_val(c, c.args[1]))
            return ret_iter(c, p) if c.dest is not None else [(p, st)]
        setsize(c, o, fresh('seqsize', uns=True, imp=True))
        if c.dest is not None:
            return ret_iter(c, fresh('it', ptr=True, imp=True))
        return [(o if c.node.get('lv') else ZERO, st)]
    if n == 'erase':
        hav_data_keep(c, o)
        if len(c.args) == 1 and pointer_iterator(ts[0]):
            p = it_val(c, c.args[0])
            setsize(c, o, sz - 1)
            return ret_iter(c, p)
        if len(c.args) == 2 and pointer_iterator(ts[0]):
            p = it_val(c, c.args[0])
            q = it_val(c, c.args[1])
            setsize(c, o, sz - (q - p))
            return ret_iter(c, p)
        setsize(c, o, fresh('seqsize', uns=True, imp=True))
        if c.node.get('lv'):
            return [(o, st)]
        return [(ZERO, st)]
    if n in ('operator+=', 'append') and len(c.args) == 1:
        if ts[0] in ('char', 'char16_t', 'char32_t', 'wchar_t', 'char8_t'):
            e = seq_elem(o, sz)
            put(c, e, 0)
            setsize(c, o, sz + 1)
            return [(o, st)]
        if isinstance(c.args[0], Loc) and strip_t(ts[0]) == 'std::basic_string':
            setsize(c, o, sz + size_of(c, c.args[0]))
            return [(o, st)]
        if isinstance(c.args[0], Lin):
            ln = str_len(c.args[0])
            setsize(c, o, sz + (ln if ln is not None else app('strlen', c.args[0], uns=True)))
            return [(o, st)]
    if n == 'assign' or n == 'append' or n == 'operator=' or n == 'replace':
        hav_data(c, o)
        if n == 'operator=' and len(c.args) == 1 and isinstance(c.args[0], Lin):
            ln = str_len(c.args[0])
            setsize(c, o, ln if ln is not None else app('strlen', c.args[0], uns=True))
            return [(o, st)]
        if n == 'assign' and len(c.args) == 2 and pointer_iterator(ts[0]) and pointer_iterator(ts[1]):
            setsize(c, o, it_val(c, c.args[1]) - it_val(c, c.args[0]))
            return [(o, st)]
        setsize(c, o, fresh('seqsize', uns=True, imp=True))
        return [(o, st)]
    if n in ('get_allocator', 'rbegin', 'rend', 'crbegin', 'crend', 'substr') and c.dest is not None:
        st.kill_tree(c.dest.root, c.dest.path, newver('op'))
        if n == 'substr':
            setsize(c, c.dest, fresh('substr', uns=True, imp=True))
        return [(c.dest, st)]
    if n.startswith('find') or n in ('compare', 'starts_with', 'ends_with', 'rfind'):
        return [(fresh(n, **tflags(c.node.get('t', ''))), st)]
    return m_unknown_range(c)


def hav_data_keep(c, o):
    hav_data(c, o)


def seq_dtor(eng, loc, cls, st, fr):
    for h in eng.hooks:
        h('seqdtor', eng, loc, cls, st, fr, None)
    return [st]


for _l in SEQ:
    CM[_l]['dtor'] = seq_dtor


def seq_default(eng, loc, st):
    st.kill_tree(loc.root, loc.path, newver('u'))
    st.write(loc.root, loc.path + ('#size',), ZERO)
    return [st]


for _l in SEQ:
    CM[_l]['ctor'] = seq_default


# ---------------------------------------------------------------- pointer-like iterators
IT = ['__gnu_cxx::__normal_iterator', 'std::_Deque_iterator']


@cmodel(IT, 'ctor()')
def it_ctor(c):
    c.st.kill_tree(c.obj.root, c.obj.path, newver('u'))
    if c.args:
        wr(c, sub(c.obj, '#p'), it_val(c, c.args[0]))
    return [(c.obj, c.st)]


@cmodel(IT, '*')
def it_m(c):
    n = c.f['n']
    o = c.obj
    if o is None:
        return m_unknown_range(c)
    cell = sub(o, '#p')
    p = rd(c, cell, 'x *')
    if n == 'operator*':
        d = ptr_loc(p)
        return [(d, c.st)] if d else []
    if n == 'operator->' or n == 'base':
        return [(p if n == 'operator->' else cell, c.st)]
    if n in ('operator++', 'operator--'):
        q = p + (1 if n == 'operator++' else -1)
        if c.args:
            c.st.kill_tree(c.dest.root, c.dest.path, newver('u'))
            wr(c, sub(c.dest, '#p'), p)
            c.eng.assign(cell, q, c.st, c.fr, c.node)
            return [(c.dest, c.st)]
        c.eng.assign(cell, q, c.st, c.fr, c.node)
        return [(o, c.st)]
    if n in ('operator+', 'operator-') and len(c.args) == 1:
        if isinstance(c.args[0], Loc) and not c.eng.isclass(c.node['a'][0].get('t', '')):
            k = val(c, 0)
        elif isinstance(c.args[0], Loc):
            return [(p - it_val(c, c.args[0]), c.st)]
        else:
            k = c.args[0]
        return ret_iter(c, p + k if n == 'operator+' else p - k)
    if n in ('operator+=', 'operator-='):
        k = val(c, 0)
        c.eng.assign(cell, p + k if n == 'operator+=' else p - k, c.st, c.fr, c.node)
        return [(o, c.st)]
    if n == 'operator[]':
        d = ptr_loc(p + val(c, 0))
        return [(d, c.st)] if d else []
    if n == 'operator=':
        c.eng.assign(cell, it_val(c, c.args[0]), c.st, c.fr, c.node)
        return [(o, c.st)]
    return m_unknown_range(c)


ITCLS = ('__normal_iterator', '_Deque_iterator', '_List_iterator', '_List_const_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', '_Node_iterator', '_Node_const_iterator', '_Node_iterator_base')


def is_it(c, i):
    t = c.node['a'][i].get('t', '')
    return any(x in strip_t(t) for x in ITCLS)


@model('__gnu_cxx::operator==', '__gnu_cxx::operator!=', '__gnu_cxx::operator<', '__gnu_cxx::operator<=', '__gnu_cxx::operator>', '__gnu_cxx::operator>=', '__gnu_cxx::operator-', '__gnu_cxx::operator+',
       'std::operator==', 'std::operator!=', 'std::operator<', 'std::operator<=', 'std::operator>', 'std::operator>=', 'std::operator-', 'std::operator+')
def it_cmp(c):
    op = c.f['n'][8:]
    if len(c.args) == 2 and is_it(c, 0) and is_it(c, 1):
        a, b = it_val(c, c.args[0]), it_val(c, c.args[1])
        if op == '-':
            return [(a - b, c.st)]
        return [(c.eng.cmp(op, a, b, ''), c.st)]
    if op == '+' and len(c.args) == 2 and is_it(c, 1):
        return ret_iter(c, it_val(c, c.args[1]) + val(c, 0))
    rec = c.eng.p.fns.get(c.f['id'])
    if rec and rec.get('body'):
        return c.eng.enter(rec, c.obj, c.args, c.st, c.fr, c.node, c.dest)
    if op in ('==', '!=', '<', '<=', '>', '>='):
        return [(fresh('cmp' + op, boolean=True, imp=True), c.st)]
    if op == '+' and c.dest is not None and strip_t(base_type(c.node.get('t', ''))) == 'std::basic_string':
        c.st.kill_tree(c.dest.root, c.dest.path, newver('op'))
        setsize(c, c.dest, fresh('catsize', uns=True, imp=True))
        return [(c.dest, c.st)]
    return m_unknown_range(c)


# ---------------------------------------------------------------- algorithms on pointer ranges: hooks decide
RANGE = {'std::uninitialized_copy': 'construct', 'std::uninitialized_move': 'construct', 'std::copy': 'assign', 'std::copy_backward': 'assign', 'std::move_backward': 'assign',
         'std::uninitialized_fill_n': 'construct', 'std::uninitialized_copy_n': 'construct'}


@model('__gthread_active_p')
def m_gthread_active(c):
    return [(ONE, c.st)]


@model('pthread_self')
def m_pthread_self(c):
    """one thread of control: it has some identity"""
    return [(K(1), c.st)]
