"""Abstract interpreter over the resolved syntax trees written by nsx.

Path-sensitive abstract interpretation with trace partitioning: every statement maps a set of
abstract states to completions.  Calls to functions whose body is in the analysed sources are
entered with the abstract arguments (context sensitive), std:: functions are modelled by name,
everything else havocs what it can reach.  Loops are solved by a fixpoint: cells that change are
generalised, then affine relations and bounds are kept that are inductive.
"""
import json
import math
import os
import re
import sys
import time
from state import *

sys.setrecursionlimit(20000)


def fdiv(x, m, st):
    """the floor of x / m (m > 0), as a linear term over a quotient atom whose facts are added to st"""
    x = st.norm(x)
    hi = Lin(x.c // m, tuple((a, (k + m // 2) // m) for a, k in x.t if (k + m // 2) // m))
    lo = x - hi.scale(m)
    if st.entails(lo) and st.entails(K(m - 1) - lo):
        return hi
    if st.entails(lo + m) and st.entails(-lo - 1):
        return hi - 1
    if lo.t and lo.t[0][1] < 0:
        return hi - 1 - fdiv(-lo - 1, m, st)
    if len(lo.t) == 1 and lo.t[0][1] == 1 and 0 <= lo.c:
        a = lo.t[0][0]
        if kind(a) == 'app' and args(a)[0] == 'fdiv' and lo.c == 0:
            return hi + fdiv(args(a)[1], args(a)[2].c * m, st)
    q = app('fdiv', lo, K(m), uns=st.entails(lo), imp=imprecise(lo))
    st.assume_ge(lo - q.scale(m))
    st.assume_ge(q.scale(m) + (m - 1) - lo)
    return hi + q


def maskrange(c, bits):
    """(low, high) when the set bits of c (two's complement) are exactly low .. high-1; high None: all above"""
    if c < 0:
        n = -c
        return (n.bit_length() - 1, None) if n & (n - 1) == 0 else None
    if c == 0:
        return None
    low = (c & -c).bit_length() - 1
    n = (c >> low) + 1
    if n & (n - 1):
        return None
    high = low + n.bit_length() - 1
    return (low, None if high >= bits else high)


def bitop(op, a, b, t, st):
    bits = UNSIGNED.get(t) or SIGNED.get(t)
    if not bits or any(flag(x, 'ptr') for x, _ in a.t + b.t):
        return None
    if a.isconst():
        a, b = b, a
    if b.isconst():
        mr = maskrange(b.c, bits)
        if mr is None:
            return None
        low, high = mr
        x = st.norm(a)
        r = fdiv(x, 1 << low, st) if low else x
        if high is not None:
            r = r - fdiv(x, 1 << high, st).scale(1 << (high - low))
        r = r.scale(1 << low)
        return r if op == '&' else x + b - r if op == '|' else x + b - r.scale(2)
    if op == '&':
        return None
    for x, y in ((a, b), (b, a)):
        x, y = st.norm(x), st.norm(y)
        g = 0
        for k in (x.c,) + tuple(k for _, k in x.t):
            g = math.gcd(g, k)
        m = g & -g if g else 1 << 63
        if m > 1 and st.entails(y) and st.entails(K(m - 1) - y):
            return x + y
    return None


# lines interpreted, for the development aid tools/cov.py
COV = set() if os.environ.get('NSA_COV') else None


class Unsupported(Exception):
    pass


class Blowup(Exception):
    pass


class Program:
    def __init__(self):
        self.fns = {}
        self.cls = {}
        self.enums = {}
        self.vars = {}
        self.overriders = {}
        self.errors = 0
        self.byq = {}

    def load(self, path):
        end = False
        for line in open(path):
            r = json.loads(line)
            k = r['rec']
            if k == 'fn':
                if r['id'] not in self.fns:
                    self.fns[r['id']] = r
                    self.byq.setdefault(r['q'], []).append(r)
                    for o in r.get('ovr', ()):
                        self.overriders.setdefault(o, set()).add(r['id'])
            elif k == 'cls':
                if r['n'] not in self.cls:
                    self.cls[r['n']] = r
                    for m in r['methods']:
                        for o in m.get('ovr', ()):
                            self.overriders.setdefault(o, set()).add(m['id'])
            elif k == 'enum':
                self.enums.setdefault(r['q'], r)
            elif k == 'var':
                self.vars.setdefault((r['q'], r.get('ta')), r)
            elif k == 'end':
                end = True
                self.errors += r['errors']
        if not end:
            raise RuntimeError('incomplete extraction ' + path)

    def dtor_of(self, cname):
        c = self.cls.get(cname)
        if not c:
            return None
        for m in c['methods']:
            if m.get('dtor'):
                return m
        return None

    def dtor_user(self, cname):
        """does the class have a destructor somebody wrote"""
        m = self.dtor_of(cname)
        return bool(m and not m.get('implicit') and not m.get('dflt'))

    def bases_of(self, cname, seen=None):
        """all transitive base class names, including cname"""
        seen = seen if seen is not None else []
        if cname in seen:
            return seen
        seen.append(cname)
        c = self.cls.get(cname)
        if c:
            for b in c['bases']:
                self.bases_of(b, seen)
        return seen

    def resolve_virtual(self, mid, cname):
        """final overrider of method mid in class cname"""
        order = self.bases_of(cname)
        for cn in order:
            c = self.cls.get(cn)
            if not c:
                continue
            for m in c['methods']:
                if m['id'] == mid or mid in m.get('ovr', ()):
                    if not m.get('pure'):
                        return m['id']
        return None


class Frame:
    __slots__ = ('id', 'fn', 'this', 'parent', 'lam', 'dest', 'depth', 'site')

    def __init__(self, id, fn, this, parent, site=None):
        self.id = id
        self.fn = fn
        self.this = this
        self.parent = parent
        self.lam = None
        self.dest = None
        self.depth = parent.depth + 1 if parent else 0
        self.site = site


_fid = {}


def frame_id(parent, node):
    key = (parent, node)
    i = _fid.get(key)
    if i is None:
        i = len(_fid) + 1
        _fid[key] = i
    return i


def strip_tmpl(name):
    out = []
    d = 0
    for ch in name:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out)


def wrap_const(v, t):
    t = base_type(t)
    if t in UNSIGNED:
        return v % (1 << UNSIGNED[t])
    if t in SIGNED:
        n = SIGNED[t]
        v %= (1 << n)
        return v - (1 << n) if v >= (1 << (n - 1)) else v
    if t == 'bool':
        return 1 if v else 0
    return v


class Call:
    __slots__ = ('node', 'f', 'obj', 'args', 'st', 'fr', 'dest', 'eng')


class Engine:
    def __init__(self, prog, max_states=4000, max_depth=60):
        self.p = prog
        self.models = {}
        self.class_models = {}
        self.hooks = []
        self._bytes = None
        self.max_states = max_states
        self.max_depth = 140 if getattr(prog, 'real', False) else max_depth
        self.reqs = []              # results of nsa::require
        self.opaque = {}            # functions treated as opaque
        self.uov = {}
        self.entered = set()
        self.kt = {}
        self.steps = 0
        self.max_steps = 4000000
        self.arridx = []
        self.loop_rounds = 0
        self.deadline = float('inf')
        self.bound = None           # refutation mode: exact unrolling up to this many undecided iterations
        self.anydead = False
        self.cut = 0                # paths not followed beyond that bound
        import models
        models.install(self)

    # ------------------------------------------------------------ helpers
    def where(self, node, fr):
        f = fr.fn.get('file', '?')
        return '%s:%s' % (f.replace('/repo/', ''), node.get('l', '?') if node else '?')

    def fault(self, st, msg, e, fr):
        self.reqs.append((False, ZERO, msg, self.where(e, fr), st.copy()))

    def nullderef(self, st, e, fr):
        self.fault(st, 'null pointer dereferenced', e, fr)

    def check_dead(self, loc, st, e, fr, what='access to'):
        if not self.anydead:
            return
        r = loc.root
        for i in range(len(loc.path), -1, -1):
            if (r, loc.path[:i] + ('#dead',)) in st.store:
                self.fault(st, what + ' a destroyed object', e, fr)
                return

    def mark_dead(self, loc, st):
        self.anydead = True
        st.store[(loc.root, loc.path + ('#dead',))] = ONE

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Blowup('step limit')
        if not self.steps & 1023 and time.time() > self.deadline:
            raise Blowup('time limit')

    def limit(self, outs):
        if len(outs) > 6:
            seen = {}
            res = []
            for o in outs:
                v, st = o[-2], o[-1]
                key = (o[:-1], frozenset(st.store.items()), frozenset(st.ge), frozenset(st.ne), frozenset(st.eqs.items()), frozenset(st.hav.items()), st.exc, st.scope, st.temps, st.imp)
                try:
                    if key in seen:
                        continue
                    seen[key] = 1
                except TypeError:
                    pass
                res.append(o)
            outs = res
        if len(outs) > self.max_states:
            raise Blowup('too many abstract states (%d)' % len(outs))
        return outs

    def split(self, b, st, fr, node=None, text=''):
        """-> (list of states where b holds, list where it does not)"""
        d = st.decide(b)
        if d is True:
            return [st], []
        if d is False:
            return [], [st]
        if imprecise(b):
            st.imp = True
            st.trace('%s: (condition on an unknown value %s)' % (self.where(node, fr), show(b)[:200]))
        s2 = st.copy()
        t, f = [], []
        if st.assume(b, True):
            if node is not None:
                st.trace('%s: condition true%s' % (self.where(node, fr), text))
            t = [st]
        if s2.assume(s2.norm(b), False):
            if node is not None:
                s2.trace('%s: condition false%s' % (self.where(node, fr), text))
            f = [s2]
        return t, f

    def fresh(self, tag, t='', imp=True):
        return fresh(tag, imp=imp, **tflags(t))

    # ------------------------------------------------------------ glvalues / reading
    def read(self, loc, t, st):
        if loc.root[0] == 'str' and loc.path and isinstance(loc.path[-1], tuple) and loc.path[-1][0] == '[':
            i = st.norm(loc.path[-1][1])
            if i.isconst() and 0 <= i.c <= len(loc.root[1]):
                return K(ord(loc.root[1][i.c]) if i.c < len(loc.root[1]) else 0)
        v = st.read(loc.root, loc.path, t)
        if v.single() is not None and kind(v.single()) == 'init' and args(v.single())[0][0] == 'g':
            a = args(v.single())
            c = self.global_const(Loc(a[0], a[1]), t)
            if c is not None:
                return c
        return v

    def global_const(self, loc, t):
        for (q, ta), r in self.p.vars.items():
            if q == loc.root[1] and (len(loc.root) < 3 or loc.root[2] == ta):
                val = r.get('val')
                if 'val' not in r:
                    return None
                if not (r['t'].startswith('const') or ' const' in r['t']):
                    return None
                vt = base_type(r['t'])
                for p in loc.path:
                    if isinstance(p, tuple) and p[0] == '[' and p[1].isconst() and isinstance(val, list):
                        vt = base_type(re.sub(r'\[\d*\]', '', vt, count=1))
                        if 0 <= p[1].c < len(val):
                            val = val[p[1].c]
                        else:
                            return None
                    elif isinstance(p, str) and vt in self.p.cls:
                        c = self.p.cls[vt]
                        fs = [f['fq'] for f in c['fields']]
                        if p not in fs:
                            return None
                        fd = c['fields'][fs.index(p)]
                        if len(fs) + len(c['bases']) > 1:
                            if not isinstance(val, list) or len(val) != len(fs) + len(c['bases']):
                                return None
                            val = val[len(c['bases']) + fs.index(p)]
                        vt = base_type(fd['t'])
                    else:
                        return None
                if isinstance(val, bool):
                    return K(int(val))
                if isinstance(val, int):
                    return K(val)
                return None
        return None

    def as_lin(self, v):
        if isinstance(v, Loc):
            return addr(v.root, v.path)
        return v

    def deref(self, p, st, fr, node):
        p = st.norm(p)
        d = deref(p)
        if d is None:
            return None
        return Loc(*d)

    def isclass(self, t):
        t = base_type(t)
        return t in self.p.cls or self.std_class(t)

    def std_class(self, t):
        t = base_type(t)
        if t.endswith(('*', '&')):
            return False
        return t.startswith(('std::', 'boost::', '__gnu_cxx::')) and not self.scalar_std(t)

    def scalar_std(self, t):
        b = strip_tmpl(t)
        return b in ('std::byte', 'std::memory_order', 'std::align_val_t', 'std::nullptr_t', 'std::ios_base::openmode', 'std::errc', 'std::chars_format') or b in self.p.enums

    # ------------------------------------------------------------ expressions
    def ev_list(self, exprs, st, fr, slots=None):
        """evaluate in order -> [(values, state)]"""
        outs = [((), st)]
        for i, e in enumerate(exprs):
            nxt = []
            for vals, s in outs:
                if s.exc:
                    nxt.append((vals, s))
                    continue
                for v, s2 in self.ev_arg(e, s, fr, slots[i] if slots else None):
                    nxt.append((vals + (v,), s2))
            outs = nxt
        return outs

    def ev_arg(self, e, st, fr, slot):
        if e is None:
            return [(None, st)]
        if not e.get('lv') and self.is_class_prvalue(e):
            loc = slot or Loc(('t', fr.id, e['i']), ())
            return [(loc, s) for s in self.ev_into(e, st, fr, loc)]
        return self.ev(e, st, fr)

    def is_class_prvalue(self, e):
        if e.get('lv'):
            return False
        t = e.get('t', '')
        k = e['k']
        if k in ('Int', 'Null', 'Float', 'Str', 'New', 'Delete'):
            return False
        if k == 'Ctor' or k == 'Lambda':
            return True
        if k in ('Full', 'Bind', 'Wrap', 'StdInit') and e.get('e'):
            return k == 'StdInit' or self.is_class_prvalue(e['e'])
        if e.get('cls'):
            return True
        b = base_type(t)
        if b.endswith(('*', '&')) or '(*)' in b:
            return False
        if b in self.p.cls or self.std_class(b):
            return True
        if k == 'Cast':
            return e.get('ck') in ('ConstructorConversion', 'UserDefinedConversion', 'NoOp') and self.is_class_prvalue(e['e'])
        return b.startswith(('(lambda', 'lambda@'))

    def ev(self, e, st, fr):
        """-> [(value, state)]: Lin for scalar prvalues, Loc for glvalues and class prvalues"""
        self.tick()
        k = e['k']
        if COV is not None:
            COV.add((fr.fn.get('file', '?'), e.get('l')))
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            return self.ev_unknown(e, st, fr)
        if not e.get('lv') and k in ('Call', 'Ctor', 'Bind', 'InitList', 'Cond', 'Lambda', 'StdInit', 'InhCtor', 'Zero', 'Cast', 'Wrap', 'Bin') and self.is_class_prvalue(e):
            loc = Loc(('t', fr.id, e['i']), ())
            return [(loc, s) for s in self.ev_into(e, st, fr, loc)]
        return m(e, st, fr)

    def ev_unknown(self, e, st, fr):
        outs = []
        for vals, s in self.ev_list([a for a in e.get('a', []) if a] if isinstance(e.get('a'), list) else [], st, fr):
            outs.append((self.fresh('expr:' + e.get('sk', e['k']), e.get('t', '')) if not s.exc else None, s))
        return outs

    def ev_Int(self, e, st, fr):
        v = e['v']
        return [(K(int(v)), st)]

    def ev_Float(self, e, st, fr):
        try:
            if self.p.reals and float(e['v']).is_integer():
                return [(K(int(float(e['v']))), st)]
            return [(mk_float(float(e['v']), base_type(e.get('t', ''))), st)]
        except ValueError:
            return [(app('float', e['v']), st)]

    def ev_Str(self, e, st, fr):
        return [(Loc(('str', e.get('v', '?')), ()), st)]

    def ev_Null(self, e, st, fr):
        return [(ZERO, st)]

    def ev_This(self, e, st, fr):
        if fr.lam is not None:
            v = st.read(fr.lam.root, fr.lam.path + ('cap:this',), 'x *')
            return [(v, st)]
        if fr.this is None:
            return [(self.fresh('this', 'x *'), st)]
        return [(addr(fr.this.root, fr.this.path), st)]

    def var_loc(self, d, fr):
        return Loc(('v', fr.id, d['id'], d.get('n', '')), ())

    def ev_Ref(self, e, st, fr):
        d = e['d']
        dk = d['dk']
        if dk == 'enum':
            return [(K(d['v']), st)]
        if dk == 'func':
            return [(lin(atom('fn', d['f']['id'])), st)]
        if dk in ('global', 'static', 'slocal'):
            loc = Loc(('g', d['q']), ())
            if base_type(d['t']).endswith('&'):
                return [(self.deref(st.read(loc.root, loc.path, d['t']), st, fr, e) or Loc(('null',), ()), st)]
            b = base_type(d['t'])
            if b in self.p.cls:
                st.dyn.setdefault((loc.root, ()), b) # an object that is declared is of the class it is declared as
            return [(loc, st)]
        if dk == 'binding':
            if e.get('be'):
                return self.ev(e['be'], st, fr)
            loc = self.var_loc(d, fr)
            v = st.store.get((loc.root, loc.path))
            if v is not None:
                return [(self.deref(v, st, fr, e) or Loc(('null',), ()), st)]
            return [(loc, st)]
        if dk in ('local', 'param'):
            if e.get('cap') and fr.lam is not None:
                loc = Loc(fr.lam.root, fr.lam.path + ('cap:%d' % d['id'],))
                key = (loc.root, loc.path + ('#ref',))
                if key in st.store:
                    return [(self.deref(st.store[key], st, fr, e) or Loc(('null',), ()), st)]
                return [(loc, st)]
            loc = self.var_loc(d, fr)
            t = d['t']
            if t.rstrip().endswith('&'):
                v = st.read(loc.root, loc.path, t)
                x = self.deref(v, st, fr, e)
                if x is None:
                    x = Loc(('null',), ())
                return [(x, st)]
            return [(loc, st)]
        return [(Loc(('o', d.get('n', '?')), ()), st)]

    def ev_Member(self, e, st, fr):
        if e.get('sm'):
            loc = Loc(('g', e['d']['q']), ())
            return [(loc, st)]
        if e.get('meth'):
            return [(self.fresh('method'), st)]
        outs = []
        for v, s in self.ev(e['b'], st, fr):
            if s.exc:
                outs.append((None, s))
                continue
            base = self.deref(v, s, fr, e) if e.get('arrow') else v
            if base is None:
                self.nullderef(s, e, fr)
                continue        # dereferencing null: no defined continuation
            if not isinstance(base, Loc):
                outs.append((self.fresh('member', e.get('t', '')), s))
                continue
            loc = Loc(base.root, base.path if e.get('anon') else self.over(base.path, e))
            if e.get('fref'):
                x = self.deref(s.read(loc.root, loc.path, e['ft']), s, fr, e)
                if x is None:
                    continue
                loc = x
            outs.append((loc, s))
        return outs

    def over(self, path, e):
        """the path of a member; storage shared by the members of a union is named by the first of them"""
        if e.get('ov'):
            return path + tuple(('[', K(int(x[1:]))) if x[0] == '[' else x for x in e['ov'])
        if e.get('uf0'):
            self.uov[e['fq']] = (e['uf0'], e['uft'])
        elif path and self.uov and isinstance(path[-1], str):
            u = self.uov.get(path[-1])
            if u and u[1] == e.get('ft'):
                return path[:-1] + (u[0],)
        return path + (e['fq'],)

    def ev_Wrap(self, e, st, fr):
        return self.ev(e['e'], st, fr)

    def ev_Opaque(self, e, st, fr):
        if e.get('e'):
            return self.ev(e['e'], st, fr)
        return [(self.fresh('opaque', e.get('t', '')), st)]

    def ev_StdInit(self, e, st, fr):
        return self.ev(e['e'], st, fr)

    def ev_Full(self, e, st, fr):
        mark = len(st.temps)
        outs = []
        for v, s in self.ev(e['e'], st, fr):
            outs += [(v, s2) for s2 in self.end_full(s, mark, fr)]
        return outs

    def end_full(self, s, mark, fr):
        cur = [s]
        if len(s.temps) <= mark:
            return cur
        todo = s.temps[mark:]
        s.temps = s.temps[:mark]
        for (root, path, cls) in reversed(todo):
            nxt = []
            for c in cur:
                x = c.exc
                c.exc = None
                r = subst_any((root, path), c.eqs, {}) if c.eqs else (root, path)
                for c2 in self.destroy(Loc(*r), cls, c, fr):
                    if x:
                        c2.exc = x
                    nxt.append(c2)
            cur = nxt
        return cur

    def ev_Bind(self, e, st, fr):
        loc = Loc(('t', fr.id, e['i']), ())
        return [(loc, s) for s in self.ev_into(e, st, fr, loc)]

    def ev_Mat(self, e, st, fr):
        sub = e['e']
        inner = sub
        if self.is_class_prvalue(sub):
            loc = Loc(('t', fr.id, e['i']), ())
            outs = []
            cls = None
            x = sub
            while x and x['k'] in ('Wrap', 'Cast', 'Full'):
                x = x.get('e')
            if x and x['k'] == 'Bind':
                cls = x.get('cls')
            for s in self.ev_into(sub, st, fr, loc):
                if cls and not s.exc:
                    if e.get('ext'):
                        s.scope = s.scope + (('d', loc.root, loc.path, cls),)
                    else:
                        s.temps = s.temps + ((loc.root, loc.path, cls),)
                outs.append((loc, s))
            return outs
        outs = []
        for v, s in self.ev(sub, st, fr):
            if s.exc:
                outs.append((None, s))
                continue
            if isinstance(v, Loc):
                outs.append((v, s))
                continue
            loc = Loc(('t', fr.id, e['i']), ())
            s.kill_tree(loc.root, loc.path, newver('u'))
            s.write(loc.root, loc.path, v)
            outs.append((loc, s))
        return outs

    def binop(self, op, a, b, t, st, e=None):
        a = self.as_lin(a)
        b = self.as_lin(b)
        if isfloat(t) and not (self.p.reals and op in '+-*'):
            x, y = fconst(a), fconst(b)
            if x is not None and y is not None and op in '+-*/' and base_type(t) != 'long double' and not (op == '/' and y == 0):
                return mk_float(x + y if op == '+' else x - y if op == '-' else x * y if op == '*' else x / y, base_type(t))
            return app('f' + op, a, b)
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = mul(a, b)
        elif op in ('/', '%'):
            if a.isconst() and b.isconst() and b.c != 0:
                q = abs(a.c) // abs(b.c)
                q = q if (a.c < 0) == (b.c < 0) else -q
                r = K(q) if op == '/' else K(a.c - q * b.c)
            elif b == ONE:
                r = a if op == '/' else ZERO
            else:
                # exact division of scaled expressions
                if b.isconst() and b.c > 0 and a.c % b.c == 0 and all(k % b.c == 0 for _, k in a.t):
                    r = Lin(a.c // b.c, tuple((x, k // b.c) for x, k in a.t)) if op == '/' else ZERO
                elif st is not None and b.isconst() and b.c > 0 and st.entails(a):
                    q = fdiv(a, b.c, st)
                    r = q if op == '/' else a - q.scale(b.c)
                else:
                    r = app(op, a, b, **tflags(t))
                    if st is not None and op == '%' and tflags(t)['uns'] and b.isconst():
                        st.assume_ge(b - 1 - r)
                    elif st is not None and op == '/' and tflags(t)['uns']:
                        st.assume_ge(a - r)
                        if b.isconst() and b.c > 0:
                            st.assume_ge(a - r.scale(b.c))
                            st.assume_ge(r.scale(b.c) + (b.c - 1) - a)
        elif op == '<<':
            if b.isconst() and 0 <= b.c < 64:
                r = a.scale(1 << b.c)
            else:
                r = app('<<', a, b, **tflags(t))
        elif op == '>>':
            if a.isconst() and b.isconst():
                r = K(a.c >> b.c)
            elif b == ZERO:
                r = a
            elif st is not None and b.isconst() and 0 < b.c < 64:
                r = fdiv(a, 1 << b.c, st)
            else:
                r = app('>>', a, b, **tflags(t))
        elif op in ('&', '|', '^'):
            if a.isconst() and b.isconst():
                x, y = a.c, b.c
                r = K(x & y if op == '&' else x | y if op == '|' else x ^ y)
            elif op == '&' and (a == ZERO or b == ZERO):
                r = ZERO
            elif op in ('|', '^') and (a == ZERO or b == ZERO):
                r = a if b == ZERO else b
            elif op in ('&', '|') and a == b:
                r = a
            elif st is not None and t != 'bool' and bitop(op, a, b, t, st) is not None:
                r = bitop(op, a, b, t, st)
            else:
                x, y = sorted((a, b), key=lambda q: (q.c, q.t))
                r = app(op, x, y, **tflags(t))
                if st is not None and op == '&' and tflags(t)['uns']:
                    if x.isconst() and x.c >= 0:
                        st.assume_ge(x - r)
                    st.assume_ge(y - r) if not y.isconst() else None
        else:
            r = app(op, a, b, imp=True)
        if r.isconst():
            r = K(wrap_const(r.c, t))
        return r

    def cmp(self, op, a, b, ta):
        a = self.as_lin(a)
        b = self.as_lin(b)
        if isfloat(ta) and not (self.p.reals and op in ('==', '!=')):
            x, y = fconst(a), fconst(b)
            if x is not None and y is not None:
                return K(int({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]))
            if op in ('>', '>='):
                a, b, op = b, a, {'>': '<', '>=': '<='}[op]
            if op == '!=':
                return ONE - app('f==', *sorted((a, b), key=lambda q: (q.c, q.t)), boolean=True)
            if op == '==':
                return app('f==', *sorted((a, b), key=lambda q: (q.c, q.t)), boolean=True)
            return app('f' + op, a, b, boolean=True)
        d = a - b
        if op == '==':
            return mk_eq0(d)
        if op == '!=':
            return mk_not(mk_eq0(d))
        if op == '<':
            return mk_ge0(-d - 1)
        if op == '<=':
            return mk_ge0(-d)
        if op == '>':
            return mk_ge0(d - 1)
        return mk_ge0(d)

    def spaceship(self, e, st, fr, loc):
        cls = base_type(e.get('t', ''))
        cell = loc.path + (cls + '::_M_value',)
        outs = []
        for a, s in self.ev(e['a'], st, fr):
            if s.exc:
                outs.append(s)
                continue
            for b, s2 in self.ev(e['b'], s, fr):
                if s2.exc:
                    outs.append(s2)
                    continue
                s2.kill_tree(loc.root, loc.path, newver('u'))
                if isfloat(e['a'].get('t', '')):
                    s2.write(loc.root, cell, app('fcmp', self.as_lin(a), self.as_lin(b), imp=True))
                    outs.append(s2)
                    continue
                d = s2.norm(self.as_lin(a)) - s2.norm(self.as_lin(b))
                t, f = self.split(mk_eq0(d), s2, fr)
                for s3 in t:
                    s3.write(loc.root, cell, ZERO)
                    outs.append(s3)
                for s3 in f:
                    t2, f2 = self.split(mk_ge0(s3.norm(d)), s3, fr)
                    for s4 in t2:
                        s4.write(loc.root, cell, ONE)
                        outs.append(s4)
                    for s4 in f2:
                        s4.write(loc.root, cell, K(-1))
                        outs.append(s4)
        return outs

    def ev_Bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            outs = []
            for a, s in self.ev(e['a'], st, fr):
                if s.exc:
                    outs.append((None, s))
                    continue
                t, f = self.split(to_bool(self.as_lin(a)), s, fr)
                stop, go = (f, t) if op == '&&' else (t, f)
                for s2 in stop:
                    outs.append((ZERO if op == '&&' else ONE, s2))
                for s2 in go:
                    for b, s3 in self.ev(e['b'], s2, fr):
                        outs.append((to_bool(self.as_lin(b)) if not s3.exc else None, s3))
            return outs
        if op == ',':
            outs = []
            for _, s in self.ev(e['a'], st, fr):
                if s.exc:
                    outs.append((None, s))
                else:
                    outs += self.ev(e['b'], s, fr)
            return outs
        if op == '=':
            outs = []
            for b, s in self.ev(e['b'], st, fr):
                if s.exc:
                    outs.append((None, s))
                    continue
                for a, s2 in self.ev(e['a'], s, fr):
                    if s2.exc:
                        outs.append((None, s2))
                        continue
                    if isinstance(a, Loc):
                        if isinstance(b, Loc):
                            s2.copy_tree(b, a)
                        else:
                            self.assign(a, s2.norm(b) if b is not None else self.fresh('void'), s2, fr, e)
                    outs.append((a, s2))
            return outs
        outs = []
        for a, s in self.ev(e['a'], st, fr):
            if s.exc:
                outs.append((None, s))
                continue
            for b, s2 in self.ev(e['b'], s, fr):
                if s2.exc:
                    outs.append((None, s2))
                    continue
                a1 = s2.norm(self.as_lin(a))
                if op in ('==', '!=', '<', '<=', '>', '>='):
                    outs.append((self.cmp(op, a1, b, e['a'].get('t', '')), s2))
                elif op in ('.*', '->*'):
                    outs.append((Loc(('o', 'memptr'), ()) if e.get('lv') else self.fresh('memptr'), s2))
                else:
                    outs.append((self.binop(op, a1, b, e.get('t', ''), s2), s2))
        return outs

    def assign(self, loc, v, st, fr, e=None):
        self.check_dead(loc, st, e, fr)
        st.write(loc.root, loc.path, v)
        for h in self.hooks:
            h('write', self, loc, v, st, fr, e)

    def ev_CAsg(self, e, st, fr):
        op = e['op'][:-1]
        outs = []
        for b, s in self.ev(e['b'], st, fr):
            if s.exc:
                outs.append((None, s))
                continue
            for a, s2 in self.ev(e['a'], s, fr):
                if s2.exc:
                    outs.append((None, s2))
                    continue
                if isinstance(a, Loc):
                    old = self.read(a, e['a'].get('t', ''), s2)
                    v = self.binop(op, old, s2.norm(self.as_lin(b)), e['a'].get('t', ''), s2)
                    self.assign(a, v, s2, fr, e)
                outs.append((a, s2))
        return outs

    def ev_Un(self, e, st, fr):
        op = e['op']
        outs = []
        for v, s in self.ev(e['e'], st, fr):
            if s.exc:
                outs.append((None, s))
                continue
            if op == '&':
                outs.append((addr(v.root, v.path) if isinstance(v, Loc) else v, s))
            elif op == '*':
                loc = self.deref(self.as_lin(v), s, fr, e) if not (isinstance(v, Loc)) else v
                if loc is None:
                    self.nullderef(s, e, fr)
                    continue
                outs.append((loc, s))
            elif op in ('++', '--'):
                if not isinstance(v, Loc):
                    outs.append((v, s))
                    continue
                old = self.read(v, e['e'].get('t', ''), s)
                if isfloat(e['e'].get('t', '')):
                    new = app('f+', old, K(1 if op == '++' else -1))
                else:
                    new = old + (1 if op == '++' else -1)
                self.assign(v, new, s, fr, e)
                outs.append((old if e.get('post') else (v if e.get('lv') else new), s))
            elif op == '!':
                outs.append((mk_not(self.as_lin(v)), s))
            elif op == '-':
                l = self.as_lin(v)
                if isfloat(e.get('t', '')) and not self.p.reals:
                    x = fconst(l)
                    outs.append((mk_float(-x) if x is not None else app('f-', l), s))
                else:
                    r = -l
                    outs.append((K(wrap_const(r.c, e.get('t', ''))) if r.isconst() else r, s))
            elif op == '+':
                outs.append((v, s))
            elif op == '~':
                l = self.as_lin(v)
                outs.append((K(wrap_const(~l.c, e.get('t', ''))) if l.isconst() else app('~', l, **tflags(e.get('t', ''))), s))
            else:
                outs.append((v, s))
        return outs

    def ev_Cond(self, e, st, fr):
        outs = []
        for c, s in self.ev(e['c'], st, fr):
            if s.exc:
                outs.append((None, s))
                continue
            t, f = self.split(to_bool(self.as_lin(c)), s, fr, e['c'])
            for s2 in t:
                outs += self.ev(e['a'], s2, fr)
            for s2 in f:
                outs += self.ev(e['b'], s2, fr)
        return outs

    def ev_Idx(self, e, st, fr):
        outs = []
        for a, s in self.ev(e['a'], st, fr):
            if s.exc:
                outs.append((None, s))
                continue
            for b, s2 in self.ev(e['b'], s, fr):
                if s2.exc:
                    outs.append((None, s2))
                    continue
                a1 = s2.norm(self.as_lin(a))
                if isinstance(a, Loc):
                    a1 = addr(a.root, a.path + (('[', ZERO),))
                loc = self.deref(a1 + self.as_lin(b), s2, fr, e)
                if loc is None:
                    self.nullderef(s2, e, fr)
                    continue
                for h in self.hooks:
                    h('index', self, loc, None, s2, fr, e)
                outs.append((loc, s2))
        return outs

    def ev_Cast(self, e, st, fr):
        ck = e['ck']
        t = e.get('t', '')
        outs = []
        for v, s in self.ev(e['e'], st, fr):
            if s.exc:
                outs.append((None, s))
                continue
            if ck in ('LValueToRValue',):
                if isinstance(v, Loc):
                    if v.root == ('null',):
                        self.nullderef(s, e, fr)
                        continue
                    self.check_dead(v, s, e, fr)
                    for h in self.hooks:
                        h('read', self, v, None, s, fr, e)
                    if '__vector_size__' in t or '__ext_vector' in t:
                        outs.append((v, s))     # a register of several numbers is kept as its cells
                        continue
                    r = self.read(v, t, s)
                    self.dyn_from_type(r, t, s)
                    outs.append((r, s))
                else:
                    outs.append((v, s))
            elif ck == 'ArrayToPointerDecay':
                if isinstance(v, Loc):
                    if v.root[0] == 'str':
                        outs.append((lin(atom('&', v.root, (('[', ZERO),), ptr=True)), s))
                    else:
                        outs.append((addr(v.root, v.path + (('[', ZERO),)), s))
                else:
                    outs.append((v, s))
            elif ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
                outs.append((to_bool(self.as_lin(v)), s))
            elif ck in ('IntegralCast',):
                outs.append((self.intcast(v, e['e'].get('t', ''), t, s), s))
            elif ck in ('NullToPointer', 'NullToMemberPointer'):
                outs.append((ZERO, s))
            elif ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
                outs.append((v, s))
            elif ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'FloatingToBoolean'):
                outs.append((self.floatcast(ck, self.as_lin(v), t), s))
            elif ck == 'Dynamic':
                outs += self.dyncast(e, v, s, fr)
            elif ck in ('BitCast', 'LValueBitCast', 'ReinterpretMemberPointer', 'LValueToRValueBitCast'):
                outs.append((self.bitcast(v, e['e'].get('t', ''), t, s), s))
            elif ck == 'ToVoid':
                outs.append((ZERO, s))
            elif ck in ('PointerToIntegral', 'IntegralToPointer'):
                outs.append((v if self.as_lin(v).isconst() else app(ck, self.as_lin(v), ptr=ck == 'IntegralToPointer'), s))
            else:
                outs.append((v, s))
        return outs

    def dyn_from_type(self, v, t, s):
        """a pointer to a harness class marked final designates exactly that class"""
        b = base_type(t)
        if b.endswith('*') and v.t:
            c = base_type(b[:-1])
            if c in self.final_classes():
                d = deref(v)
                if d and d not in s.dyn:
                    s.dyn[d] = c

    def final_classes(self):
        f = getattr(self, '_final', None)
        if f is None:
            f = {n for n, c in self.p.cls.items() if c.get('final')}
            self._final = f
        return f

    def stride(self, bb, c, s):
        """size of the elements of the array a pointer to c designates: c may be a base class of what they are"""
        n = self.sizeof(c)
        rec = self.p.cls.get(c)
        if s is not None and rec and rec.get('poly') is not False and kind(bb) == '&':
            root, path = args(bb)
            if path and isinstance(path[-1], tuple):
                for (r, q), d in s.dyn.items():
                    if r == root and len(q) == len(path) and q[:-1] == path[:-1] and isinstance(q[-1], tuple):
                        if d != c and c in self.p.bases_of(d):
                            return self.sizeof(d) or n
                        break
        return n

    def bitcast(self, v, tf, tt, s=None):
        if isinstance(v, Loc):
            return v
        f = base_type(tf)
        t = base_type(tt)
        if '(*)[' in f and t.endswith('*') and '[' not in t and base_type(t[:-1]) != 'void':
            bb, off = split_ptr(v)
            if bb is not None and off == ZERO and kind(bb) == '&':
                root, path = args(bb)
                if not path or not isinstance(path[-1], tuple):
                    return addr(root, path + (('[', ZERO),))
        if f.endswith('*') and t.endswith('*'):
            a, b = base_type(f[:-1]), base_type(t[:-1])
            sz = {'char': 1, 'unsigned char': 1, 'signed char': 1, 'std::byte': 1, 'char8_t': 1}
            if a == b or (a in sz and b in sz) or v.isconst():
                return v
            if a == 'void':
                q = unvoid(v)
                if q is not v:
                    if q[0] == b:
                        return q[1]
                    v = q[1]
                    return app('bitcast', b, v, ptr=True, imp=True)
            bb, off = split_ptr(v)
            if bb is not None and (off == ZERO or a in sz and b == 'void'):
                return v
            if bb is not None and b != 'void' and a != 'void':
                n, m = self.stride(bb, a, s), self.stride(bb, b, s)
                if n and m:
                    if n == m:
                        return v
                    o = off.scale(n)
                    if o.c % m == 0 and all(k % m == 0 for _, k in o.t):
                        return lin(bb) + Lin(o.c // m, tuple((x, k // m) for x, k in o.t))
            if b == 'void':
                return app('void', a, v, ptr=True)
            if a == 'void' and bb is not None:
                return v
            return app('bitcast', b, v, ptr=True, imp=True)
        return v

    def sizeof(self, t):
        t = base_type(t)
        if t.endswith('*'):
            return 8
        n = {'bool': 1, 'char': 1, 'unsigned char': 1, 'signed char': 1, 'std::byte': 1, 'char8_t': 1, 'short': 2, 'unsigned short': 2, 'char16_t': 2, 'int': 4, 'unsigned int': 4, 'char32_t': 4, 'wchar_t': 4, 'float': 4,
             'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'double': 8, '__int128': 16, 'unsigned __int128': 16, 'long double': 16}.get(t)
        return n or self.p.cls.get(t, {}).get('size')

    def floatcast(self, ck, v, t):
        b = base_type(t)
        if self.p.reals and (ck == 'IntegralToFloating' or fconst(v) is None):
            if ck in ('IntegralToFloating', 'FloatingCast'):
                return v
            if v.isconst() and ck == 'FloatingToIntegral' and abs(v.c) < 1 << 62:
                return K(wrap_const(v.c, b))
            if v.isconst() and ck == 'FloatingToBoolean':
                return K(int(v.c != 0))
        if ck == 'IntegralToFloating':
            if v.isconst() and abs(v.c) < 1 << 53:
                return mk_float(v.c, b)
        else:
            x = fconst(v)
            if x is not None and x == x and abs(x) < 1 << 62:
                if ck == 'FloatingToIntegral':
                    return K(wrap_const(int(x), b))
                if ck == 'FloatingCast':
                    return mk_float(x, b)
                if ck == 'FloatingToBoolean':
                    return K(int(x != 0))
        return app(ck, b, v, **tflags(t))

    def intcast(self, v, tf, tt, s=None):
        v = self.as_lin(v)
        t = base_type(tt)
        if v.isconst():
            return K(wrap_const(v.c, t))
        f = base_type(tf)
        bits = UNSIGNED.get(t) or SIGNED.get(t)
        fb = UNSIGNED.get(f) or SIGNED.get(f) or (1 if f == 'bool' else None)
        if f == 'bool' and s is not None:
            d = s.decide(v)
            if d is not None:
                return K(1 if d else 0)
        if bits and fb and bits < fb and bits < 32:
            if s is not None:
                n = s.norm(v)
                lo, hi = (0, (1 << bits) - 1) if t in UNSIGNED else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
                if s.entails(n - lo) and s.entails(K(hi) - n):
                    return v
                if all(k % (1 << bits) == 0 for _, k in v.t) or not any(flag(x, 'ptr') for x, _ in v.t):
                    h = 0 if t in UNSIGNED else 1 << (bits - 1)
                    return v - fdiv(v + h, 1 << bits, s).scale(1 << bits)
            return app('trunc%d%s' % (bits, 'u' if t in UNSIGNED else 's'), v, uns=t in UNSIGNED, imp=True)
        return v

    def dyncast(self, e, v, s, fr):
        t = base_type(e.get('t', ''))
        isptr = t.endswith('*')
        loc = self.deref(v, s, fr, e) if isptr else v
        if loc is None:
            return [(ZERO, s)]
        want = base_type(t[:-1]) if isptr else t
        dc = s.dyn.get((loc.root, loc.path))
        if dc:
            ok = want in self.p.bases_of(dc)
            return [((v if ok else ZERO), s)] if isptr or ok else []
        if isptr:
            b = app('isa', want, self.as_lin(v), boolean=True)
            tt, ff = self.split(b, s, fr, e)
            return [(self.as_lin(v), x) for x in tt if x.assume(mk_not(mk_eq0(x.norm(self.as_lin(v)))), True)] + [(ZERO, x) for x in ff]
        return [(v, s)]

    def ev_Typeid(self, e, st, fr):
        if not e.get('e'):
            return [(Loc(('g', 'typeid:' + e['of']), ()), st)]
        outs = []
        for v, s in self.ev(e['e'], st, fr):
            if s.exc:
                outs.append((None, s))
                continue
            dc = s.dyn.get((v.root, v.path)) if isinstance(v, Loc) else None
            outs.append((Loc(('g', 'typeid:' + dc), ()) if dc else Loc(('*', app('typeid', self.as_lin(v), ptr=True, imp=True)), ()), s))
        return outs

    def ev_Zero(self, e, st, fr):
        return [(ZERO, st)]

    def ev_ArrInit(self, e, st, fr):
        return [(self.fresh('arrinit'), st)]

    def ev_ArrIdx(self, e, st, fr):
        return [(K(self.arridx[-1]) if self.arridx else self.fresh('arridx'), st)]

    def array_type(self, t):
        """(element type, extent) of a one-dimensional array type of modest size, else None"""
        m = re.match(r'^(.*?) ?\[(\d+)\]$', base_type(t or ''))
        if m and ']' not in m.group(1) and 0 < int(m.group(2)) <= 64:
            return base_type(m.group(1)), int(m.group(2))
        return None

    def class_array(self, t):
        a = self.array_type(t)
        return a if a and a[0] in self.p.cls else None

    def ev_Atomic(self, e, st, fr):
        return [(self.fresh('atomic', e.get('t', '')), st)]

    def ev_PseudoDtor(self, e, st, fr):
        return [(ZERO, st)]

    def ev_InitList(self, e, st, fr):
        a = e.get('a', [])
        if len(a) == 0:
            return [(ZERO, st)]
        if len(a) == 1:
            return self.ev(a[0], st, fr)
        return [(self.fresh('initlist'), st)]

    def ev_Throw(self, e, st, fr):
        outs = []
        if e.get('e'):
            loc = Loc(('t', fr.id, 'exc', e['i']), ())
            if self.is_class_prvalue(e['e']):
                states = self.ev_into(e['e'], st, fr, loc)
            else:
                states = []
                for v, s in self.ev(e['e'], st, fr):
                    if isinstance(v, Lin):
                        s.write(loc.root, loc.path, v)
                    states.append(s)
            for s in states:
                if not s.exc:
                    s.exc = (base_type(e['tt']), loc.root, loc.path)
                    s.trace('%s: throws %s' % (self.where(e, fr), e['tt']))
                outs.append((None, s))
        else:
            cur = st.store.get((('x', 'current'), ()))
            st.exc = cur if isinstance(cur, tuple) else ('...', ('o', 'exc'), ())
            outs.append((None, st))
        return outs

    def ev_Lambda(self, e, st, fr):
        loc = Loc(('t', fr.id, e['i']), ())
        return [(loc, s) for s in self.ev_into(e, st, fr, loc)]

    def ev_New(self, e, st, fr):
        """operator new and construction"""
        outs = []
        for pl, s in self.ev_list(e.get('pl', []), st, fr):
            if s.exc:
                outs.append((None, s))
                continue
            szs = self.ev(e['sz'], s, fr) if e.get('sz') else [(None, s)]
            for sz, s2 in szs:
                if s2.exc:
                    outs.append((None, s2))
                    continue
                if pl and 'nothrow' not in str(e['pl'][0].get('t', '')) and isinstance(pl[0], Lin):
                    d = self.deref(pl[0], s2, fr, e)
                    if d is None:
                        continue
                    loc = self.raw_storage(d, e['pl'][0], e['at'])
                    self.check_room(loc, s2, e, fr)
                    s2.kill_tree(loc.root, loc.path, newver('u'))
                    isnew = False
                else:
                    loc = Loc(('new', fr.id, e['i'], newver()[1]), ())
                    s2.hav[(loc.root, ())] = newver('u')
                    isnew = True
                    s2.event('new', e['at'], loc, self.where(e, fr))
                t = e['at']
                if e.get('cls'):
                    s2.dyn[(loc.root, loc.path)] = e['cls']
                states = [s2]
                if e.get('init') and not e.get('arr'):
                    states = self.init_loc(e['init'], s2, fr, loc, t)
                for s3 in states:
                    if s3.exc:
                        if isnew:
                            s3.event('delete', loc, self.where(e, fr))
                        outs.append((None, s3))
                        continue
                    l = Loc(*s3_norm(s3, loc))
                    for h in self.hooks:
                        h('new' if isnew else 'construct', self, l, None, s3, fr, e)
                    p = addr(l.root, l.path + (('[', ZERO),)) if e.get('arr') and isnew else addr(l.root, l.path)
                    outs.append((p, s3))
        return outs

    def check_room(self, loc, st, e, fr):
        """an object placed in a member array of bytes must fit into what is left of it"""
        size = (self.p.cls.get(e.get('cls') or '') or {}).get('size')
        if not size or e.get('arr'):
            return
        path, at = loc.path, ZERO
        if path and isinstance(path[-1], tuple) and path[-1][0] == '[':
            path, at = path[:-1], st.norm(self.as_lin(path[-1][1]))
        if not path or isinstance(path[-1], tuple):
            return
        n = self.byte_arrays().get(path[-1])
        if n is None or not at.isconst():
            return
        if at.c + size > n:
            self.fault(st, 'an object of %d bytes is put in storage of %d' % (size, n), e, fr)

    def byte_arrays(self):
        if self._bytes is None:
            self._bytes = {}
            for c in self.p.cls.values():
                for f in c['fields']:
                    m = re.match(r'^(?:unsigned char|char|std::byte) ?\[(\d+)\]$', base_type(f['t']))
                    if m:
                        self._bytes[f['fq']] = int(m.group(1))
        return self._bytes

    def raw_storage(self, loc, arg, at):
        """an object placed in a wrapper of raw bytes lives at the address of those bytes"""
        while arg.get('k') == 'Cast' and arg['e'].get('t', '').endswith('*'):
            arg = arg['e']
        t = base_type(arg.get('t', ''))
        c = base_type(t[:-1]) if t.endswith('*') else ''
        at = base_type(at)
        loc0 = loc
        for _ in range(6):
            rec = self.p.cls.get(c)
            if not rec or c == at or rec['bases'] or not rec['fields']:
                break
            f = rec['fields'][0]
            ft = base_type(f['t'])
            loc = Loc(loc.root, loc.path + (f['fq'],))
            m = re.match(r'^(unsigned char|char|std::byte) ?\[', ft)
            if m:
                return Loc(loc.root, loc.path)
            c = ft
        return loc if c == at else loc0

    def ev_Delete(self, e, st, fr):
        outs = []
        for v, s in self.ev(e['e'], st, fr):
            if s.exc:
                outs.append((None, s))
                continue
            t, f = self.split(mk_not(mk_eq0(self.as_lin(v))), s, fr)
            for s2 in f:
                outs.append((ZERO, s2))
            for s2 in t:
                loc = self.deref(self.as_lin(v), s2, fr, e)
                if loc is None:
                    continue
                cls = s2.dyn.get((loc.root, loc.path)) or e.get('cls')
                if self.anydead and (loc.root, loc.path + ('#dead',)) in s2.store:
                    self.fault(s2, 'object deleted twice', e, fr)
                    continue
                if e.get('arr') or not cls:
                    states = [s2]
                else:
                    states = self.destroy(loc, cls, s2, fr, dynamic=True)
                for s3 in states:
                    l = Loc(*s3_norm(s3, loc))
                    s3.event('delete', l, self.where(e, fr))
                    self.mark_dead(l, s3)
                    for h in self.hooks:
                        h('delete', self, l, None, s3, fr, e)
                    outs.append((ZERO, s3))
        return outs

    # ------------------------------------------------------------ initialising a location
    def init_loc(self, e, st, fr, loc, t=''):
        """initialise loc (of type t) from expression e -> [state]"""
        x = e
        while x['k'] in ('Full', 'Wrap') and x.get('e'):
            x = x['e']
        if x is not e and x['k'] in ('InitList', 'ArrInit', 'Ctor') and not x.get('lv') and self.class_array(x.get('t', '')):
            return self.ev_into(e, st, fr, loc)
        if self.is_class_prvalue(e) or e['k'] in ('InitList', 'Zero', 'ArrInit') or (e['k'] == 'Wrap' and e['e']['k'] in ('InitList',)):
            return self.ev_into(e, st, fr, loc)
        outs = []
        for v, s in self.ev(e, st, fr):
            if not s.exc:
                l = Loc(*s3_norm(s, loc))
                if isinstance(v, Loc):
                    s.copy_tree(v, l)
                else:
                    self.assign(l, v, s, fr, e)
            outs.append(s)
        return outs

    def ev_into(self, e, st, fr, loc, asbase=False):
        self.tick()
        k = e['k']
        if k in ('Full',):
            mark = len(st.temps)
            outs = []
            for s in self.ev_into(e['e'], st, fr, loc):
                outs += self.end_full(s, mark, fr)
            return outs
        if k in ('Wrap', 'StdInit', 'Opaque') and e.get('e'):
            if k == 'StdInit':
                return self.std_init_list(e, st, fr, loc)
            return self.ev_into(e['e'], st, fr, loc)
        if k == 'Bind':
            outs = self.ev_into(e['e'], st, fr, loc)
            if loc.root == ('t', fr.id, e['i']):
                for s in outs:
                    if not s.exc:
                        s.temps = s.temps + ((loc.root, loc.path, e['cls']),)
            return outs
        if k == 'Bin' and e['op'] == '<=>':
            return self.spaceship(e, st, fr, loc)
        if k == 'Cast':
            ck = e['ck']
            if ck == 'ToVoid':
                return [s for _, s in self.ev(e['e'], st, fr)]
            if ck == 'LValueToRValue':
                outs = []
                for v, s in self.ev(e['e'], st, fr):
                    if not s.exc and isinstance(v, Loc):
                        s.copy_tree(v, loc)
                    outs.append(s)
                return outs
            return self.ev_into(e['e'], st, fr, loc)
        if k == 'Ctor':
            a = self.class_array(e.get('t', ''))
            if a:
                cur = [st]
                for i in range(a[1]):
                    nxt = []
                    for s in cur:
                        nxt += [s] if s.exc else self.construct(e, s, fr, Loc(loc.root, loc.path + (('[', K(i)),)))
                    cur = nxt
                return cur
            return self.construct(e, st, fr, loc)
        if k == 'ArrInit':
            a = self.array_type(e.get('t', ''))
            if a and e.get('sub'):
                cur = [st]
                for i in range(a[1]):
                    nxt = []
                    for s in cur:
                        if s.exc:
                            nxt.append(s)
                            continue
                        self.arridx.append(i)
                        try:
                            nxt += self.init_loc(e['sub'], s, fr, Loc(loc.root, loc.path + (('[', K(i)),)), a[0])
                        finally:
                            self.arridx.pop()
                    cur = nxt
                return cur
        if k == 'Call':
            return [s for _, s in self.call(e, st, fr, loc)]
        if k == 'Cond':
            outs = []
            for c, s in self.ev(e['c'], st, fr):
                if s.exc:
                    outs.append(s)
                    continue
                t, f = self.split(to_bool(self.as_lin(c)), s, fr, e['c'])
                for s2 in t:
                    outs += self.ev_into(e['a'], s2, fr, loc)
                for s2 in f:
                    outs += self.ev_into(e['b'], s2, fr, loc)
            return outs
        if k == 'Lambda':
            st.kill_tree(loc.root, loc.path, newver('u'))
            st.dyn[(loc.root, loc.path)] = e['cls']
            if e.get('f'):
                st.write(loc.root, loc.path + ('#fn',), lin(atom('fn', e['f']['id'])))
            cur = [st]
            for c in e['caps']:
                nxt = []
                for s in cur:
                    if s.exc:
                        nxt.append(s)
                        continue
                    if c.get('this'):
                        for v, s2 in self.ev_This({'k': 'This'}, s, fr):
                            s2.write(loc.root, loc.path + ('cap:this',), v)
                            nxt.append(s2)
                        continue
                    name = 'cap:%d' % c['id']
                    cl = Loc(loc.root, loc.path + (name,))
                    if c.get('ref'):
                        for v, s2 in self.ev(c['e'], s, fr):
                            if not s2.exc:
                                s2.write(cl.root, cl.path + ('#ref',), self.as_lin(v))
                            nxt.append(s2)
                    else:
                        nxt += self.init_loc(c['e'], s, fr, cl)
                cur = nxt
            return cur
        if k == 'InitList':
            if not asbase:
                st.kill_tree(loc.root, loc.path, newver('u'))
            a = e.get('a', [])
            fl = e.get('fl')
            cur = [st]
            isarr = fl is None
            for i, x in enumerate(a):
                nxt = []
                for s in cur:
                    if s.exc or x is None:
                        nxt.append(s)
                        continue
                    if isarr:
                        if base_type(e.get('t', '')).endswith(']'):
                            sub = Loc(loc.root, loc.path + (('[', K(i)),))
                        else:
                            sub = loc
                    else:
                        f = e.get('uf') or (fl[i] if i < len(fl) else '?%d' % i)
                        if f == '<base>':
                            sub = loc
                            if x['k'] == 'InitList':
                                nxt += self.ev_into(x, s, fr, loc, asbase=True)
                                continue
                        else:
                            sub = Loc(loc.root, loc.path + (f,))
                    if x['k'] == 'Zero' and base_type(x.get('t', '')).endswith(']'):
                        s.kill_tree(sub.root, sub.path, ('zero',))
                        nxt.append(s)
                    elif x['k'] == 'Zero' and not x.get('cls'):
                        s.write(sub.root, sub.path, ZERO)
                        nxt.append(s)
                    elif x.get('lv'):
                        for v, s2 in self.ev(x, s, fr):
                            if not s2.exc:
                                s2.write(sub.root, sub.path, self.as_lin(v))
                            nxt.append(s2)
                    else:
                        nxt += self.init_loc(x, s, fr, sub)
                cur = nxt
            if isarr and not a:
                for s in cur:
                    s.kill_tree(loc.root, loc.path, ('zero',))
            return cur
        if k == 'Zero':
            st.kill_tree(loc.root, loc.path, ('zero',))
            return [st]
        if k == 'InhCtor':
            f = e['f']
            rec = self.p.fns.get(f['id'])
            if rec is None or not fr.fn.get('ctor'):
                return [st]
            args = []
            for q, mine in zip(rec['params'], fr.fn['params']):
                pl = Loc(('v', fr.id, mine['id'], mine['n']), ())
                if q.get('ref'):
                    args.append(self.deref(st.read(pl.root, pl.path, q['t']), st, fr, e))
                else:
                    args.append(self.read(pl, q['t'], st))
            return [s for _, s in self.enter(rec, loc, args, st, fr, e, None)]
        if k == 'Throw':
            return [s for _, s in self.ev(e, st, fr)]
        outs = []
        for v, s in self.ev(e, st, fr):
            if not s.exc:
                if isinstance(v, Loc):
                    if v != loc:
                        s.copy_tree(v, loc)
                elif v is not None:
                    s.write(loc.root, loc.path, v)
            outs.append(s)
        return outs

    def std_init_list(self, e, st, fr, loc):
        sub = e['e']
        ext = False
        while sub['k'] in ('Mat', 'Full', 'Wrap', 'Bind') or sub['k'] == 'Cast' and sub.get('ck') == 'NoOp':
            ext = ext or bool(sub.get('ext'))
            sub = sub['e']
        arr = Loc(('t', fr.id, 'il', e['i']), ())
        n = len(sub.get('a', []))
        et = base_type(sub.get('t', ''))
        et = base_type(re.sub(r'\[\d*\]$', '', et)) if et.endswith(']') else ''
        dt = et if sub['k'] == 'InitList' and et in self.p.cls and self.needs_dtor(et) else None
        outs = []
        for s in self.ev_into(sub, st, fr, arr) if sub['k'] == 'InitList' else [st]:
            s.kill_tree(loc.root, loc.path, newver('u'))
            s.write(loc.root, loc.path + ('#il',), addr(arr.root, (('[', ZERO),)))
            s.write(loc.root, loc.path + ('#size',), K(n))
            s.write(loc.root, loc.path + ('std::initializer_list::_M_array',), addr(arr.root, (('[', ZERO),)))
            s.write(loc.root, loc.path + ('std::initializer_list::_M_len',), K(n))
            if dt and not s.exc:
                for i in range(n):
                    if ext:
                        s.scope = s.scope + (('d', arr.root, (('[', K(i)),), dt),)
                    else:
                        s.temps = s.temps + ((arr.root, (('[', K(i)),), dt),)
            outs.append(s)
        return outs

    # ------------------------------------------------------------ calls
    def ev_Call(self, e, st, fr):
        return self.call(e, st, fr, None)

    def ev_Ctor(self, e, st, fr):
        loc = Loc(('t', fr.id, e['i']), ())
        return [(loc, s) for s in self.construct(e, st, fr, loc)]

    def ev_InhCtor(self, e, st, fr):
        return [(None, s) for s in self.ev_into(e, st, fr, fr.this)]

    def construct(self, e, st, fr, loc):
        f = e['f']
        cls = e.get('cls') or f['c']
        rec = self.p.fns.get(f['id'])
        slots = self.slots(rec, fr, e) if rec else None
        outs = []
        for args, s in self.ev_list(e['a'], st, fr, slots):
            if s.exc:
                outs.append(s)
                continue
            l = Loc(*s3_norm(s, loc))
            m = self.find_model(f)
            if m:
                outs += [s2 for _, s2 in self.run_model(m, e, f, l, args, s, fr, l)]
                continue
            if e['k'] == 'Ctor' and (f.get('copyctor') or f.get('movector')) and (rec is None or cls.startswith('lambda@')) and args and isinstance(args[0], Loc):
                s.copy_tree(args[0], l)
                s.dyn[(l.root, l.path)] = cls
                outs.append(s)
                continue
            s.kill_tree(l.root, l.path, ('zero',) if e.get('zero') else newver('u'))
            s.dyn[(l.root, l.path)] = cls
            if rec is None:
                if cls in self.p.cls and (f.get('triv') or f.get('dflt')):
                    outs += self.default_init(l, cls, s, fr)
                else:
                    outs += [s2 for _, s2 in self.opaque_call(e, f, l, args, s, fr, l)]
                continue
            outs += [s2 for _, s2 in self.enter(rec, l, args, s, fr, e, None)]
        return outs

    def default_init(self, loc, cls, st, fr):
        c = self.p.cls.get(cls)
        cur = [st]
        if not c:
            return cur
        for b in c['bases']:
            cur = [y for x in cur for y in self.default_init(loc, b, x, fr)]
        for f in c['fields']:
            if f.get('init'):
                cur = [y for x in cur for y in self.init_loc(f['init'], x, Frame(fr.id, fr.fn, loc, fr), Loc(loc.root, loc.path + (f['fq'],)), f['t'])]
            elif f.get('cls'):
                fl = Loc(loc.root, loc.path + (f['fq'],))
                m = self.class_models.get(strip_tmpl(f['cls']))
                if m and 'ctor' in m:
                    cur = [y for x in cur for y in m['ctor'](self, fl, x)]
                else:
                    cur = [y for x in cur for y in self.default_init(fl, f['cls'], x, fr)]
        return cur

    def slots(self, rec, fr, e):
        fid = frame_id(fr.id, (e['i'], rec['id']))
        out = []
        for q in rec['params']:
            out.append(None if q.get('ref') else Loc(('v', fid, q['id'], q['n']), ()))
        return out + [None] * 20

    def find_model(self, f):
        q = f['q']
        m = self.models.get(q)
        if m:
            return m
        cq = f.get('cq')
        if cq:
            cm = self.class_models.get(cq)
            if cm and cq == 'std::allocator_traits' and getattr(self.p, 'real', False):
                rec = self.p.fns.get(f.get('id'))
                if rec and not rec.get('c', '').startswith('std::allocator_traits<std::allocator<'):
                    return None      # another allocator: its own functions
            if cm:
                n = f['n']
                if cq.split('::')[-1] == n or f.get('copyctor') or f.get('movector'):
                    n = 'ctor()'
                m = cm.get(n) or cm.get('*')
                if m:
                    return m
        if q.startswith('std::') or q.startswith('__gnu_cxx::') or q.startswith('boost::'):
            ns = q.split('::')
            return self.models.get('std::*::' + ns[-1])
        return None

    def run_model(self, m, e, f, obj, args, st, fr, dest):
        c = Call()
        c.node, c.f, c.obj, c.args, c.st, c.fr, c.dest, c.eng = e, f, obj, args, st, fr, dest, self
        return m(c)

    def call(self, e, st, fr, dest):
        f = e.get('f')
        # object
        if 'o' in e:
            objs = self.ev(e['o'], st, fr)
        elif f is None and e.get('ce'):
            objs = self.ev(e['ce'], st, fr)
        else:
            objs = [(None, st)]
        outs = []
        for o, s in objs:
            if s.exc:
                outs.append((None, s))
                continue
            obj = None
            if 'o' in e:
                if e.get('arrow'):
                    obj = self.deref(self.as_lin(o), s, fr, e)
                    if obj is None:
                        self.nullderef(s, e, fr)
                        continue
                else:
                    obj = o if isinstance(o, Loc) else None
                    if obj is not None and obj.root == ('null',):
                        self.nullderef(s, e, fr)
                        continue
                if obj is not None and self.anydead:
                    self.check_dead(obj, s, e, fr, 'call on')
                if obj is None:
                    tl = Loc(('t', fr.id, 'obj', e['i']), ())
                    if isinstance(o, Lin):
                        s.write(tl.root, tl.path, o)
                    obj = tl
            if f is None:
                fid_ = None
                if isinstance(o, Lin):
                    a = o.single()
                    if a is not None and kind(a) == 'fn':
                        fid_ = args(a)[0]
                rec = self.p.fns.get(fid_) if fid_ else None
                for a_, s2 in self.ev_list(e['a'], s, fr, self.slots(rec, fr, e) if rec else None):
                    if s2.exc:
                        outs.append((None, s2))
                    elif rec:
                        outs += self.enter(rec, None, a_, s2, fr, e, dest)
                    else:
                        outs += self.callback(e, o, a_, s2, fr, dest)
                continue
            # resolve virtual dispatch
            target = f['id']
            m = self.find_model(f)
            if m is None and f.get('v') and not e.get('qual') and obj is not None:
                dc = s.dyn.get((obj.root, obj.path))
                if dc is None:
                    dc = self.static_final(e['o'])
                if dc is not None:
                    r = self.p.resolve_virtual(f['id'], dc)
                    if r is not None:
                        target = r
                else:
                    ov = self.p.overriders.get(f['id'], ())
                    if ov:
                        target = None
            rec = self.p.fns.get(target) if target else None
            for a_, s2 in self.ev_list(e['a'], s, fr, self.slots(rec, fr, e) if rec and not m else None):
                if s2.exc:
                    outs.append((None, s2))
                    continue
                ob = Loc(*s3_norm(s2, obj)) if obj is not None else None
                a_ = tuple(s2.norm(x) if isinstance(x, Lin) else (Loc(*s3_norm(s2, x)) if isinstance(x, Loc) else x) for x in a_)
                if m:
                    outs += self.run_model(m, e, f, ob, a_, s2, fr, dest)
                elif rec:
                    outs += self.enter(rec, ob, a_, s2, fr, e, dest)
                elif target and f.get('copyasn') or f.get('moveasn'):
                    if isinstance(a_[0], Loc):
                        s2.copy_tree(a_[0], ob)
                    outs.append((ob, s2))
                elif f['n'].startswith('~') and ob is not None and f.get('cq') in self.p.cls and not self.p.dtor_user(f['cq']):
                    outs += [(None, s3) for s3 in self.destroy_members(ob, f['cq'], s2, fr)]   # an implicit destructor without a body of its own
                else:
                    outs += self.opaque_call(e, f, ob, a_, s2, fr, dest)
        return self.limit(outs)

    def static_final(self, o):
        t = base_type(o.get('t', ''))
        if t.endswith('*'):
            t = base_type(t[:-1])
        return t if t in self.final_classes() else None

    def callback(self, e, o, a_, st, fr, dest):
        st.event('callback', self.where(e, fr))
        t = e.get('t', '')
        if dest:
            st.kill_tree(dest.root, dest.path, newver())
            return [(dest, st)]
        if e.get('lv'):
            return [(Loc(('*', fresh('cbref', ptr=True)), ()), st)]
        return [(fresh('callback', **tflags(t)), st)]

    def opaque_call(self, e, f, obj, a_, st, fr, dest, imp=True):
        q = f['q']
        if f['n'].startswith('~') and f.get('c') in self.p.cls and not self.needs_dtor(f['c']):
            return [(ZERO, st)]
        self.opaque[q] = self.opaque.get(q, 0) + 1
        st.event('opaque', q, self.where(e, fr))
        if f.get('nr'):
            return []
        # havoc what it can write
        if obj is not None and not f.get('co') and not f.get('st') and f.get('cq'):
            self.havoc(obj, st)
        for x, ae in zip(a_, e.get('a', [])):
            if isinstance(x, Loc) and ae and ae.get('lv') == 1 and not ae.get('t', '').startswith('const '):
                if not self.opaque_pure(q):
                    self.havoc(x, st)
            elif isinstance(x, Lin) and ae and base_type(ae.get('t', '')).endswith('*') and not ae['t'].startswith('const '):
                d = deref(x)
                if d and not self.opaque_pure(q):
                    self.havoc(Loc(d[0], d[1][:-1] if d[1] and isinstance(d[1][-1], tuple) else d[1]), st)
        t = e.get('t', '')
        if dest is not None:
            if dest != obj:
                st.kill_tree(dest.root, dest.path, newver("op"))
                for h in self.hooks:
                    h('opaque-into', self, dest, None, st, fr, e)
            return [(dest, st)]
        if e.get('lv'):
            return [(Loc(('*', fresh('ref:' + f['n'], ptr=True, imp=imp)), ()), st)]
        if e['k'] == 'Ctor':
            return [(obj, st)]
        return [(fresh('ret:' + f['n'], imp=imp, **tflags(t)), st)]

    def opaque_pure(self, q):
        return q.startswith('std::') and q.split('::')[-1] in ('forward', 'move', 'get')

    def havoc(self, loc, st):
        if loc.root[0] in ('null', 'str'):
            return
        st.kill_tree(loc.root, loc.path, newver('op'))
        st.store[(loc.root, loc.path)] = fresh('havoc', imp=True)

    def enter(self, rec, this, args_, st, fr, e, dest):
        """abstractly execute the body of rec"""
        if this is not None and args_ and isinstance(args_[0], Loc) and (rec.get('implicit') or rec.get('dflt')) and (rec.get('copyctor') or rec.get('movector') or rec.get('copyasn') or rec.get('moveasn')) and self.p.cls.get(rec.get('c'), {}).get('union'):
            st.copy_tree(args_[0], this)
            return [(this, st)]
        n = 0
        x = fr
        while x is not None:
            if x.fn.get('id') == rec['id']:
                n += 1
            x = x.parent
        if fr.depth > self.max_depth or n >= self.recursion_limit(rec):
            f = {'q': rec['q'], 'n': rec['n'], 'cq': rec.get('cq'), 'co': rec.get('co'), 'st': rec.get('st')}
            return self.opaque_call(e, f, this, args_, st, fr, dest)
        for h in self.hooks:
            r = h('enter', self, this, (rec, args_, dest), st, fr, e)
            if r is not None:
                return r
        self.entered.add(rec['id'])
        nf = Frame(frame_id(fr.id, (e['i'], rec['id'])), rec, this, fr, e)
        vroot = None
        for q, v in zip(rec['params'], args_):
            loc = Loc(('v', nf.id, q['id'], q['n']), ())
            if v is None:
                continue
            if q.get('ref'):
                st.write(loc.root, loc.path, self.as_lin(v))
            elif isinstance(v, Loc):
                if v != loc:
                    st.copy_tree(v, loc)
            else:
                st.write(loc.root, loc.path, v)
        if rec.get('lam'):
            nf.lam = this
        nf.dest = dest
        mark = len(st.scope)
        res = []
        if rec.get('ctor'):
            for s in self.run_inits(rec, st, nf):
                if s.exc:
                    res.append(('t', None, s))
                else:
                    res += self.exec(rec['body'], s, nf) if rec.get('body') else [('n', None, s)]
        elif rec.get('body'):
            res = self.exec(rec['body'], st, nf)
        outs = []
        pend = []
        for kind_, v, s in res:
            # by-value class parameters
            cur = [s]
            for q in reversed(rec['params']):
                if not q.get('ref') and q.get('cls') and self.needs_dtor(q['cls']):
                    nx = []
                    for c in cur:
                        ex = c.exc
                        c.exc = None
                        for c2 in self.destroy(Loc(('v', nf.id, q['id'], q['n']), ()), q['cls'], c, fr):
                            c2.exc = ex or c2.exc
                            nx.append(c2)
                    cur = nx
            for c in cur:
                self.drop_frame(c, nf.id)
                if kind_ == 't' or c.exc:
                    outs.append((None, c))
                elif kind_ in ('r', 'n'):
                    rv = v
                    if isinstance(rv, Lin):
                        rv = c.norm(rv)
                    elif isinstance(rv, Loc):
                        rv = Loc(*s3_norm(c, rv))
                    if rec.get('ctor'):
                        rv = this
                    elif dest is not None:
                        rv = dest
                    elif rec['ret'].rstrip().endswith('&') and isinstance(rv, Lin):
                        d = deref(rv)
                        rv = Loc(*d) if d else Loc(('null',), ())
                    elif rv is None:
                        rv = ZERO
                    outs.append((rv, c))
                else:
                    raise Unsupported('completion %s leaves %s' % (kind_, rec['q']))
        # destructor: members and bases
        if rec.get('dtor'):
            o2 = []
            for v, s in outs:
                o2 += [(v, s2) for s2 in self.destroy_members(this, rec['c'], s, fr)]
            outs = o2
        outs = self.limit(outs)
        for h in self.hooks:
            h('leave', self, this, (rec, outs), st, fr, e)
        return outs

    def recursion_limit(self, rec):
        return 24 if getattr(self.p, 'real', False) else 2

    def drop_frame(self, s, fid):
        ks = [k for k in s.store if k[0][0] in ('v',) and k[0][1] == fid]
        for k in ks:
            del s.store[k]
        ks = [k for k in s.hav if k[0][0] in ('v',) and k[0][1] == fid]
        for k in ks:
            del s.hav[k]

    def run_inits(self, rec, st, nf):
        cur = [st]
        for it in rec.get('inits', []):
            nxt = []
            for s in cur:
                if s.exc:
                    nxt.append(s)
                    continue
                this = Loc(*s3_norm(s, nf.this))
                e = it.get('e')
                if e is None:
                    nxt.append(s)
                elif it.get('deleg') or it.get('base') is not None:
                    dyn = s.dyn.get((this.root, this.path))
                    inner = e
                    while inner['k'] in ('Full', 'Wrap', 'Bind'):
                        inner = inner['e']
                    if inner['k'] in ('Ctor',):
                        for s2 in self.construct_base(inner, s, nf, this):
                            if dyn:
                                s2.dyn[(this.root, this.path)] = dyn
                            nxt.append(s2)
                    elif inner['k'] == 'InhCtor':
                        nxt += self.ev_into(inner, s, nf, this)
                    elif inner['k'] == 'InitList':
                        nxt += self.ev_into(inner, s, nf, this, asbase=True)
                    elif inner['k'] == 'Zero':
                        nxt.append(s)
                    else:
                        for v, s2 in self.ev(e, s, nf):
                            if isinstance(v, Loc) and not s2.exc and inner.get('cls'):
                                self.copy_fields(v, this, inner['cls'], s2)
                            nxt.append(s2)
                elif it.get('ref'):
                    for v, s2 in self.ev(e, s, nf):
                        if not s2.exc:
                            s2.write(this.root, this.path + (it['fq'],), self.as_lin(v))
                        nxt.append(s2)
                elif e['k'] == 'Ctor' and not e.get('a') and not e.get('zero') and e['f'].get('triv'):
                    nxt.append(s)       # vacuous: what an earlier initialiser put there stays
                else:
                    nxt += self.init_loc(e, s, nf, Loc(this.root, this.path + (it['fq'],)), it.get('ft', ''))
            cur = nxt
        return cur

    def construct_base(self, e, st, fr, loc):
        """construct a base-class subobject: do not clear the whole object"""
        f = e['f']
        rec = self.p.fns.get(f['id'])
        outs = []
        for args_, s in self.ev_list(e['a'], st, fr, self.slots(rec, fr, e) if rec else None):
            if s.exc:
                outs.append(s)
                continue
            l = Loc(*s3_norm(s, loc))
            m = self.find_model(f)
            if m:
                outs += [s2 for _, s2 in self.run_model(m, e, f, l, args_, s, fr, l)]
            elif rec is None:
                if (f.get('copyctor') or f.get('movector')) and args_ and isinstance(args_[0], Loc):
                    self.copy_fields(args_[0], l, f['c'], s)
                    outs.append(s)
                elif f['c'] in self.p.cls:
                    outs += self.default_init(l, f['c'], s, fr)
                else:
                    outs += [s2 for _, s2 in self.opaque_call(e, f, None, args_, s, fr, l if False else None)]
            else:
                outs += [s2 for _, s2 in self.enter(rec, l, args_, s, fr, e, None)]
        return outs

    def copy_fields(self, src, dst, cls, st):
        for cn in self.p.bases_of(cls):
            c = self.p.cls.get(cn)
            if c:
                for f in c['fields']:
                    st.copy_tree(Loc(src.root, src.path + (f['fq'],)), Loc(dst.root, dst.path + (f['fq'],)))

    # ------------------------------------------------------------ destruction
    def needs_dtor(self, cls, seen=()):
        key = cls
        c = getattr(self, '_nd', None)
        if c is None:
            c = self._nd = {}
        if key in c:
            return c[key]
        if cls in seen:
            return False
        b = strip_tmpl(cls)
        r = False
        cm = self.class_models.get(b)
        if cm and 'dtor' in cm:
            r = True
        else:
            rec = self.p.cls.get(cls)
            if rec:
                d = self.p.dtor_of(cls)
                if d and d['id'] in self.p.fns and not self.p.fns[d['id']].get('implicit') and not self.p.fns[d['id']].get('dflt'):
                    r = True
                else:
                    r = any(f.get('cls') and '*' not in f['t'] and '&' not in f['t'] and self.needs_dtor(f['cls'], seen + (cls,)) or (lambda a: a and self.needs_dtor(a[0], seen + (cls,)))(self.class_array(f['t'])) for f in rec['fields']) or any(self.needs_dtor(x, seen + (cls,)) for x in rec['bases'])
        c[key] = r
        return r

    def destroy(self, loc, cls, st, fr, dynamic=False, node=None):
        if loc.root == ('null',):
            return [st]
        b = strip_tmpl(cls)
        cm = self.class_models.get(b)
        if cm and 'dtor' in cm:
            return cm['dtor'](self, loc, cls, st, fr)
        d = self.p.dtor_of(cls)
        rec = None
        if d:
            rec = self.p.fns.get(d['id'])
        if rec and rec.get('body'):
            node = {'i': 'dtor:%s' % cls, 'k': 'Dtor', 'l': rec['line']}
            saved = st.dyn.get((loc.root, loc.path))
            outs = [s for _, s in self.enter(rec, loc, (), st, Frame(frame_id(fr.id, ('d', loc)), fr.fn, None, fr), node, None)]
            return outs
        return self.destroy_members(loc, cls, st, fr)

    def destroy_members(self, loc, cls, st, fr):
        rec = self.p.cls.get(cls)
        cur = [st]
        if not rec or rec.get('union'):
            return cur
        # during base destruction the dynamic type is the base
        for f in reversed(rec['fields']):
            if f.get('cls') and not f.get('ref') and not f['t'].rstrip().endswith(('*', '&')) and self.needs_dtor(f['cls']):
                nxt = []
                for s in cur:
                    l = Loc(*s3_norm(s, loc))
                    nxt += self.destroy(Loc(l.root, l.path + (f['fq'],)), f['cls'], s, fr)
                cur = nxt
            elif not f.get('ref'):
                a = self.class_array(f['t'])
                if a and self.needs_dtor(a[0]):
                    for i in reversed(range(a[1])):
                        cur = [y for s in cur for y in self.destroy(Loc(*s3_norm(s, Loc(loc.root, loc.path + (f['fq'], ('[', K(i)))))), a[0], s, fr)]
        for bname in reversed(rec['bases']):
            if self.needs_dtor(bname):
                nxt = []
                for s in cur:
                    l = Loc(*s3_norm(s, loc))
                    if (l.root, l.path) in s.dyn:
                        s.dyn[(l.root, l.path)] = bname
                    nxt += self.destroy(l, bname, s, fr)
                cur = nxt
        return cur

    # ------------------------------------------------------------ statements
    def exec(self, s, st, fr):
        """-> [(kind, value, state)] kind: n normal, b break, c continue, r return, t throw, g goto"""
        self.tick()
        k = s['k']
        if COV is not None:
            COV.add((fr.fn.get('file', '?'), s.get('l')))
        m = getattr(self, 'ex_' + k, None)
        if m:
            return self.limit(m(s, st, fr))
        outs = []
        mark = len(st.temps)
        for v, s2 in self.ev_arg(s, st, fr, None):
            for s3 in self.end_full(s2, mark, fr):
                outs.append(('t' if s3.exc else 'n', None, s3))
        return self.limit(outs)

    def pop_scope(self, st, mark, fr):
        """destroy automatic objects declared since mark -> [state]"""
        cur = [st]
        if len(st.scope) <= mark:
            return cur
        todo = st.scope[mark:]
        for ent in reversed(todo):
            nxt = []
            for c in cur:
                ex = c.exc
                c.exc = None
                root, path = subst_any((ent[1], ent[2]), c.eqs, {}) if c.eqs else (ent[1], ent[2])
                for c2 in self.destroy(Loc(root, path), ent[3], c, fr):
                    c2.exc = ex or c2.exc
                    nxt.append(c2)
            cur = nxt
        for c in cur:
            c.scope = c.scope[:mark]
        return cur

    def ex_Block(self, s, st, fr):
        mark = len(st.scope)
        outs = []
        cur = [st]
        for x in s['s']:
            if x is None:
                continue
            nxt = []
            for c in cur:
                for kd, v, c2 in self.exec(x, c, fr):
                    if kd == 'n':
                        nxt.append(c2)
                    else:
                        outs.append((kd, v, c2))
            cur = nxt
            if not cur:
                break
            if len(cur) > 8:
                cur = [y[-1] for y in self.limit([('n', None, y) for y in cur])]
        outs += [('n', None, c) for c in cur]
        return self.unwind(outs, mark, fr)

    def unwind(self, outs, mark, fr):
        res = []
        for kd, v, c in outs:
            if len(c.scope) > mark:
                for c2 in self.pop_scope(c, mark, fr):
                    res.append(('t' if c2.exc else kd, v, c2))
            else:
                res.append((kd, v, c))
        return res

    def ex_Decl(self, s, st, fr):
        cur = [st]
        outs = []
        for var in s['vars']:
            nxt = []
            for c in cur:
                for kd, v, c2 in self.decl(var, c, fr):
                    if kd == 'n':
                        nxt.append(c2)
                    else:
                        outs.append((kd, v, c2))
            cur = nxt
        return outs + [('n', None, c) for c in cur]

    def decl(self, var, st, fr):
        d = var['d']
        if var.get('static'):
            if not self.p.statics:
                return [('n', None, st)]
            return self.static_decl(var, st, fr)
        loc = self.var_loc(d, fr)
        mark = len(st.temps)
        st.kill_tree(loc.root, loc.path, newver('u'))
        init = var.get('init')
        outs = []
        if init is None:
            if var.get('cls') and not var.get('ref'):
                states = self.default_init(loc, var['cls'], st, fr)
            else:
                states = [st]
        elif var.get('ref'):
            states = []
            for v, s in self.ev(init, st, fr):
                if not s.exc:
                    s.write(loc.root, loc.path, self.as_lin(v))
                states.append(s)
        else:
            states = self.init_loc(init, st, fr, loc, d['t'])
        for s in states:
            for s2 in self.end_full(s, mark, fr):
                if s2.exc:
                    outs.append(('t', None, s2))
                    continue
                if var.get('cls') and not var.get('ref'):
                    if self.needs_dtor(var['cls']):
                        s2.scope = s2.scope + (('d', loc.root, loc.path, var['cls']),)
                elif not var.get('ref'):
                    a = self.class_array(d['t'])
                    if a and self.needs_dtor(a[0]):
                        for i in range(a[1]):
                            s2.scope = s2.scope + (('d', loc.root, loc.path + (('[', K(i)),), a[0]),)
                cur = [s2]
                for b in var.get('bindings', []):
                    if b.get('hv'):
                        cur = [x for y in cur for (kd, v, x) in self.decl(b['hv'], y, fr)]
                        for x in cur:
                            bl = Loc(('v', fr.id, b['id'], b['n']), ())
                            hv = b['hv']
                            hl = self.var_loc(hv['d'], fr)
                            x.write(bl.root, bl.path, x.read(hl.root, hl.path, 'x&') if hv.get('ref') else addr(hl.root, hl.path))
                outs += [('n', None, x) for x in cur]
        return outs

    def static_decl(self, var, st, fr):
        """the first time control passes through the declaration of a static (or thread local) variable"""
        d = var['d']
        loc = Loc(('g', d['q']), ())
        flag = ('#init',)
        if (loc.root, flag) in st.store:
            return [('n', None, st)]
        mark = len(st.temps)
        st.kill_tree(loc.root, loc.path, ('zero',))
        init = var.get('init')
        outs = []
        if init is None:
            states = self.default_init(loc, var['cls'], st, fr) if var.get('cls') and not var.get('ref') else [st]
        elif var.get('ref'):
            states = []
            for v, s in self.ev(init, st, fr):
                if not s.exc:
                    s.write(loc.root, loc.path, self.as_lin(v))
                states.append(s)
        else:
            states = self.init_loc(init, st, fr, loc, d['t'])
        for s in states:
            for s2 in self.end_full(s, mark, fr):
                if s2.exc:
                    outs.append(('t', None, s2))
                else:
                    s2.store[(loc.root, flag)] = K(1)
                    outs.append(('n', None, s2))
        return outs

    def ex_NullS(self, s, st, fr):
        return [('n', None, st)]

    def ex_Break(self, s, st, fr):
        return [('b', None, st)]

    def ex_Continue(self, s, st, fr):
        return [('c', None, st)]

    def ex_Goto(self, s, st, fr):
        raise Unsupported('goto')

    def ex_Label(self, s, st, fr):
        return self.exec(s['s'], st, fr)

    def ex_Case(self, s, st, fr):
        return self.exec(s['s'], st, fr)

    ex_Default = ex_Case

    def ex_Asm(self, s, st, fr):
        return [('n', None, st)]

    def ex_Return(self, s, st, fr):
        e = s.get('e')
        if e is None:
            return [('r', None, st)]
        mark = len(st.temps)
        outs = []
        isref = fr.fn['ret'].rstrip().endswith('&')
        if not isref and self.is_class_prvalue(e):
            dest = fr.dest or Loc(('t', fr.id, 'ret'), ())
            for x in self.ev_into(e, st, fr, dest):
                for x2 in self.end_full(x, mark, fr):
                    x2.trace('%s: return' % self.where(s, fr))
                    outs.append(('t' if x2.exc else 'r', dest, x2))
            return outs
        for v, x in self.ev(e, st, fr):
            for x2 in self.end_full(x, mark, fr):
                if not x2.exc:
                    if isref:
                        v2 = self.as_lin(v)
                    elif isinstance(v, Loc):
                        dest = fr.dest or Loc(('t', fr.id, 'ret'), ())
                        x2.copy_tree(v, dest)
                        v2 = dest
                    else:
                        v2 = v
                    x2.trace('%s: return' % self.where(s, fr))
                    outs.append(('r', v2, x2))
                else:
                    outs.append(('t', None, x2))
        return outs

    def cond(self, e, st, fr):
        """evaluate a condition -> ([true states],[false states],[throwing])"""
        t, f, x = [], [], []
        mark = len(st.temps)
        for v, s in self.ev(e, st, fr):
            for s2 in self.end_full(s, mark, fr):
                if s2.exc:
                    x.append(s2)
                    continue
                v2 = s2.norm(self.as_lin(v)) if v is not None else self.fresh('c', 'bool')
                a, b = self.split(to_bool(v2), s2, fr, e)
                t += a
                f += b
        return t, f, x

    def ex_If(self, s, st, fr):
        if s.get('consteval'):
            br = s['el'] if s['consteval'] == 1 else s['th']
            return self.exec(br, st, fr) if br else [('n', None, st)]
        mark = len(st.scope)
        outs = []
        cur = [st]
        for pre in ('init', 'var'):
            if s.get(pre):
                nxt = []
                for c in cur:
                    for kd, v, c2 in self.exec(s[pre], c, fr):
                        (nxt.append(c2) if kd == 'n' else outs.append((kd, v, c2)))
                cur = nxt
        for c in cur:
            t, f, x = self.cond(s['c'], c, fr)
            outs += [('t', None, y) for y in x]
            for y in t:
                outs += self.exec(s['th'], y, fr) if s.get('th') else [('n', None, y)]
            for y in f:
                outs += self.exec(s['el'], y, fr) if s.get('el') else [('n', None, y)]
        return self.unwind(outs, mark, fr)

    def ex_Switch(self, s, st, fr):
        mark = len(st.scope)
        outs = []
        cur = [st]
        for pre in ('init', 'var'):
            if s.get(pre):
                nxt = []
                for c in cur:
                    for kd, v, c2 in self.exec(s[pre], c, fr):
                        (nxt.append(c2) if kd == 'n' else outs.append((kd, v, c2)))
                cur = nxt
        body = s['body']
        stmts = body['s'] if body['k'] == 'Block' else [body]
        # flatten labels
        flat = []
        for x in stmts:
            labels = []
            while x and x['k'] in ('Case', 'Default'):
                labels.append(x)
                x = x['s']
            flat.append((labels, x))
        for c in cur:
            m2 = len(c.temps)
            for v, s1 in self.ev(s['c'], c, fr):
                for s2 in self.end_full(s1, m2, fr):
                    if s2.exc:
                        outs.append(('t', None, s2))
                        continue
                    v2 = s2.norm(self.as_lin(v))
                    todo = [s2]
                    default = None
                    for i, (labels, x) in enumerate(flat):
                        for lb in labels:
                            if lb['k'] == 'Default':
                                default = i
                                continue
                            nxt = []
                            for y in todo:
                                vv = y.norm(v2)
                                if lb['lo'] == lb['hi']:
                                    b = mk_eq0(vv - lb['lo'])
                                    t, f = self.split(b, y, fr, lb, ' (case)')
                                    for z in t:
                                        outs += self.switch_from(flat, i, z, fr)
                                    nxt += f
                                else:
                                    b1 = mk_ge0(vv - lb['lo'])
                                    t, f = self.split(b1, y, fr)
                                    nxt += f
                                    for z in t:
                                        t2, f2 = self.split(mk_ge0(-(z.norm(vv)) + lb['hi']), z, fr)
                                        nxt += f2
                                        for w in t2:
                                            outs += self.switch_from(flat, i, w, fr)
                            todo = nxt
                    for y in todo:
                        if default is not None:
                            y.trace('%s: default' % self.where(s, fr))
                            outs += self.switch_from(flat, default, y, fr)
                        else:
                            outs.append(('n', None, y))
        outs = self.unwind(outs, mark, fr)
        return [('n' if kd == 'b' else kd, v, x) for kd, v, x in outs]

    def switch_from(self, flat, i, st, fr):
        mark = len(st.scope)
        outs = []
        cur = [st]
        for labels, x in flat[i:]:
            if x is None:
                continue
            nxt = []
            for c in cur:
                for kd, v, c2 in self.exec(x, c, fr):
                    (nxt.append(c2) if kd == 'n' else outs.append((kd, v, c2)))
            cur = nxt
            if not cur:
                break
        outs += [('n', None, c) for c in cur]
        return self.unwind(outs, mark, fr)

    def ex_Try(self, s, st, fr):
        outs = []
        for kd, v, c in self.exec(s['body'], st, fr):
            if kd != 't':
                outs.append((kd, v, c))
                continue
            et = c.exc[0]
            handled = False
            todo = [c]
            for h in s['h']:
                m = self.catches(h['tt'], et)
                if m == 'no':
                    continue
                for y in todo:
                    z = y if m == 'yes' else y.copy()
                    ex = z.exc
                    z.exc = None
                    if h.get('d'):
                        hl = Loc(('v', fr.id, h['d']['id'], h['d'].get('n', '')), ())
                        if base_type(h['tt']).endswith('&'):
                            z.write(hl.root, hl.path, addr(ex[1], ex[2]))
                        else:
                            z.copy_tree(Loc(ex[1], ex[2]), hl)
                    cl = (('x', 'current'), ())
                    old = z.store.get(cl)
                    z.store[cl] = ex
                    z.trace('%s: exception %s caught' % (self.where(h, fr), et))
                    for o in self.exec(h['body'], z, fr):
                        if old is None:
                            o[2].store.pop(cl, None)
                        else:
                            o[2].store[cl] = old
                        outs.append(o)
                if m == 'yes':
                    handled = True
                    break
            if not handled:
                outs += [('t', None, y) for y in todo]
        return outs

    STDEXC = {'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::bad_alloc': 'std::exception', 'std::out_of_range': 'std::logic_error',
              'std::length_error': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::domain_error': 'std::logic_error', 'std::overflow_error': 'std::runtime_error',
              'std::range_error': 'std::runtime_error', 'std::bad_cast': 'std::exception', 'std::system_error': 'std::runtime_error', 'std::bad_function_call': 'std::exception',
              'std::bad_optional_access': 'std::exception', 'std::bad_variant_access': 'std::exception', 'std::bad_weak_ptr': 'std::exception', 'std::bad_any_cast': 'std::bad_cast',
              'std::ios_base::failure': 'std::system_error'}

    def catches(self, tt, et):
        if tt == '...':
            return 'yes'
        t = base_type(tt)
        if t.endswith('&'):
            t = base_type(t[:-1])
        if et == '...':
            return 'maybe'
        seen = set()
        todo = [et]
        while todo:
            x = todo.pop()
            if x == t:
                return 'yes'
            if x in seen:
                continue
            seen.add(x)
            if x in self.STDEXC:
                todo.append(self.STDEXC[x])
            elif x in self.p.cls:
                todo += self.p.cls[x]['bases']
        return 'no'

    # ------------------------------------------------------------ loops
    def ex_While(self, s, st, fr):
        return self.loop(s, st, fr, s.get('var'), s['c'], None, s['body'])

    def ex_Do(self, s, st, fr):
        return self.loop(s, st, fr, None, s['c'], None, s['body'], post=True)

    def ex_For(self, s, st, fr):
        mark = len(st.scope)
        outs = []
        cur = [st]
        if s.get('init'):
            cur = []
            for kd, v, c in self.exec(s['init'], st, fr):
                (cur.append(c) if kd == 'n' else outs.append((kd, v, c)))
        for c in cur:
            outs += self.loop(s, c, fr, s.get('var'), s.get('c'), s.get('inc'), s['body'])
        return self.unwind(outs, mark, fr)

    def ex_RFor(self, s, st, fr):
        mark = len(st.scope)
        outs = []
        cur = [st]
        for pre in ('init', 'range', 'begin', 'end'):
            if not s.get(pre):
                continue
            nxt = []
            for c in cur:
                for kd, v, c2 in self.exec(s[pre], c, fr):
                    (nxt.append(c2) if kd == 'n' else outs.append((kd, v, c2)))
            cur = nxt
        for c in cur:
            outs += self.loop(s, c, fr, None, s['c'], s['inc'], s['body'], lv=s['lv'])
        return self.unwind(outs, mark, fr)

    UNROLL = 40

    def loop_bounded(self, s, st, fr, var, cond, inc, body, post, lv):
        outs = []
        cur = [(st, 0)]
        first = post
        n = 0
        while cur:
            nxt = []
            for c, u in cur:
                if first:
                    nxt += [(y, u) for y in self.iteration(c, fr, inc, body, lv, outs, skipcond=True)]
                    continue
                t, f, x = self.loopcond(var, cond, c, fr)
                outs += [('n', None, y) for y in f] + [('t', None, y) for y in x]
                u2 = u + (1 if f or cond is None else 0)
                if u2 > self.bound or n > 60:
                    self.cut += len(t)
                    continue
                for y in t:
                    nxt += [(z, u2) for z in self.iteration(y, fr, inc, body, lv, outs)]
            first = False
            n += 1
            cur = nxt
            if len(cur) + len(outs) > self.max_states:
                raise Blowup('too many paths in loop')
        return outs

    def loop(self, s, st, fr, var, cond, inc, body, post=False, lv=None):
        if self.bound is not None:
            return self.loop_bounded(s, st, fr, var, cond, inc, body, post, lv)
        outs = []
        cur = [(st, 0)]
        # decided iterations are executed exactly; so are a few undecided ones where sizes are concrete
        first = post
        und_max = self.UNDECIDED if getattr(self.p, 'real', False) else 0
        n = 0
        while cur and n < self.UNROLL:
            nxt = []
            und = []
            for c, u in cur:
                if first or cond is None:
                    if cond is None and not first:
                        if u >= und_max:
                            und.append(c)
                            continue
                        u += 1
                    nxt += [(y, u) for y in self.iteration(c, fr, inc, body, lv, outs, skipcond=True)]
                    continue
                probe = c.copy()
                t, f, x = self.loopcond(var, cond, probe, fr)
                if var and not und_max or (x or (t and f)) and u >= und_max:
                    und.append(c)
                    continue
                outs += [('n', None, y) for y in f] + [('t', None, y) for y in x]
                if t and (f or x):
                    u += 1
                for y in t:
                    nxt += [(z, u) for z in self.iteration(y, fr, inc, body, lv, outs)]
            first = False
            for c in und:
                outs += self.loop_fix(s, c, fr, var, cond, inc, body, lv)
            cur = nxt
            n += 1
            if len(cur) > (200 if und_max else 30):
                break
        for c, _ in cur:
            outs += self.loop_fix(s, c, fr, var, cond, inc, body, lv)
        return self.limit(outs)

    UNDECIDED = 8

    def loopcond(self, var, cond, st, fr):
        if var:
            t, f, x = [], [], []
            for kd, v, c in self.exec(var, st, fr):
                if kd != 'n':
                    x.append(c)
                    continue
                a, b, d = self.cond(cond, c, fr)
                t += a
                f += b
                x += d
            return t, f, x
        if cond is None:
            return [st], [], []
        return self.cond(cond, st, fr)

    def iteration(self, st, fr, inc, body, lv, outs, skipcond=False):
        """body then increment -> back-edge states; other completions appended to outs"""
        res = []
        mark = len(st.scope)
        starts = [('n', None, st)]
        if lv:
            starts = self.exec(lv, st, fr)
        back = []
        comp = []
        for kd, v, c in starts:
            if kd == 'n':
                comp += self.exec(body, c, fr) if body else [('n', None, c)]
            else:
                comp.append((kd, v, c))
        comp = self.unwind(comp, mark, fr)
        for kd, v, c in comp:
            if kd in ('n', 'c'):
                back.append(c)
            elif kd == 'b':
                outs.append(('n', None, c))
            else:
                outs.append((kd, v, c))
        if inc:
            for c in back:
                m = len(c.temps)
                for v, c2 in self.ev_arg(inc, c, fr, None):
                    for c3 in self.end_full(c2, m, fr):
                        if c3.exc:
                            outs.append(('t', None, c3))
                        else:
                            res.append(c3)
        else:
            res = back
        return res

    def loop_fix(self, s, entry, fr, var, cond, inc, body, lv):
        regions = {}         # key -> loop atom (Lin) placeholder
        fields = set()
        subtrees = set()
        watermark = len(_atoms_ref())
        verwm = newver()[1]

        def isnew(a):
            k = kind(a)
            if k == 'fresh':
                return a >= watermark
            if k == 'init':
                tok = args(a)[2]
                return tok_newer(tok, verwm)
            return False
        cands = None
        entry_tr = entry.tr
        rounds = 0
        save_reqs = list(self.reqs)
        while True:
            rounds += 1
            self.loop_rounds += 1
            if rounds > 14:
                raise Blowup('loop does not stabilise at ' + self.where(s, fr))
            self.reqs = list(save_reqs)
            head = entry.copy()
            for fld in sorted(fields):
                if fld == '#heap':
                    head.heapver = newver()[1]
                    for k in [k for k in head.store if k[0][0] == '*' and not any(isinstance(q, str) for q in k[1])]:
                        del head.store[k]
                    continue
                for k in [k for k in head.store if k[0][0] == '*' and k[1] and k[1][-1] == fld or (k[1] and k[1][-1] == fld and k[0][0] in ('new',))]:
                    del head.store[k]
                head.fhav[fld] = newver()
            for (root, path) in sorted(subtrees, key=str):
                head.kill_tree(root, path, newver('L'))
            for key in list(regions):
                if any(key[0] == r and key[1][:len(p)] == p for r, p in subtrees):
                    del regions[key]
            for key, a in regions.items():
                head.store[key] = a
            head.trace('%s: loop (any iteration)' % self.where(s, fr))
            ok = True
            if cands:
                for c in cands:
                    if not head.assume_ge(head.norm(c)):
                        ok = False
            outs = []
            if not ok:
                cands = []
                continue
            t, f, x = self.loopcond(var, cond, head.copy(), fr)
            exits = [('n', None, y) for y in f] + [('t', None, y) for y in x]
            backs = []
            for y in t:
                backs += self.iteration(y, fr, inc, body, lv, outs)
            grew = False
            live = set(k for k in head.store) | set(k for k in entry.store)
            for b in backs:
                for key, v in b.store.items():
                    hv = head.store.get(key)
                    if hv is not None:
                        hv = b.norm(hv)
                    if hv == v:
                        continue
                    if key[0][0] == 't' or (key[0][0] == 'v' and not self.frame_alive(key[0][1], fr)):
                        continue
                    if key[0][0] == 'x':
                        continue
                    if key in regions or any(key[0] == r and key[1][:len(p)] == p for r, p in subtrees):
                        continue
                    if key not in entry.store and key[0][0] == 'v' and key[0][1] == fr.id and self.declared_inside(key[0][2], body, lv, var):
                        continue
                    if key[0][0] == 'new' and not any(k[0] == key[0] for k in entry.hav):
                        continue
                    if mentions((key[0],), isnew, {}):
                        fld = [p for p in key[1] if isinstance(p, str)]
                        if fld:
                            if fld[-1] not in fields:
                                fields.add(fld[-1])
                                grew = True
                        else:
                            if '#heap' not in fields:
                                fields.add('#heap')
                                grew = True
                        continue
                    cut = None
                    for i, p in enumerate(key[1]):
                        if isinstance(p, tuple) and mentions(p, isnew, {}):
                            cut = i
                            break
                    if cut is not None:
                        st_ = (key[0], key[1][:cut])
                        if st_ not in subtrees:
                            subtrees.add(st_)
                            grew = True
                        continue
                    # a cell generalises
                    if hv is None:
                        iv = b.norm(entry.initval(key[0], key[1], '')) if not any(isinstance(q, tuple) for q in key[1]) else None
                        e0 = entry.initval(key[0], key[1], '')
                        fl = flags_of(v)
                        if iv == v:
                            continue
                    else:
                        e0 = entry.store.get(key, hv)
                        fl = flags_of(e0) | flags_of(v)
                    if not isinstance(v, Lin):
                        continue
                    regions[key] = fresh('loop', ptr='ptr' in fl, uns='uns' in fl and 'ptr' not in fl, boolean='bool' in fl and not ({'uns', 'ptr'} & fl) and boolish_val(e0) and boolish_val(v), imp=False)
                    grew = True
                for pk, tok in b.hav.items():
                    if head.hav.get(pk) != tok:
                        if pk[0][0] == 't' or (pk[0][0] == 'v' and not self.frame_alive(pk[0][1], fr)) or pk[0][0] == 'new' and not any(k[0] == pk[0] for k in entry.hav):
                            continue
                        if pk[0][0] == 'v' and pk[0][1] == fr.id and self.declared_inside(pk[0][2], body, lv, var):
                            continue
                        if mentions(pk[0], isnew, {}):
                            continue
                        if any(pk[0] == r and pk[1][:len(p)] == p for r, p in subtrees):
                            continue
                        if pk in regions or pk in b.store and pk in entry.store:
                            continue
                        path = pk[1]
                        for i, p in enumerate(path):
                            if isinstance(p, tuple) and mentions(p, isnew, {}):
                                path = path[:i]
                                break
                        if (pk[0], path) not in subtrees:
                            subtrees.add((pk[0], path))
                            grew = True
                for fld in b.fhav:
                    if fld not in head.fhav or (b.fhav[fld] != head.fhav[fld]):
                        if fld not in fields:
                            fields.add(fld)
                            grew = True
            if grew:
                cands = None
                continue
            # relations
            if cands is None:
                cands = self.loop_candidates(entry, regions, backs, cond, head, var, fr)
                cands = [c for c in cands if entry.entails(entry.norm(self.inst(c, regions, entry)))]
                if cands:
                    continue
                break
            keep = []
            for c in cands:
                good = True
                for b in backs:
                    g = self.inst(b.norm_partial(c, regions) if False else c, regions, b)
                    if not b.entails(b.norm(g)):
                        good = False
                        break
                if good:
                    keep.append(c)
            if len(keep) == len(cands):
                break
            cands = keep
        return exits + outs

    def inst(self, c, regions, st):
        """candidate c over loop atoms, instantiated with the values in st"""
        m = {}
        for key, a in regions.items():
            aid = a.single()
            v = st.store.get(key)
            if v is None:
                v = st.initval(key[0], key[1], '')
            m[aid] = v
        out = K(c.c)
        for a, k in c.t:
            if a in m and isinstance(m[a], Lin):
                out = out + m[a].scale(k)
            else:
                out = out + Lin(0, ((a, k),))
        return out

    def loop_candidates(self, entry, regions, backs, cond, head, var, fr):
        cands = []
        info = []
        for key, a in regions.items():
            v0 = entry.store.get(key)
            if v0 is None:
                v0 = entry.initval(key[0], key[1], '')
            if not isinstance(v0, Lin):
                continue
            d = set()
            for b in backs:
                bv = b.store.get(key)
                hv = b.norm(a)
                x = (bv - hv) if isinstance(bv, Lin) else None
                d.add(x.c if x is not None and x.isconst() else None)
            cands.append(a - v0)
            cands.append(v0 - a)
            info.append((key, a, v0, next(iter(d)) if len(d) == 1 else None, d))
        for i in range(len(info)):
            for j in range(i + 1, len(info)):
                k1, a1, v1, d1, s1 = info[i]
                k2, a2, v2, d2, s2 = info[j]
                if d1 and d2 is not None and d2 != 0:
                    e = (a1 - v1).scale(d2) - (a2 - v2).scale(d1)
                    cands += [e, -e]
                elif len(info) <= 14:
                    for sgn in (1, -1):
                        e = (a1 - v1) - (a2 - v2).scale(sgn)
                        cands += [e, -e]
        # facts about entry values carried over
        m = {}
        for key, a, v0, d, s in info:
            sa = v0.t[0][0] if len(v0.t) == 1 and v0.t[0][1] == 1 else None
            if sa is not None:
                m.setdefault(sa, a - v0.c)
        if m:
            for f in entry.ge:
                g = subst_lin(f, m, {}) if any(x in m for x, _ in f.t) else None
                if g is not None and g != f:
                    cands.append(g)
        # relations suggested by the loop condition: the negated exit bound, weakened by one
        try:
            h2 = head.copy()
            t, f, x = self.loopcond(var, cond, h2, fr)
            base = set(head.ge)
            for y in t:
                for g in y.ge:
                    if g not in base:
                        cands.append(g + 1)
                        cands.append(g)
                        break
            for y in f + t:
                for g in y.ne:
                    if g not in head.ne:
                        cands.append(g)
                        cands.append(-g)
            if cond is not None and f:
                for y in f:
                    # equality exits i == n : candidate both orders
                    for (aid, v) in y.eqs.items():
                        if aid not in head.eqs and any(r.single() == aid for r in regions.values()):
                            e = lin(aid) - v
                            cands += [e, -e]
        except Blowup:
            pass
        # bounds against common entry values
        return list(dict.fromkeys(c for c in cands if not c.isconst()))[:120]

    def frame_alive(self, fid, fr):
        x = fr
        while x is not None:
            if x.id == fid:
                return True
            x = x.parent
        return False

    def declared_inside(self, vid, *nodes):
        c = getattr(self, '_decl', None)
        if c is None:
            c = self._decl = {}
        for n in nodes:
            if not n:
                continue
            key = id(n)
            if key not in c:
                acc = set()
                collect_decls(n, acc)
                c[key] = acc
            if vid in c[key]:
                return True
        return False


def flags_of(v):
    if not isinstance(v, Lin):
        return set()
    out = set()
    ptrs = 0
    for a, k in v.t:
        if flag(a, 'ptr'):
            out.add('ptr')
    if v.t and all(k > 0 and (flag(a, 'uns')) for a, k in v.t) and v.c >= 0:
        out.add('uns')
    if boolish_val(v):
        out.add('bool')
    return out


def boolish_val(v):
    return isinstance(v, Lin) and (isboolish(v) or (v.isconst() and v.c in (0, 1)))


def collect_decls(n, acc):
    if isinstance(n, dict):
        if n.get('k') == 'Decl':
            for v in n['vars']:
                acc.add(v['d'].get('id'))
        for v in n.values():
            collect_decls(v, acc)
    elif isinstance(n, list):
        for v in n:
            collect_decls(v, acc)


def tok_newer(tok, wm):
    if isinstance(tok, tuple):
        if tok and tok[0] == 'cp':
            return tok_newer(tok[3], wm)
        return any(tok_newer(x, wm) for x in tok)
    return isinstance(tok, int) and not isinstance(tok, bool) and tok > wm


def s3_norm(st, loc):
    if st.eqs:
        return subst_root_path(loc.root, loc.path, st.eqs, {})
    return loc.root, loc.path


def _atoms_ref():
    import dom
    return dom._atoms
