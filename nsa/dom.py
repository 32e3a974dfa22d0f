"""Value domain of the analyser.

Scalars (integers, booleans, enumerators, pointers in element units) are affine expressions over
interned atoms.  An atom is an unknown with an identity (the value a memory cell had on entry, the
address of a cell, an uninterpreted application, a fresh unknown of a widened loop ...).  Facts are
affine inequalities and disequalities; entailment is decided inside the polyhedral domain by
Fourier-Motzkin elimination on the connected facts, bounded in size (an elimination that grows too
large answers "not entailed").
"""
import math

# ---------------------------------------------------------------- atoms
_atoms = []          # id -> (kind, args)
_flags = []          # id -> frozenset of flags
_index = {}
_imp = {}            # id -> bool cached


def atom(kind, *args, ptr=False, uns=False, imp=False, boolean=False):
    key = (kind,) + args
    i = _index.get(key)
    if i is None:
        i = len(_atoms)
        _atoms.append(key)
        f = set()
        if ptr:
            f.add('ptr')
        if uns:
            f.add('uns')
        if imp:
            f.add('imp')
        if boolean:
            f.add('bool')
        _flags.append(frozenset(f))
        _index[key] = i
    return i


_fresh = [0]


def fresh(tag, ptr=False, uns=False, imp=False, boolean=False):
    _fresh[0] += 1
    return Lin(0, ((atom('fresh', tag, _fresh[0], ptr=ptr, uns=uns, imp=imp, boolean=boolean), 1),))


def kind(i):
    return _atoms[i][0]


def args(i):
    return _atoms[i][1:]


def flag(i, f):
    return f in _flags[i]


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def isconst(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            n = d.get(a, 0) + k
            if n:
                d[a] = n
            else:
                del d[a]
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(self.c * k, tuple((a, n * k) for a, n in self.t))

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + o.scale(-1)

    def single(self):
        """atom id if this is exactly one atom with coefficient 1 and no constant"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None

    def __repr__(self):
        return show(self)


ZERO = Lin(0)
ONE = Lin(1)


def K(n):
    return Lin(n)


def lin(a):
    return Lin(0, ((a, 1),))


def app(op, *a, ptr=False, uns=False, imp=False, boolean=False):
    return lin(atom('app', op, *a, ptr=ptr, uns=uns, imp=imp, boolean=boolean))


def fconst(v):
    """the Python float a value denotes when it is a floating-point constant, else None"""
    if v.c == 0 and not v.t:
        return 0.0
    if v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        a = _atoms[v.t[0][0]]
        if a[0] == 'app' and a[1] == 'float':
            try:
                return float(a[2])
            except ValueError:
                return None
    return None


def mk_float(x, t='double'):
    if t == 'float':
        import struct
        try:
            x = struct.unpack('f', struct.pack('f', x))[0]
        except OverflowError:
            x = float('inf') if x > 0 else float('-inf')
    return app('float', repr(float(x)))


# ---------------------------------------------------------------- locations: (root, path)
# root: ('v',frame,vid) ('t',frame,i) ('new',frame,i,k) ('g',q) ('o',name) ('*',Lin)
# path element: field string or ('[', Lin)

def addr(root, path):
    """pointer value that designates the location"""
    if root[0] == '*':
        if not path:
            return root[1]
        if len(path) == 1 and isinstance(path[0], tuple):
            return root[1] + path[0][1]
    if path and isinstance(path[-1], tuple):
        base = lin(atom('&', root, path[:-1] + (('[', ZERO),), ptr=True))
        return base + path[-1][1]
    return lin(atom('&', root, path, ptr=True))


def split_ptr(p):
    """-> (base atom id or None, offset Lin)"""
    cands = [a for a, k in p.t if k == 1 and flag(a, 'ptr')]
    if len(cands) == 1:
        b = cands[0]
        off = Lin(p.c, tuple(x for x in p.t if x[0] != b))
        return b, off
    if not cands and len(p.t) == 1 and p.t[0][1] == 1:
        return p.t[0][0], Lin(p.c)
    return None, None


def unvoid(p):
    """(T, p') when p is a T* with an offset that was converted to void*, else p itself"""
    if p.c == 0 and len(p.t) == 1 and p.t[0][1] == 1:
        a = _atoms[p.t[0][0]]
        if a[0] == 'app' and a[1] == 'void':
            return a[2], a[3]
    return p


def deref(p):
    """location a pointer value designates (None for null / absolute)"""
    q = unvoid(p)
    if q is not p:
        p = q[1]
    if p.isconst():
        return None
    b, off = split_ptr(p)
    if b is None:
        return (('*', p), ())
    if kind(b) == '&':
        root, path = args(b)
        if path and isinstance(path[-1], tuple):
            i = path[-1][1] + off
            return (root, path[:-1] + (('[', i),))
        if off == ZERO:
            return (root, path)
        return (root, path + (('[', off),))
    if off == ZERO:
        return (('*', lin(b)), ())
    return (('*', lin(b)), (('[', off),))


# ---------------------------------------------------------------- substitution on nested terms
def subst_lin(l, m, memo):
    if not l.t:
        return l
    ch = False
    out = K(l.c)
    for a, k in l.t:
        r = subst_atom(a, m, memo)
        if r is not None:
            ch = True
            out = out + r.scale(k)
        else:
            out = out + Lin(0, ((a, k),))
    return out if ch else l


def subst_any(x, m, memo):
    if isinstance(x, Lin):
        return subst_lin(x, m, memo)
    if isinstance(x, tuple):
        y = tuple(subst_any(z, m, memo) for z in x)
        return y if any(p is not q for p, q in zip(x, y)) else x
    return x


def subst_root_path(root, path, m, memo):
    nr = subst_any(root, m, memo)
    np = subst_any(path, m, memo)
    if nr is root and np is path:
        return root, path
    if nr[0] == '*' and nr is not root:
        d = deref(nr[1])
        if d is None:
            return ('null',), np
        if np and isinstance(np[0], tuple) and d[1] and isinstance(d[1][-1], tuple):
            return d[0], d[1][:-1] + (('[', d[1][-1][1] + np[0][1]),) + np[1:]
        return d[0], d[1] + np
    return nr, np


def subst_atom(a, m, memo):
    """None if unchanged else Lin"""
    if a in memo:
        return memo[a]
    if a in m:
        memo[a] = m[a]
        return m[a]
    memo[a] = None
    key = _atoms[a]
    k = key[0]
    r = None
    if k in ('&', 'init'):
        root, path = key[1], key[2]
        nr, np = subst_root_path(root, path, m, memo)
        if nr is not root or np is not path:
            if k == '&':
                r = addr(nr, np) if nr != ('null',) else K(0)
            else:
                fl = _flags[a]
                r = lin(atom('init', nr, np, *key[3:], ptr='ptr' in fl, uns='uns' in fl, boolean='bool' in fl))
    elif k in ('app', 'ge0', 'eq0'):
        na = tuple(subst_any(x, m, memo) for x in key[1:])
        if any(p is not q for p, q in zip(na, key[1:])):
            if k == 'ge0':
                r = mk_ge0(na[0])
            elif k == 'eq0':
                r = mk_eq0(na[0])
            else:
                fl = _flags[a]
                r = re_app(na, fl)
    memo[a] = r
    return r


def re_app(na, fl):
    op = na[0]
    if op == 'mul' and isinstance(na[1], Lin) and isinstance(na[2], Lin):
        return mul(na[1], na[2])
    if op == 'fdiv' and na[1].isconst():
        return K(na[1].c // na[2].c)
    return lin(atom('app', *na, ptr='ptr' in fl, uns='uns' in fl, imp='imp' in fl, boolean='bool' in fl))


def mentions(x, pred, memo):
    """does any atom (recursively) satisfy pred"""
    if isinstance(x, Lin):
        return any(mentions_atom(a, pred, memo) for a, _ in x.t)
    if isinstance(x, tuple):
        return any(mentions(y, pred, memo) for y in x)
    return False


def mentions_atom(a, pred, memo):
    r = memo.get(a)
    if r is None:
        memo[a] = False
        r = pred(a) or mentions(_atoms[a][1:], pred, memo)
        memo[a] = r
    return r


_impmemo = {}


def imprecise(x):
    return mentions(x, lambda a: 'imp' in _flags[a], _impmemo)


# ---------------------------------------------------------------- boolean constructors
def isbool_atom(a):
    return kind(a) in ('ge0', 'eq0') or flag(a, 'bool')


def mk_ge0(l):
    if l.isconst():
        return ONE if l.c >= 0 else ZERO
    g = 0
    for _, k in l.t:
        g = math.gcd(g, abs(k))
    if g > 1:
        l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
    if len(l.t) == 1 and isbool_atom(l.t[0][0]):
        a, k = l.t[0]
        lo, hi = (l.c, l.c + k) if k > 0 else (l.c + k, l.c)
        if lo >= 0:
            return ONE
        if hi < 0:
            return ZERO
        return lin(a) if k > 0 else ONE - lin(a)
    if l.t[0][1] < 0:
        return ONE - lin(atom('ge0', -l - 1, boolean=True))
    return lin(atom('ge0', l, boolean=True))


def mk_eq0(l):
    if l.isconst():
        return ONE if l.c == 0 else ZERO
    if l.t[0][1] < 0:
        l = -l
    # b == 0 / b == 1 on boolean atoms
    if len(l.t) == 1 and l.t[0][1] == 1 and isbool_atom(l.t[0][0]):
        if l.c == 0:
            return ONE - lin(l.t[0][0])
        if l.c == -1:
            return lin(l.t[0][0])
        return ZERO
    if len(l.t) == 1 and l.t[0][1] == 1 and kind(l.t[0][0]) in ('&', 'fn'):
        return ZERO
    return lin(atom('eq0', l, boolean=True))


def mk_not(b):
    if b.isconst():
        return ONE if b.c == 0 else ZERO
    if isboolish(b):
        return ONE - b
    return mk_eq0(b)


def isboolish(b):
    if len(b.t) == 1 and isbool_atom(b.t[0][0]):
        return (b.c, b.t[0][1]) in ((0, 1), (1, -1))
    return False


def to_bool(b):
    if b.isconst():
        return ONE if b.c != 0 else ZERO
    if isboolish(b):
        return b
    return ONE - mk_eq0(b)


def mul(a, b):
    if a.isconst():
        return b.scale(a.c)
    if b.isconst():
        return a.scale(b.c)
    x, y = sorted((a, b), key=lambda q: (q.c, q.t))
    return app('mul', x, y)


# ---------------------------------------------------------------- polyhedral entailment
def nonneg_atom(a):
    return flag(a, 'uns') or isbool_atom(a) or (kind(a) == '&')


def entails_ge(goal, facts, limit=160):
    """facts: iterable of Lin (each >= 0).  True if goal >= 0 follows."""
    if goal.isconst():
        return goal.c >= 0
    # quick syntactic
    if all(k > 0 and nonneg_atom(a) for a, k in goal.t) and goal.c >= 0:
        return True
    facts = list(facts)
    for f in facts:
        d = goal - f
        if d.isconst() and d.c >= 0:
            return True
    # connected component
    rel = {a for a, _ in goal.t}
    used = []
    rest = facts
    ch = True
    while ch:
        ch = False
        nxt = []
        for f in rest:
            if any(a in rel for a, _ in f.t):
                used.append(f)
                for a, _ in f.t:
                    if a not in rel:
                        rel.add(a)
                        ch = True
            else:
                nxt.append(f)
        rest = nxt
    if len(used) > 80:
        g = {a for a, _ in goal.t}
        used.sort(key=lambda f: (0 if any(a in g for a, _ in f.t) else 1, len(f.t)))
        used = used[:80]
    cons = [(f.c, dict(f.t)) for f in used]
    for a in rel:
        if nonneg_atom(a):
            cons.append((0, {a: 1}))
        if isbool_atom(a):
            cons.append((1, {a: -1}))
    neg = -goal - 1
    g = 0
    for _, k in neg.t:
        g = math.gcd(g, k)
    cons.append((neg.c, dict(neg.t)) if g <= 1 else (neg.c // g, {a: k // g for a, k in neg.t}))
    r = infeasible(cons, rel, limit)
    if r is None:
        # too much to eliminate: only the facts next to the goal
        near = {a for a, _ in goal.t}
        for _ in range(2):
            small = [c for c in cons if all(a in near for a in c[1])]
            if infeasible(small, {a for c in small for a in c[1]}, limit):
                return True
            near = near | {a for c in cons if len(c[1]) <= 3 and any(a in near for a in c[1]) for a in c[1]}
        small = [c for c in cons if all(a in near for a in c[1])]
        r = len(small) < len(cons) and infeasible(small, {a for c in small for a in c[1]}, limit)
    return bool(r)


def infeasible(cons, atoms_, limit=160):
    """cons: list of (c, {a:k}) meaning c + sum >= 0. True if no rational solution found."""
    todo = set(atoms_)
    cur = cons
    seen = None
    while True:
        for c, t in cur:
            if not t and c < 0:
                return True
        # choose the atom with the smallest product
        best = None
        cnt = {}
        for c, t in cur:
            for a, k in t.items():
                p = cnt.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not cnt:
            return False
        best = min(cnt, key=lambda a: (cnt[a][0] * cnt[a][1] - cnt[a][0] - cnt[a][1], a))
        pos, negs, oth = [], [], []
        for c, t in cur:
            k = t.get(best)
            if k is None:
                oth.append((c, t))
            elif k > 0:
                pos.append((c, t, k))
            else:
                negs.append((c, t, k))
        if len(pos) * len(negs) + len(oth) > limit:
            return None
        new = {}
        for c, t in oth:
            key = tuple(sorted(t.items()))
            if key not in new or c < new[key]:
                new[key] = c
        for c1, t1, k1 in pos:
            for c2, t2, k2 in negs:
                m1, m2 = -k2, k1
                c = c1 * m1 + c2 * m2
                t = {a: k * m1 for a, k in t1.items()}
                for a, k in t2.items():
                    n = t.get(a, 0) + k * m2
                    if n:
                        t[a] = n
                    else:
                        t.pop(a, None)
                t.pop(best, None)
                if t:
                    g = 0
                    for k in t.values():
                        g = math.gcd(g, abs(k))
                    if g > 1:
                        t = {a: k // g for a, k in t.items()}
                        c = c // g      # integer tightening
                elif c < 0:
                    return True
                else:
                    continue
                key = tuple(sorted(t.items()))
                if key not in new or c < new[key]:
                    new[key] = c
        cur = [(c, dict(k)) for k, c in new.items()]


# ---------------------------------------------------------------- printing
def show(l, depth=0):
    if not isinstance(l, Lin):
        return str(l)
    if depth > 3:
        return '..'
    parts = []
    for a, k in l.t:
        s = show_atom(a, depth)
        if k == 1:
            parts.append('+' + s)
        elif k == -1:
            parts.append('-' + s)
        else:
            parts.append('%+d*%s' % (k, s))
    if l.c or not parts:
        parts.append('%+d' % l.c)
    s = ' '.join(parts)
    return s[1:] if s.startswith('+') else s


def show_loc(root, path, depth=0):
    if root[0] == '*':
        s = '*(' + show(root[1], depth + 1) + ')'
    elif root[0] == 'v':
        s = root[3] if len(root) > 3 else 'v%s' % root[2]
    elif root[0] in ('g', 'o'):
        s = str(root[1])
    else:
        s = root[0] + '#' + '.'.join(str(x) for x in root[2:])
    for p in path:
        if isinstance(p, tuple) and p and p[0] == '[':
            s += '[' + show(p[1], depth + 1) + ']'
        else:
            s += '.' + str(p).split('::')[-1]
    return s


def show_atom(a, depth=0):
    key = _atoms[a]
    k = key[0]
    if k == 'init':
        return 'old(' + show_loc(key[1], key[2], depth + 1) + ')' + ('' if not key[3:] or key[3] in (None, 0) else "'%s" % (key[3][-1] if isinstance(key[3], tuple) else key[3],))
    if k == '&':
        return '&' + show_loc(key[1], key[2], depth + 1)
    if k == 'fresh':
        return '%s~%d' % (key[1], key[2])
    if k == 'ge0':
        return '(' + show(key[1], depth + 1) + '>=0)'
    if k == 'eq0':
        return '(' + show(key[1], depth + 1) + '==0)'
    if k == 'app':
        return str(key[1]) + '(' + ','.join(show(x, depth + 1) for x in key[2:]) + ')'
    return k + ':' + ','.join(show(x, depth + 1) for x in key[1:])
