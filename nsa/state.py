"""Abstract state: a store from access paths to affine values, plus path facts."""
import math
from dom import *
from collections import namedtuple

Loc = namedtuple('Loc', 'root path')


def base_type(t):
    t = t.strip()
    while True:
        if t.startswith('const '):
            t = t[6:]
        elif t.startswith('volatile '):
            t = t[9:]
        elif t.endswith(' const'):
            t = t[:-6]
        elif t.endswith('*const'):
            t = t[:-5]
        else:
            return t.strip()


UNSIGNED = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64, 'unsigned long long': 64,
            'char8_t': 8, 'char16_t': 16, 'char32_t': 32}
SIGNED = {'signed char': 8, 'char': 8, 'short': 16, 'int': 32, 'long': 64, 'long long': 64, 'wchar_t': 32}


def tflags(t):
    t = base_type(t or '')
    return {'ptr': t.endswith('*') or t.endswith('&'), 'uns': t in UNSIGNED, 'boolean': t == 'bool'}


def isfloat(t):
    return base_type(t or '') in ('float', 'double', 'long double')


_ver = [0]


def newver(kind='n'):
    _ver[0] += 1
    return (kind, _ver[0])


IMPVER = ('a', 'sd', 'op', 'mv')


def imptok(tok):
    """content lost by the analysis, as opposed to content that is arbitrary"""
    while isinstance(tok, tuple):
        if tok and tok[0] == 'cp':
            tok = tok[3]
        elif tok and isinstance(tok[0], tuple):
            tok = tok[0]
        else:
            return bool(tok) and tok[0] in IMPVER
    return False


def strconst(root, path):
    """a character of a string literal"""
    if path and isinstance(path[-1], tuple) and path[-1][0] == '[':
        i = path[-1][1]
        if i.isconst() and 0 <= i.c <= len(root[1]):
            return K(ord(root[1][i.c]) if i.c < len(root[1]) else 0)
    return None


HEAPROOTS = ('*', 'g')


class St:
    __slots__ = ('store', 'hav', 'fhav', 'heapver', 'ge', 'ne', 'eqs', 'scope', 'temps', 'ev', 'tr', 'exc', 'dyn', 'ret', 'imp')

    def __init__(self):
        self.store = {}
        self.hav = {}
        self.fhav = {}
        self.heapver = 0
        self.ge = ()
        self.ne = ()
        self.eqs = {}
        self.scope = ()
        self.temps = ()
        self.ev = None
        self.tr = None
        self.exc = None
        self.dyn = {}
        self.ret = None
        self.imp = False

    def copy(self):
        n = St.__new__(St)
        n.store = dict(self.store)
        n.hav = dict(self.hav)
        n.fhav = dict(self.fhav) if self.fhav else {}
        n.heapver = self.heapver
        n.ge = self.ge
        n.ne = self.ne
        n.eqs = dict(self.eqs)
        n.scope = self.scope
        n.temps = self.temps
        n.ev = self.ev
        n.tr = self.tr
        n.exc = self.exc
        n.dyn = dict(self.dyn)
        n.ret = self.ret
        n.imp = self.imp
        return n

    # ---- memory
    def token(self, root, path):
        tok = 0
        hav = self.hav
        for i in range(len(path), -1, -1):
            t = hav.get((root, path[:i]))
            if t is not None:
                return t, i
        return (('h', self.heapver) if self.heapver and root[0] in HEAPROOTS else 0), 0

    def initval(self, root, path, t):
        if root[0] == 'str':
            v = strconst(root, path)
            if v is not None:
                return v
        tok, i = self.token(root, path)
        if isinstance(tok, tuple):
            if tok[0] == 'zero':
                return ZERO
            if tok[0] == 'cp':
                if tok[1][0] == 'str':
                    v = strconst(tok[1], tok[2] + path[i:])
                    if v is not None:
                        return v
                if imptok(tok):
                    return lin(atom('init', tok[1], tok[2] + path[i:], tok[3], imp=True, **tflags(t)))
                return lin(atom('init', tok[1], tok[2] + path[i:], tok[3], **tflags(t)))
        if self.fhav and path and isinstance(path[-1], str) and path[-1] in self.fhav:
            tok = (tok, self.fhav[path[-1]])
        if imptok(tok):
            return lin(atom('init', root, path, tok, imp=True, **tflags(t)))
        return lin(atom('init', root, path, tok, **tflags(t)))

    def read(self, root, path, t=''):
        v = self.store.get((root, path))
        if v is not None:
            return v
        for i, p in enumerate(path):
            if isinstance(p, tuple) and p[0] == '[':
                if self.mayalias(root, path):
                    return fresh('elem', imp=True, **tflags(t))
                break
        v = self.initval(root, path, t)
        if self.eqs:
            v = self.norm(v)
        return v

    def mayalias(self, root, path):
        for (r, p) in self.store:
            if r == root and len(p) == len(path) and p != path:
                if self.paths_may_equal(p, path):
                    return True
        return False

    def paths_may_equal(self, p, q):
        for x, y in zip(p, q):
            if x == y:
                continue
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == '[' and y[0] == '[':
                d = x[1] - y[1]
                if d.isconst():
                    return False
                if self.entails(d - 1) or self.entails(-d - 1) or d in self.ne or -d in self.ne:
                    return False
                continue
            return False
        return True

    def write(self, root, path, v):
        if any(isinstance(p, tuple) for p in path):
            kill = [k for k in self.store if k[0] == root and k[1] != path and len(k[1]) >= len(path) and self.paths_may_equal(k[1][:len(path)], path) and k[1][:len(path)] != path]
            for k in kill:
                del self.store[k]
                self.hav[k] = newver('a')
        self.store[(root, path)] = v

    def kill_tree(self, root, path, tok):
        n = len(path)
        for k in [k for k in self.store if k[0] == root and k[1][:n] == path]:
            del self.store[k]
        for k in [k for k in self.hav if k[0] == root and k[1][:n] == path]:
            del self.hav[k]
        if tok is not None:
            self.hav[(root, path)] = tok

    def drop_root(self, root):
        for k in [k for k in self.store if k[0] == root]:
            del self.store[k]
        for k in [k for k in self.hav if k[0] == root]:
            del self.hav[k]
        for k in [k for k in self.dyn if k[0] == root]:
            del self.dyn[k]

    def copy_tree(self, src, dst):
        sr, sp = src
        dr, dp = dst
        if src == dst:
            return
        n = len(sp)
        ents = [(k[1][n:], v) for k, v in self.store.items() if k[0] == sr and k[1][:n] == sp]
        havs = [(k[1][n:], v) for k, v in self.hav.items() if k[0] == sr and len(k[1]) > n and k[1][:n] == sp]
        tok, i = self.token(sr, sp)
        self.kill_tree(dr, dp, None)
        if isinstance(tok, tuple) and tok[0] in ('zero',):
            self.hav[(dr, dp)] = tok
        elif isinstance(tok, tuple) and tok[0] == 'cp':
            self.hav[(dr, dp)] = ('cp', tok[1], tok[2] + sp[i:], tok[3])
        else:
            self.hav[(dr, dp)] = ('cp', sr, sp, tok)
        for rest, v in havs:
            self.hav[(dr, dp + rest)] = v
        for rest, v in ents:
            self.store[(dr, dp + rest)] = v
        for k, v in [(k[1][n:], v) for k, v in self.dyn.items() if k[0] == sr and len(k[1]) > n and k[1][:n] == sp]:
            self.dyn.setdefault((dr, dp + k), v)

    # ---- facts
    def norm(self, l):
        if self.eqs:
            return subst_any(l, self.eqs, {})
        return l

    def entails(self, l):
        if l.isconst():
            return l.c >= 0
        return entails_ge(l, self.ge)

    def decide(self, b):
        """truth of a boolean value under the facts: True / False / None"""
        if b.isconst():
            return b.c != 0
        b = to_bool(b)
        if b.isconst():
            return b.c != 0
        a = b.t[0][0]
        pos = b.c == 0
        r = self.decide_atom(a)
        if r is None:
            return None
        return r if pos else not r

    def decide_atom(self, a):
        k = kind(a)
        if k == 'ge0':
            l, neg = canon_order(args(a)[0])
            if self.entails(l):
                return not neg
            if self.entails(-l - 1):
                return neg
            return None
        if k == 'eq0':
            l = args(a)[0]
            r = self.decide_eq(l)
            return r
        return None

    def decide_eq(self, l):
        if l.isconst():
            return l.c == 0
        if l in self.ne or -l in self.ne:
            return False
        if distinct_addr(l):
            return False
        up = self.entails(l)
        dn = self.entails(-l)
        if up and dn:
            return True
        if up and self.entails(l - 1):
            return False
        if dn and self.entails(-l - 1):
            return False
        if not up and not dn:
            if self.entails(l - 1) or self.entails(-l - 1):
                return False
        return None

    def assume(self, b, truth):
        """-> False if contradictory"""
        d = self.decide(b)
        if d is not None:
            return d == truth
        b = to_bool(b)
        a = b.t[0][0]
        pos = (b.c == 0)
        if not pos:
            truth = not truth
        k = kind(a)
        if k == 'ge0':
            l, neg = canon_order(args(a)[0])
            ok = self.assume_ge(l if truth != neg else -l - 1)
        elif k == 'eq0':
            l = args(a)[0]
            ok = self.assume_eq(l) if truth else self.assume_ne(l)
        else:
            ok = True
        if ok:
            self.subst({a: ONE if truth else ZERO})
        return ok

    def assume_ge(self, l):
        if l.isconst():
            return l.c >= 0
        if self.entails(l):
            return True
        if self.entails(-l - 1):
            return False
        for n in self.ne:
            if n == l or -n == l:
                return self.assume_ge(l - 1)
        g = 0
        for _, k in l.t:
            g = math.gcd(g, k)
        if g > 1:
            l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
        self.ge = self.ge + (l,)
        if self.entails(-l):
            return self.assume_eq(l)
        return True

    def assume_ne(self, l):
        d = self.decide_eq(l)
        if d is not None:
            return not d
        if len(l.t) == 2 and all(isbool_atom(a) for a, _ in l.t):
            (a, k), (b, m) = l.t
            if abs(k) == abs(m) == 1 and ((k != m and l.c == 0) or (k == m and l.c == -k)):
                v, w = (a, b) if kind(a) not in ('ge0', 'eq0') else (b, a)
                if kind(v) not in ('ge0', 'eq0') and not mentions_atom(w, lambda z: z == v, {}):
                    return self.subst({v: Lin(1, ((w, -1),)) if k != m else Lin(0, ((w, 1),))})
        self.ne = self.ne + (l,)
        if self.entails(l):
            return self.assume_ge(l - 1)
        if self.entails(-l):
            return self.assume_ge(-l - 1)
        return True

    def assume_eq(self, l):
        d = self.decide_eq(l)
        if d is False:
            return False
        if l.isconst():
            return l.c == 0
        if len(l.t) == 1 and isbool_atom(l.t[0][0]):
            a, k = l.t[0]
            if -l.c == 0:
                return self.subst({a: ZERO})
            if -l.c == k:
                return self.subst({a: ONE})
            return False
        # choose an atom to eliminate
        best = None
        if len(l.t) == 2 and all(isbool_atom(a) for a, _ in l.t) and {abs(k) for _, k in l.t} == {1}:
            # b == b' or b == 1 - b'
            (a, k), (b, m) = l.t
            if (k != m and l.c == 0) or (k == m and l.c == -k):
                v, w = (a, b) if kind(a) not in ('ge0', 'eq0') else (b, a)
                if kind(v) not in ('ge0', 'eq0') and not mentions_atom(w, lambda z: z == v, {}):
                    return self.subst({v: Lin(0, ((w, 1),)) if k != m else Lin(1, ((w, -1),))})
        for a, k in l.t:
            if k in (1, -1) and kind(a) not in ('&', 'fn', 'str') and not isbool_atom(a):
                restm = {}
                occurs = any(b != a and mentions_atom(b, lambda z: z == a, restm) for b, _ in l.t)
                if not occurs and (best is None or rank(a) > rank(best)):
                    best = a
        if best is None:
            self.ge = self.ge + (l, -l)
            return True
        k = dict(l.t)[best]
        rest = Lin(l.c, tuple(x for x in l.t if x[0] != best))
        val = -rest if k == 1 else rest
        return self.subst({best: val})

    def subst(self, m):
        memo = {}

        def sb(x):
            return subst_any(x, m, memo)
        self.eqs = {a: sb(v) for a, v in self.eqs.items()}
        self.eqs.update(m)
        ns = {}
        imps = False
        for (r, p), v in self.store.items():
            nv = sb(v)
            nr, np = subst_root_path(r, p, m, memo)
            key = (nr, np)
            if key in ns and ns[key] != nv:
                # two cells turned out to be one: keep a written value over an entry value
                o = ns[key]
                iv = self.initval(nr, np, '')
                if o == iv:
                    ns[key] = nv
                elif nv != iv:
                    ns[key] = fresh('alias', imp=True)
            else:
                ns[key] = nv
        self.store = ns
        nh = {}
        for (r, p), v in self.hav.items():
            nr, np = subst_root_path(r, p, m, memo)
            nh[(nr, np)] = sb(v) if v and v[0] == 'cp' else v
        self.hav = nh
        nd = {}
        for (r, p), v in self.dyn.items():
            nd[subst_root_path(r, p, m, memo)] = v
        self.dyn = nd
        self.temps = sb(self.temps)
        self.scope = sb(self.scope)
        if self.exc:
            self.exc = sb(self.exc)
        ge = self.ge
        ne = self.ne
        self.ge = ()
        self.ne = ()
        new = []
        for f in ge:
            g = sb(f)
            if g.isconst():
                if g.c < 0:
                    return False
                continue
            new.append(g)
        self.ge = tuple(dict.fromkeys(new))
        for f in ne:
            g = sb(f)
            if g.isconst():
                if g.c == 0:
                    return False
                continue
            if g is f:
                self.ne = self.ne + (g,)
            elif not self.assume_ne(g):
                return False
        # a pair f >= 0, -f >= 0 that appeared
        s = set(self.ge)
        for f in self.ge:
            if -f in s and not f.isconst():
                if any(k in (1, -1) and kind(a) not in ('&', 'fn', 'str') and not isbool_atom(a) for a, k in f.t):
                    self.ge = tuple(x for x in self.ge if x != f and x != -f)
                    return self.assume_eq(f)
        return True

    def event(self, *e):
        self.ev = (self.ev, e)

    def events(self):
        out = []
        e = self.ev
        while e:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def trace(self, s):
        self.tr = (self.tr, s)

    def traces(self):
        out = []
        e = self.tr
        while e:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


def rank(a):
    k = kind(a)
    base = {'fresh': 3, 'init': 2, 'app': 1}.get(k, 0)
    return (base, a)


def obj_of(a):
    """(root, path) for an address atom"""
    return args(a) if kind(a) == '&' else None


def canon_order(l):
    """the order of addresses in two distinct objects does not depend on the offsets: (canonical difference, negated)"""
    if len(l.t) == 2:
        (a, k), (b, j) = l.t
        if k == -j and abs(k) == 1 and kind(a) == '&' and kind(b) == '&':
            oa, ob = obj_of(a), obj_of(b)
            if oa is not None and ob is not None and oa[0] != ob[0] and oa[0][0] != '*' and ob[0][0] != '*':
                if k == -1:
                    oa, ob = ob, oa
                # l >= 0  <=>  A > B
                if repr(oa[0]) < repr(ob[0]):
                    return addr(oa[0], ('#order',)) - addr(ob[0], ('#order',)) - 1, False
                return addr(ob[0], ('#order',)) - addr(oa[0], ('#order',)) - 1, True
    return l, False


def distinct_addr(l):
    """l is a difference that cannot be zero for address reasons"""
    addr_atoms = [(a, k) for a, k in l.t if kind(a) in ('&', 'fn', 'str')]
    if len(l.t) == 1 and len(addr_atoms) == 1:
        # &x + c == 0 : an address is not null
        a, k = l.t[0]
        return abs(k) == 1 and l.c <= 0 if k == 1 else l.c >= 0
    if len(l.t) == 2:
        (a, k), (b, j) = l.t
        if k == -j and abs(k) == 1:
            if len(addr_atoms) == 2:
                oa, ob = obj_of(a), obj_of(b)
                if oa is None or ob is None:
                    return kind(a) != kind(b) or l.c == 0
                if oa[0] != ob[0]:
                    # distinct objects; one-past-end addresses are only compared in the same object
                    if oa[0][0] == '*' and ob[0][0] == '*':
                        return False if not (oa[0][1] - ob[0][1]).isconst() else True
                    return True
                # same root, different paths
                pa, pb = oa[1], ob[1]
                for x, y in zip(pa, pb):
                    if x != y:
                        if isinstance(x, tuple) and isinstance(y, tuple):
                            return (x[1] - y[1]).isconst() and x[1] != y[1]
                        return True
                return False
            if len(addr_atoms) == 1:
                o = addr_atoms[0][0]
                other = b if o == a else a
                if kind(o) == '&':
                    root = args(o)[0]
                    # the address of a local, temporary or newly allocated object differs from any pre-existing pointer
                    if root[0] in ('v', 't', 'new') and kind(other) == 'init':
                        r2 = args(other)[0]
                        tok = args(other)[2]
                        if tok == 0 and r2[0] in ('*', 'g', 'o', 'v'):
                            return True
    return False
