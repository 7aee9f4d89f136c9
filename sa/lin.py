"""Atoms, linear expressions and the linear-inequality part of the abstract domain.

Entailment is Fourier-Motzkin elimination over the (small) set of facts relevant to the question:
the usual inclusion test of the polyhedra abstract domain, implemented here, no external solver."""
from math import gcd
import itertools


class Atom:
    __slots__ = ('id', 'kind', 'key', 'name', 'w', 'lo', 'hi', 'pt', 'ty', 'axioms', 'meta')
    _n = itertools.count()

    def __init__(self, kind, key, name, w=64, lo=None, hi=None):
        self.id = next(Atom._n); self.kind = kind; self.key = key; self.name = name
        self.w = w; self.lo = lo; self.hi = hi
        self.pt = None        # DI type (record) this atom points to, when it is a pointer
        self.ty = None        # DI type of the value
        self.axioms = ()
        self.meta = None

    def __repr__(self):
        return self.name


class Lin:
    __slots__ = ('t', 'c', '_h')

    def __init__(self, t, c=0):
        self.t = t; self.c = c; self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((frozenset((a.id, k) for a, k in self.t.items()), self.c))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o)
        if not o.t:
            return Lin(self.t, self.c + o.c)
        t = dict(self.t)
        for a, k in o.t.items():
            v = t.get(a, 0) + k
            if v:
                t[a] = v
            else:
                t.pop(a, None)
        return Lin(t, self.c + o.c)

    def __neg__(self):
        return Lin({a: -k for a, k in self.t.items()}, -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c - o)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        return Lin({a: v * k for a, v in self.t.items()}, self.c * k)

    def is_const(self):
        return not self.t

    def atoms(self):
        return self.t.keys()

    def single(self):
        """the atom if this is exactly 1*atom + 0"""
        if self.c == 0 and len(self.t) == 1:
            (a, k), = self.t.items()
            if k == 1:
                return a
        return None

    def subst(self, m):
        """m: Atom -> Lin"""
        hit = [a for a in self.t if a in m]
        if not hit:
            return self
        r = Lin({a: k for a, k in self.t.items() if a not in m}, self.c)
        for a in hit:
            r = r + m[a].scale(self.t[a])
        return r

    def __repr__(self):
        s = ''
        for a, k in sorted(self.t.items(), key=lambda x: x[0].id):
            s += ('%s%s' % ('+' if k > 0 else '-', '' if abs(k) == 1 else '%d*' % abs(k))) + a.name
        if self.c or not s:
            s += '%+d' % self.c
        return s.lstrip('+')


ZERO = Lin({}, 0)
ONE = Lin({}, 1)


def const(c):
    return Lin({}, c)


def lin(a):
    return Lin({a: 1}, 0)


# ---- conditions -------------------------------------------------------------------------------
# ('T',) ('F',) ('ge0',Lin) ('eq0',Lin) ('ne0',Lin) ('and',(c..)) ('or',(c..)) 
T = ('T',); F = ('F',)


def ge0(l):
    if not l.t:
        return T if l.c >= 0 else F
    g = 0
    for k in l.t.values():
        g = gcd(g, abs(k))
    if g > 1:
        l = Lin({a: k // g for a, k in l.t.items()}, l.c // g)   # floor: integer tightening
    return ('ge0', l)


def _norm_eq(l):
    if l.t:
        a = min(l.t, key=lambda x: x.id)
        if l.t[a] < 0:
            l = -l
    return l


def eq0(l):
    if not l.t:
        return T if l.c == 0 else F
    return ('eq0', _norm_eq(l))


def ne0(l):
    if not l.t:
        return F if l.c == 0 else T
    return ('ne0', _norm_eq(l))


def cand(*cs):
    r = []
    for c in cs:
        if c == F:
            return F
        if c == T:
            continue
        r.extend(c[1] if c[0] == 'and' else [c])
    return T if not r else r[0] if len(r) == 1 else ('and', tuple(r))


def cor(*cs):
    r = []
    for c in cs:
        if c == T:
            return T
        if c == F:
            continue
        r.extend(c[1] if c[0] == 'or' else [c])
    return F if not r else r[0] if len(r) == 1 else ('or', tuple(r))


def cnot(c):
    k = c[0]
    if k == 'T':
        return F
    if k == 'F':
        return T
    if k == 'ge0':
        return ge0(-c[1] - 1)
    if k == 'eq0':
        return ('ne0', c[1])
    if k == 'ne0':
        return ('eq0', c[1])
    if k == 'and':
        return cor(*[cnot(x) for x in c[1]])
    return cand(*[cnot(x) for x in c[1]])


# ---- entailment -------------------------------------------------------------------------------
MAXROWS = 160


def _bounds(a):
    r = []
    if a.lo is not None:
        r.append(Lin({a: 1}, -a.lo))
    if a.hi is not None:
        r.append(Lin({a: -1}, a.hi))
    r.extend(a.axioms)
    return r


def relevant(facts, seed, maxdepth=6):
    """rows connected to the atoms in seed"""
    atoms = set(seed); rows = set(); work = set(seed)
    fl = list(facts)
    for _ in range(maxdepth):
        new = set()
        for a in work:
            for b in _bounds(a):
                if b not in rows:
                    rows.add(b)
                    new |= set(b.t) - atoms
        for f in fl:
            if f not in rows and any(a in atoms for a in f.t):
                rows.add(f)
                new |= set(f.t) - atoms
        if not new:
            break
        atoms |= new; work = new
    return rows, atoms


def infeasible(rows):
    """True if the conjunction of rows (each >= 0) is contradictory (over Q, with integer tightening)."""
    rows = {_tight(r) for r in rows}
    n = 0
    while True:
        for r in rows:
            if not r.t and r.c < 0:
                return True
        rows = {r for r in rows if r.t}
        if not rows:
            return False
        # choose the variable with the least fill-in
        cnt = {}
        for r in rows:
            for a, k in r.t.items():
                p = cnt.setdefault(a, [0, 0]); p[0 if k > 0 else 1] += 1
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x.id))
        pos = [r for r in rows if r.t.get(a, 0) > 0]
        neg = [r for r in rows if r.t.get(a, 0) < 0]
        rest = {r for r in rows if a not in r.t}
        for p in pos:
            for q in neg:
                kp = p.t[a]; kq = -q.t[a]
                g = gcd(kp, kq)
                r = _tight(p.scale(kq // g) + q.scale(kp // g))
                if not r.t:
                    if r.c < 0:
                        return True
                else:
                    rest.add(r)
        # drop rows dominated by an identical left-hand side
        best = {}
        for r in rest:
            k = frozenset((x.id, v) for x, v in r.t.items())
            if k not in best or best[k].c > r.c:
                best[k] = r
        rows = set(best.values())
        n += 1
        if len(rows) > MAXROWS or n > 60:
            return False


def _tight(l):
    if not l.t:
        return l
    g = 0
    for k in l.t.values():
        g = gcd(g, abs(k))
    if g > 1:
        return Lin({a: k // g for a, k in l.t.items()}, l.c // g)
    return l
