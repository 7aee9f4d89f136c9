"""Path-sensitive abstract interpreter (property simulation) over the SSA form of /repo's sources.

Nothing is executed: values are linear expressions over symbolic atoms, conditions refine a set of linear
facts, calls to functions of the repository are analysed in place (so a helper that is extracted or inlined
makes no difference), library functions are modelled, loops are taken to a fixpoint over generalised header
states, and paths that agree on the tracked typestate are merged.  Rules observe calls, loads and stores."""
import itertools, re, time
from .lin import *
from . import lin as L
from .ir import Type


import os
DBG = os.environ.get('SA_DBG')


class Budget(Exception):
    pass


class Tup(tuple):
    pass


_uniq = itertools.count(1)


class State:
    __slots__ = ('env', 'mem', 'sub', 'facts', 'ne', 'ts', 'ver', 'gver', 'trace', 'exc', 'nheap', 'fills')

    def __init__(self):
        self.env = {}; self.mem = {}; self.sub = {}; self.facts = frozenset(); self.ne = frozenset()
        self.ts = {}; self.ver = {}; self.gver = 0; self.trace = None; self.exc = None; self.nheap = 0; self.fills = ()

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env); s.mem = dict(self.mem); s.sub = self.sub; s.facts = self.facts; s.ne = self.ne
        s.ts = dict(self.ts); s.ver = self.ver; s.gver = self.gver; s.trace = self.trace; s.exc = self.exc
        s.nheap = self.nheap; s.fills = self.fills
        return s

    def note(self, msg):
        self.trace = (msg, self.trace)

    def path(self, n=40):
        r = []; t = self.trace
        while t and len(r) < n:
            r.append(t[0]); t = t[1]
        return r[::-1]

    # -- values
    def res(self, v):
        if isinstance(v, Lin):
            if v.t and self.sub:
                v = v.subst(self.sub)
            return v
        return v

    def rescond(self, c):
        k = c[0]
        if k in 'TF':
            return c
        if k in ('and', 'or'):
            return (cand if k == 'and' else cor)(*[self.rescond(x) for x in c[1]])
        l = c[1].subst(self.sub) if self.sub else c[1]
        # decode booleans that were materialised as integers
        if len(l.t) == 1:
            (a, q), = l.t.items()
            if a.kind == 'b2i' and q in (1, -1):
                if k in ('eq0', 'ne0'):
                    v = -l.c * q     # a == v ?
                    if v == 0:
                        d = cnot(a.meta)
                    elif v == 1:
                        d = a.meta
                    else:
                        d = F
                    if k == 'ne0':
                        d = cnot(d)
                    return self.rescond(d)
                if k == 'ge0':       # q*a + c >= 0
                    t1 = q + l.c >= 0; t0 = l.c >= 0
                    d = T if t1 and t0 else F if not t1 and not t0 else a.meta if t1 else cnot(a.meta)
                    return self.rescond(d)
            if a.kind == 'op' and a.key[1] == 'usat' :
                pass
        return {'ge0': ge0, 'eq0': eq0, 'ne0': ne0}[k](l)

    # -- facts
    def prove_ge0(self, l):
        l = self.res(l)
        if not l.t:
            return l.c >= 0
        if l in self.facts:
            return True
        # quick interval test
        lo = l.c
        for a, k in l.t.items():
            b = a.lo if k > 0 else a.hi
            if b is None:
                lo = None; break
            lo += k * b
        if lo is not None and lo >= 0:
            return True
        neg = -l - 1
        rows, atoms = relevant(self._tight_facts(l), neg.t)
        rows.add(neg)
        if infeasible(rows):
            return True
        # one level of case split on relevant disequalities
        nes = [m for m in self.ne if any(a in atoms for a in m.t)]
        for m in nes[:6]:
            if infeasible(rows | {m - 1}) and infeasible(rows | {-m - 1}):
                return True
        return False

    def _tight_facts(self, l):
        if not self.ne:
            return self.facts
        fs = set(self.facts)
        for m in self.ne:
            if m in fs:
                fs.add(m - 1)
            if -m in fs:
                fs.add(-m - 1)
            if len(m.t) == 1:
                (a, k), = m.t.items()
                if k in (1, -1):
                    v = -m.c * k
                    if a.lo == v:
                        fs.add(Lin({a: 1}, -v - 1))
                    if a.hi == v:
                        fs.add(Lin({a: -1}, v - 1))
        return fs

    def prove_eq0(self, l):
        l = self.res(l)
        if not l.t:
            return l.c == 0
        return self.prove_ge0(l) and self.prove_ge0(-l)

    def prove_ne0(self, l):
        l = self.res(l)
        if not l.t:
            return l.c != 0
        if L._norm_eq(l) in self.ne:
            return True
        if distinct_ptrs(l):
            return True
        return self.prove_ge0(l - 1) or self.prove_ge0(-l - 1)

    def decide(self, c):
        """True / False / None"""
        c = self.rescond(c)
        k = c[0]
        if k == 'T':
            return True
        if k == 'F':
            return False
        if k == 'and':
            ds = [self.decide(x) for x in c[1]]
            return False if False in ds else True if all(ds) else None
        if k == 'or':
            ds = [self.decide(x) for x in c[1]]
            return True if True in ds else False if all(d is False for d in ds) else None
        if k == 'ge0':
            if self.prove_ge0(c[1]):
                return True
            if self.prove_ge0(-c[1] - 1):
                return False
            return None
        e = k == 'eq0'
        if self.prove_ne0(c[1]):
            return not e
        if self.prove_eq0(c[1]):
            return e
        return None

    def assume(self, c):
        """list of refined states (self is consumed)"""
        c = self.rescond(c)
        k = c[0]
        if k == 'T':
            return [self]
        if k == 'F':
            return []
        if k == 'and':
            ss = [self]
            for x in c[1]:
                ss = [t for s in ss for t in s.assume(x)]
            return ss
        if k == 'or':
            d = self.decide(c)
            if d is True:
                return [self]
            if d is False:
                return []
            out = []; neg = []
            for x in c[1]:
                s = self.copy()
                ss = [s]
                for n in neg:       # make the disjuncts exclusive
                    ss = [t for s in ss for t in s.assume(n)]
                for s in ss:
                    out.extend(s.assume(x))
                neg.append(cnot(x))
            return out
        d = self.decide(c)
        if d is True:
            return [self]
        if d is False:
            return []
        l = c[1]
        if k == 'ge0':
            if self.prove_ge0(-l):
                return self._assume_eq(l)
            self.facts = self.facts | {l}
            m = L._norm_eq(l)
            return [self]
        if k == 'eq0':
            return self._assume_eq(l)
        self.ne = self.ne | {L._norm_eq(l)}
        # x != y and x >= y  ->  x > y
        if self.prove_ge0(l):
            self.facts = self.facts | {l - 1}
        elif self.prove_ge0(-l):
            self.facts = self.facts | {-l - 1}
        return [self]

    def _assume_eq(self, l):
        best = None
        for a, k in l.t.items():
            if k in (1, -1):
                p = _subst_rank(a)
                if p is not None and (best is None or (p, a.id) > best[0]):
                    best = ((p, a.id), a, k)
        if best is None:
            self.facts = self.facts | {l, -l}
            return [self]
        _, a, k = best
        e = Lin({x: -q * k for x, q in l.t.items() if x is not a}, -l.c * k)
        # range facts of a survive as facts about its replacement
        extra = [b.subst({a: e}) for b in L._bounds(a)]
        m = {a: e}
        sub = {x: v.subst(m) for x, v in self.sub.items()}
        sub[a] = e
        self.sub = sub
        fs = set()
        for f in list(self.facts) + extra:
            g = f.subst(m)
            if not g.t:
                if g.c < 0:
                    return []
                continue
            fs.add(g)
        self.facts = frozenset(fs)
        ns = set()
        for f in self.ne:
            g = f.subst(m)
            if not g.t:
                if g.c == 0:
                    return []
                continue
            ns.add(L._norm_eq(g))
        self.ne = frozenset(ns)
        # type knowledge flows to the surviving pointer
        s = e.single()
        if s is not None and s.pt is None and a.pt is not None:
            s.pt = a.pt
        self._rekey(a)
        return [self]

    def _rekey(self, a):
        new = None
        for (b, o), v in list(self.mem.items()):
            if b is a or (isinstance(o, Lin) and any(x in self.sub for x in o.t)):
                if new is None:
                    new = dict(self.mem)
                del new[(b, o)]
                p = self.res(lin(b) + (o if isinstance(o, Lin) else const(o)))
                nb, no = split_ptr(p)
                if nb is not None:
                    k = (nb, no.c if not no.t else no)
                    if k not in new:
                        new[k] = v
        if new is not None:
            self.mem = new

    def newver(self, base):
        self.ver = dict(self.ver); self.ver[base] = next(_uniq)


def _subst_rank(a):
    if a.kind in ('alloca', 'g', 'heap'):
        return None
    return {'K': 0, 'param': 1, 'obj': 1}.get(a.kind, 3 if a.kind in ('ld', 'gen', 'ret', 'fresh') else 2)


def distinct_ptrs(l):
    """l == 0 impossible because it would equate two different objects (or an object and null)"""
    objs = [(a, k) for a, k in l.t.items() if a.kind in ('alloca', 'g', 'heap')]
    rest = [(a, k) for a, k in l.t.items() if a.kind not in ('alloca', 'g', 'heap')]
    if not objs:
        return False
    if not rest:
        if len(objs) == 1 and abs(objs[0][1]) == 1:
            return -(1 << 20) < l.c < (1 << 20)
        if len(objs) == 2 and objs[0][1] == -objs[1][1]:
            return -(1 << 20) < l.c < (1 << 20)
        return False
    if len(objs) == 1 and len(rest) == 1 and objs[0][1] == -rest[0][1]:
        o = objs[0][0]; r = rest[0][0]
        # a fresh object is not reachable from a value that existed before it
        if o.kind in ('heap', 'alloca') and (r.kind == 'param' or r.kind == 'obj' or (r.kind == 'ld' and r.key[4] == 0)):
            return True
    return False


def split_ptr(p):
    """pointer expression -> (base atom, offset Lin) or (None, p)"""
    best = None
    for a, k in p.t.items():
        if k == 1 and (a.kind in ('alloca', 'g', 'heap') or (a.meta_ptr if hasattr(a, 'meta_ptr') else a.w == 'p')):
            if best is None or (a.kind in ('alloca', 'g', 'heap')):
                best = a
    if best is None:
        for a, k in p.t.items():
            if k == 1 and a.w in (64, 'p'):
                best = a if best is None or a.id < best.id else best
    if best is None:
        return None, p
    t = dict(p.t); del t[best]
    return best, Lin(t, p.c)


class Exit:
    __slots__ = ('kind', 'st', 'val', 'inst', 'ret')

    def __init__(self, kind, st, val=None, inst=None):
        self.kind = kind; self.st = st; self.val = val; self.inst = inst


class Rule:
    """Default observer: override what is needed."""
    max_states = 24          # per block before merging
    max_depth = 14
    budget = 400000
    unroll = 70
    arith = False            # call on_arith for integer results (overflow rules)
    concrete = False         # loops: always try to follow the iterations one by one first
    explicit = False         # loops without a constant bound: enumerate the (finite) states instead of generalising

    bytekey = True           # loops: tell states apart by the constant bytes in memory

    def on_call(self, eng, st, inst, fn, base, args, ctx):
        """None: default handling.  Otherwise a list of (state, value) or ('throw', state) items."""
        return None

    def on_access(self, eng, st, inst, kind, base, off, size, val, ctx):
        pass

    def on_branch(self, eng, st, inst, cond, taken):
        pass

    def on_index(self, eng, st, inst, ctx):
        """an element of a constant size array is addressed"""
        pass

    def on_ret(self, eng, st, inst, fn, val, ctx):
        pass

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items() if k[0] != '_')

    def at_header(self, eng, st, hb):
        """a state arrives at a loop header: typestate that can no longer matter may be dropped here"""
        pass

    def may_throw(self, eng, fn, base):
        return False

    def inline(self, eng, fn, ctx):
        return True


class Ctx:
    __slots__ = ('path', 'depth', 'fns', 'fn', 'parent', 'inst', 'allocas', 'va')

    def __init__(self, path, depth, fns, fn, parent=None, inst=None):
        self.path = path; self.depth = depth; self.fns = fns; self.fn = fn; self.parent = parent; self.inst = inst
        self.allocas = set()
        self.va = ()

    def chain(self):
        r = []; c = self
        while c is not None:
            r.append(c.fn.base + ((' at ' + c.inst.where()) if c.inst is not None else ''))
            c = c.parent
        return r[::-1]


class Engine:
    LIMIT = 100.0; TOTAL = 600.0; SCALE = 1; START = time.time()
    until = float('inf')

    def __init__(self, m, rule, models=None):
        self.m = m; self.rule = rule; self.atoms = {}; self._tinfo = {}; self.steps = 0; self.models = models
        self.joins = 0; self.loops_done = 0; self.opaque = set(); self.inlined = set()
        self.imprecise = 0

    # ---- atoms
    def atom(self, kind, key, name, w=64, lo=None, hi=None):
        k = (kind,) + key
        a = self.atoms.get(k)
        if a is None:
            a = Atom(kind, k, name, w, lo, hi)
            self.atoms[k] = a
        return a

    def fresh(self, name, w=64, ty=None, kind='fresh'):
        a = self.atom(kind, (next(_uniq),), name, w)
        if ty is not None:
            self.settype(a, ty)
        return a

    def settype(self, a, ty):
        """ty: DI Type of the value"""
        if ty is None:
            return
        a.ty = ty
        p = ty.pointee()
        s = ty.strip()
        if s is None:
            return
        if s.is_ptr():
            a.w = 'p'
            if a.lo is None:
                a.lo = 0
            if p is not None and a.pt is None:
                a.pt = p
            elif a.pt is None:
                a.pt = None
            return
        n = s.size * 8
        if s.tag == 'base_type' and s.d.get('enc') in ('DW_ATE_float',):
            return
        if n and n <= 64 and a.lo is None and a.hi is None:
            if s.tag == 'base_type' and s.d.get('enc') == 'DW_ATE_boolean':
                a.lo, a.hi = 0, 1
            elif s.is_unsigned():
                a.lo = 0
                if n < 64:
                    a.hi = (1 << n) - 1
                else:
                    a.hi = (1 << 64) - 1
            elif n < 64:
                a.lo, a.hi = -(1 << (n - 1)), (1 << (n - 1)) - 1

    def glob(self, name):
        g = self.m.globals.get(name)
        a = self.atom('g', (name,), '@' + (g['dem'] if g else name), 'p', 1)
        if a.meta is None:
            a.meta = {'size': g['size'] if g else None}
            if g is not None:
                a.pt = self.m.type(g.get('dity', -1))
                if a.pt is not None:
                    a.pt = a.pt.strip()
        return a

    def op(self, name, args, w=64, lo=None, hi=None):
        a = self.atom('op', (name,) + tuple(args), ('%s(%s)' % (name, ','.join(map(str, args))))[:200], w, lo, hi)
        return a

    # ---- values
    def tolin(self, st, v):
        if isinstance(v, Lin):
            return st.res(v)
        if isinstance(v, tuple) and not isinstance(v, Tup):
            c = st.rescond(v)
            d = st.decide(c)
            if d is not None:
                return const(1 if d else 0)
            a = self.atom('b2i', (c,), 'bool(%s)' % (cstr(c),), 8, 0, 1)
            a.meta = c
            return lin(a)
        if v is None:
            return lin(self.fresh('undef', kind='undef'))
        return v

    def tocond(self, st, v):
        if isinstance(v, tuple) and not isinstance(v, Tup):
            return v
        return ne0(self.tolin(st, v))

    def operand(self, st, o, ctx):
        k = o[0]
        if k == 'i':
            if o[1] in st.env:
                return st.env[o[1]]
            return lin(self.fresh('undef', kind='undef'))
        if k == 'c':
            v = int(o[1])
            if o[2] == 1:
                return T if v else F
            return const(v)
        if k == 'a':
            return st.env[('a', o[1])]
        if k == 'n':
            return ZERO
        if k == 'g':
            return lin(self.glob(o[1])) + o[2]
        if k == 'u':
            return lin(self.fresh('undef', kind='undef'))
        if k == 'f':
            if o[1] in ('0', '-0'):
                return ZERO
            return lin(self.atom('fconst', (o[1],), o[1]))
        if k == 'z':
            return ZERO
        if k == 'ce':
            ops = [self.operand(st, x, ctx) for x in o[2]]
            if o[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return ops[0]
            if o[1] in ('sub', 'add'):
                a, b = [self.tolin(st, x) for x in ops]
                return a - b if o[1] == 'sub' else a + b
            return lin(self.op('ce_' + o[1], [self.tolin(st, x) for x in ops]))
        if k == 'asm':
            return lin(self.fresh('asm'))
        return lin(self.fresh('opnd_' + k))

    # ---- memory
    def addr(self, st, v):
        p = self.tolin(st, v)
        b, o = split_ptr(p)
        return b, (o.c if not o.t else o)

    def typeat(self, base, off):
        t = base.pt
        if t is None:
            return None
        if isinstance(off, Lin):
            # arrays: use the constant residue when everything else is a multiple of the element size
            e = t.elem() if t.tag == 'array_type' else None
            es = (e.strip().size if e is not None and e.strip() is not None else 0) if e is not None else t.size
            if es and all(k % es == 0 for k in off.t.values()):
                off = off.c % es
            else:
                return None
        if off < 0:
            return None
        if t.size and off >= t.size and t.tag != 'array_type':
            off %= t.size
        path, leaf, o = self.m.field_at(t, off)
        if path:
            # declared type of the last member (keeps typedef info)
            last = path[-1][1]
            if leaf is not None and leaf.is_record():
                return None
            if last.strip() is leaf:
                return self.m.type(last.base)
        if leaf is not None and (leaf.is_record() or leaf.tag == 'array_type'):
            return None
        return leaf

    def fieldpath(self, base, off):
        """names of the members at this address, outermost first: ['InterthreadQueue::mQ', ...]"""
        if base is None or base.pt is None or isinstance(off, Lin) or off < 0:
            return []
        path, leaf, o = self.m.field_at(base.pt, off)
        return [(t.name, f.name) for t, f in path if f.tag == 'member']

    def load(self, st, base, off, size, w, inst=None):
        if base is None:
            return lin(self.fresh('ldnull', w))
        k = (base, off)
        e = st.mem.get(k)
        if e is not None and e[0] == size:
            return e[1]
        if base.kind == 'g':
            v = self._constload(base, off, size)
            if v is not None:
                return v
        # region fills (memset / zero initialisation)
        if e is None:
            f = self._fillat(st, base, off, size)
            if f is not None:
                st.mem[k] = (size, f)
                return f
        if e is not None or self._overlap(st, base, off, size):
            # partial overlap: unknown value
            a = self.fresh('part(%s+%s)' % (base.name, off), w)
            self._rng(a, w)
            return lin(a)
        ver = st.ver.get(base, st.gver if base.kind not in ('alloca', 'heap') else 0)
        kind = 'ld'
        if base.kind in ('alloca', 'heap') and ver == 0:
            kind = 'uninit'
        a = self.atom(kind, (base, off, size, ver), self._ldname(base, off), w)
        if a.ty is None:
            t = self.typeat(base, off)
            if t is not None and t.strip() is not None and (t.strip().size == size):
                self.settype(a, t)
            self._rng(a, w)
            if w == 'p':
                a.w = 'p'
                if a.lo is None:
                    a.lo = 0
        st.mem[k] = (size, lin(a))
        return lin(a)

    def _rng(self, a, w):
        if isinstance(w, int) and w < 64 and a.lo is None and a.hi is None and a.ty is None:
            if w == 1:
                a.lo, a.hi = 0, 1
            elif w == 8:
                a.lo, a.hi = -128, 255
            else:
                a.lo, a.hi = -(1 << (w - 1)), (1 << w) - 1

    def _ldname(self, base, off):
        p = self.fieldpath(base, off)
        if p:
            return base.name + '.' + '.'.join(x[1] for x in p)
        if off == 0:
            return '*' + base.name
        return '%s[%s]' % (base.name, off)

    def _constload(self, base, off, size):
        g = self.m.globals.get(base.key[1])
        if not g or 'init' not in g or not g['const']:
            return None
        if isinstance(off, Lin):
            return None
        for o, sz, v in g['init']:
            if o <= off < o + sz:
                if v[0] == 'z':
                    return ZERO
                if v[0] == 'bytes':
                    b = bytes.fromhex(v[1])[off - o:off - o + size]
                    return const(int.from_bytes(b, 'little', signed=True)) if len(b) == size else None
                if off == o:
                    if v[0] == 'c':
                        return const(int(v[1]))
                    if v[0] == 'n':
                        return ZERO
                    if v[0] == 'g':
                        return lin(self.glob(v[1])) + v[2]
                return None
        return None

    def _fillat(self, st, base, off, size):
        for (b, o, n, v, stamp) in reversed(st.fills):
            if b is not base:
                continue
            d = (off if isinstance(off, Lin) else const(off)) - o
            if st.prove_ge0(d) and st.prove_ge0((n if isinstance(n, Lin) else const(n)) - d - size):
                if v is not None and not v.t:
                    if v.c == 0:
                        return ZERO
                    if size == 1:
                        return v
                return None
            # may overlap something else in this object: stop
            return None
        return None

    def _overlap(self, st, base, off, size):
        for (b, o), (sz, v) in st.mem.items():
            if b is base and not (o == off and sz == size):
                if isinstance(o, int) and isinstance(off, int):
                    if o < off + size and off < o + sz:
                        return True
        return False

    def store(self, st, base, off, size, val):
        if base is None:
            return
        st.mem = dict(st.mem)
        self.invalidate_at(st, base, off, size)
        st.mem[(base, off)] = (size, val)

    def invalidate_at(self, st, base, off, size):
        """a store to base+off may change other recorded locations"""
        offl = off if isinstance(off, Lin) else const(off)
        fresh_obj = base.kind in ('alloca', 'heap', 'g')
        bumped = set()
        for (b, o), (sz, v) in list(st.mem.items()):
            if b is base:
                if isinstance(o, int) and isinstance(off, int):
                    if o < off + size and off < o + sz:
                        del st.mem[(b, o)]
                    continue
                if o == off and sz == size:
                    continue
                d = st.res((o if isinstance(o, Lin) else const(o)) - offl)
                if not d.t:
                    if d.c >= size or -d.c >= sz:
                        continue
                elif st.prove_ge0(d - size) or st.prove_ge0(-d - sz):
                    continue
                del st.mem[(b, o)]; bumped.add(b)
            elif not fresh_obj and self.may_alias(st, base, off, b, o, size, sz):
                del st.mem[(b, o)]; bumped.add(b)
            elif fresh_obj and b.kind not in ('alloca', 'heap', 'g') and base.kind == 'g' and self.may_alias(st, b, o, base, off, sz, size):
                del st.mem[(b, o)]; bumped.add(b)
        if isinstance(off, Lin) and off.t:
            bumped.add(base)
        if bumped:
            st.ver = dict(st.ver)
            for b in bumped:
                # other, unrecorded, locations of b keep their identity only if nothing unknown was written
                st.ver[b] = next(_uniq)

    def may_alias(self, st, b1, o1, b2, o2, s1, s2):
        """b1 is not a fresh object; can b1+o1 overlap b2+o2 (b2 != b1)?"""
        if b2.kind in ('alloca', 'heap'):
            if not st.ts.get(('_esc', b2)):
                return False
            if b1.kind in ('param', 'obj') or (b1.kind == 'ld' and b1.key[4] == 0):
                return False
        if b1.kind in ('param', 'obj') and b2.kind in ('param', 'obj'):
            return False      # distinct parameters are analysed as distinct objects; aliasing is a separate run
        if b1.kind == 'obj' or b2.kind == 'obj':
            return False
        if L._norm_eq(st.res(lin(b1) - lin(b2))) in st.ne and o1 == o2:
            return False
        # type based: locations inside different members of known records do not overlap
        p1 = self.fieldpath(b1, o1); p2 = self.fieldpath(b2, o2)
        if p1 and p2:
            return bool(set(p1) & set(p2)) 
        t1 = self.typeat(b1, o1); t2 = self.typeat(b2, o2)
        if t1 is not None and t2 is not None:
            a = t1.strip(); b = t2.strip()
            if a is not b and not (a.is_ptr() and b.is_ptr()) and a.name not in ('char', 'unsigned char') and b.name not in ('char', 'unsigned char'):
                return False
        return True

    def havoc_obj(self, st, base, lo=None, hi=None):
        """forget everything about object `base` (or bytes [lo,hi) of it)"""
        st.mem = dict(st.mem)
        for (b, o) in list(st.mem):
            if b is base:
                if lo is not None and isinstance(o, int) and (o < lo or (hi is not None and o >= hi)):
                    continue
                del st.mem[(b, o)]
        st.newver(base)

    def havoc_shared(self, st, keep=None):
        """forget everything other threads or unknown code may change (non-local memory)"""
        st.mem = dict(st.mem)
        st.ver = dict(st.ver)
        nv = next(_uniq)
        st.gver = nv
        for (b, o) in list(st.mem):
            if b.kind in ('alloca', 'heap') and not st.ts.get(('_esc', b)):
                continue
            if b.kind == 'g' and (self.m.globals.get(b.key[1]) or {}).get('const'):
                continue
            if keep is not None and keep(b, o):
                continue
            del st.mem[(b, o)]
        for b in list(st.ver):
            if b.kind in ('alloca', 'heap') and not st.ts.get(('_esc', b)):
                continue
            st.ver[b] = nv

    def escape(self, st, v):
        if isinstance(v, Lin):
            for a in st.res(v).t:
                if a.kind in ('alloca', 'heap') and not st.ts.get(('_esc', a)):
                    st.ts[('_esc', a)] = True

    # ---- running
    def run(self, fn, st=None, args=None, this=None):
        """Analyse fn as an entry point; args default to unconstrained parameters."""
        if st is None:
            st = State()
        if args is None:
            args = self.params(fn)
        ctx = Ctx((fn.name,), 0, (fn.name,), fn)
        self.until = min(time.time() + self.LIMIT, Engine.START + Engine.TOTAL)
        return self.exec_fn(fn, args, st, ctx)

    def params(self, fn, prefix=''):
        args = []
        dts = fn.d.get('ditypes') or []
        shift = 1 if fn.args and fn.args[0].get('sret') else 0
        for n, a in enumerate(fn.args):
            w = int(a['ty'][1:]) if re.match(r'i\d+$', a['ty']) else 'p' if a['ty'] == 'ptr' else 64
            nm = prefix + (a['name'] or 'arg%d' % n)
            if a.get('sret'):
                at = self.atom('obj', (fn.name, n, prefix), nm, 'p', 1)
                t = self.m.type(dts[0]) if dts else None
                at.pt = t.strip() if t is not None else None
                args.append(lin(at)); continue
            at = self.atom('param', (fn.name, n, prefix), nm, w)
            # dity index: ret is 0, then parameters (incl. this)
            i = n + 1 - shift
            if len(dts) == len(fn.args) + 1 - shift and i < len(dts):
                t = self.m.type(dts[i])
                if t is not None:
                    ts = t.strip()
                    if a['ty'] == 'ptr' and ts is not None and not ts.is_ptr():
                        at.pt = ts; at.lo = 1; at.w = 'p'      # byval / indirect record
                    else:
                        self.settype(at, t)
                        if ts is not None and ts.tag in ('reference_type', 'rvalue_reference_type'):
                            at.lo = 1
            if n == shift and nm.endswith('this'):
                at.lo = 1
            self._rng(at, w)
            args.append(lin(at) if w != 1 else ne0(lin(at)))
        return args

    def exec_fn(self, fn, args, st, ctx):
        self.inlined.add(fn.name)
        outer = st.env
        st.env = {('a', n): v for n, v in enumerate(args)}
        exits = []
        self.run_region(fn, None, [(None, st)], ctx, exits)
        for e in exits:
            if e.kind == 'ret':
                self.rule.on_ret(self, e.st, e.inst, fn, e.val, ctx)
            # locals die
            for a in ctx.allocas:
                e.st.ts.pop(('_esc', a), None)
            if ctx.allocas and ctx.depth:
                ms = [k for k in e.st.mem if k[0] in ctx.allocas]
                if ms:
                    e.st.mem = dict(e.st.mem)
                    for k in ms:
                        del e.st.mem[k]
            e.st.env = outer
        return exits

    def run_region(self, fn, loop, entry, ctx, exits):
        """Run the blocks of `loop` (a header id) or of the whole function.  entry: [(pred,state)].
        Returns (backedge states, {(from,to):[states]}) for loops."""
        blocks = fn.rpo if loop is None else [b for b in fn.rpo if b.id in fn.loops[loop]]
        inside = None if loop is None else fn.loops[loop]
        hdr = fn.entry.id if loop is None else loop
        pend = {hdr: list(entry)}
        backs = []; outs = []
        # inner loops: headers directly handled as units
        done = set()
        for b in blocks:
            if b.id in done or b.id not in pend:
                continue
            sts = pend.pop(b.id)
            if b.id in fn.loops and b.id != loop:
                lo = self.run_loop(fn, b.id, sts, ctx, exits)
                done |= fn.loops[b.id]
                for (frm, to, s) in lo:
                    if loop is not None and to == loop:
                        backs.append((frm, s))
                    elif inside is not None and to not in inside:
                        outs.append((frm, to, s))
                    else:
                        pend.setdefault(to, []).append((frm, s))
                continue
            skip_phi = (b.id == loop)
            states = []
            for pred, s in sts:
                if not skip_phi:
                    self.eval_phis(s, b, pred, ctx)
                states.append(s)
            states = self.reduce(states, b)
            for s in states:
                for (to, s2) in self.exec_block(s, b, ctx, exits):
                    if loop is not None and to == loop:
                        backs.append((b.id, s2))
                    elif inside is not None and to not in inside:
                        outs.append((b.id, to, s2))
                    else:
                        pend.setdefault(to, []).append((b.id, s2))
        return backs, outs

    def eval_phis(self, s, b, pred, ctx):
        if not b.phis:
            return
        vals = []
        for p in b.phis:
            for pb, o in p.d['inc']:
                if pb == pred:
                    vals.append((p.id, self.operand(s, o, ctx))); break
        for i, v in vals:
            s.env[i] = v

    # ---- merging
    def fingerprint(self, s, b, full=True):
        env = frozenset((i, self._h(s.res(s.env[i]))) for i in b.livein if i in s.env)
        mem = frozenset((k[0].id, k[1], v[0], self._h(s.res(v[1]))) for k, v in s.mem.items())
        return (env, mem, s.facts, s.ne, frozenset(s.ts.items()), frozenset(s.sub.items()), s.exc)

    def _h(self, v):
        return v

    def reduce(self, states, b):
        if len(states) <= 1:
            return states
        for s in states:
            dead = [i for i in s.env if not isinstance(i, tuple) and i not in b.livein]
            for i in dead:
                del s.env[i]
        seen = {}
        for s in states:
            f = self.fingerprint(s, b)
            if f not in seen:
                seen[f] = s
        states = list(seen.values())
        if len(states) > self.rule.max_states * Engine.SCALE:
            groups = {}
            for s in states:
                groups.setdefault(self.okey(s), []).append(s)
            states = [self.join(g) for g in groups.values()]
            self.joins += 1
        return states

    def join(self, ss):
        r = ss[0]
        if len(ss) == 1:
            return r
        self.imprecise += 1
        for s in ss[1:]:
            r = self.join2(r, s)
        return r

    def okey(self, s):
        """The state's grouping key; a state whose facts an unmodelled call made
        unknown is never merged with one whose facts are known."""
        o = s.ts.get(('opaque',))
        k = self.rule.key(s)
        return k if o is None else (k, 'opaque')

    def join2(self, a, b):
        r = State()
        r.trace = a.trace; r.nheap = max(a.nheap, b.nheap); r.exc = a.exc if a.exc == b.exc else None
        r.gver = a.gver if a.gver == b.gver else next(_uniq)
        r.fills = tuple(x for x in a.fills if x in b.fills)
        ts = {}
        for k in set(a.ts) | set(b.ts):
            x, y = a.ts.get(k), b.ts.get(k)
            if x == y:
                ts[k] = x
            elif k[0] == '_esc':
                ts[k] = True
            elif k[0] == 'opaque':
                ts[k] = x or y
        r.ts = ts
        r.sub = {k: v for k, v in a.sub.items() if b.sub.get(k) == v}
        defs = []
        for i in a.env:
            if i in b.env:
                x, y = a.res(a.env[i]) if isinstance(a.env[i], Lin) else a.env[i], b.res(b.env[i]) if isinstance(b.env[i], Lin) else b.env[i]
                if isinstance(x, tuple) and not isinstance(x, Tup):
                    x = a.rescond(x)
                if isinstance(y, tuple) and not isinstance(y, Tup):
                    y = b.rescond(y)
                if x == y:
                    r.env[i] = x
                else:
                    r.env[i] = self._joinval(a, b, x, y, defs)
        for k in a.mem:
            if k in b.mem and a.mem[k][0] == b.mem[k][0]:
                x, y = a.res(a.mem[k][1]), b.res(b.mem[k][1])
                r.mem[k] = (a.mem[k][0], x if x == y else self._joinval(a, b, x, y, defs, self.typeat(*k)))
        r.ver = dict(a.ver)
        for k in set(a.ver) | set(b.ver):
            if a.ver.get(k) != b.ver.get(k):
                r.ver[k] = next(_uniq)
        lost = {k[0] for k in set(a.mem) ^ set(b.mem)}
        for k in lost:
            # lazily created initial content stays valid; overwritten content does not
            for s in (a, b):
                for kk, v in s.mem.items():
                    if kk[0] is k and kk not in r.mem:
                        av = v[1].single() if isinstance(v[1], Lin) else None
                        if not (av is not None and av.kind == 'ld' and av.key[1] is k and av.key[2] == kk[1]):
                            r.ver[k] = next(_uniq)
        # facts
        fa = set(a.facts); fb = set(b.facts)
        for x, v in a.sub.items():
            if x not in r.sub:
                d = lin(x) - v
                fa |= {d, -d}
        for x, v in b.sub.items():
            if x not in r.sub:
                d = lin(x) - v
                fb |= {d, -d}
        keep = fa & fb
        for f in fa - keep:
            if b.prove_ge0(f):
                keep.add(f)
        for f in fb - keep:
            if a.prove_ge0(f):
                keep.add(f)
        for at, x, y in defs:
            for c in (const(0), const(1)):
                if a.prove_ge0(x - c) and b.prove_ge0(y - c):
                    keep.add(lin(at) - c)
            if not x.t and not y.t:
                keep.add(lin(at) - min(x.c, y.c)); keep.add(const(max(x.c, y.c)) - lin(at))
            else:
                for u, v, su, sv in ((x, y, a, b), (y, x, b, a)):
                    if all(z.kind != 'gen' for z in u.t) and u.t:
                        if sv.prove_ge0(v - u):
                            keep.add(lin(at) - u)
                        if sv.prove_ge0(u - v):
                            keep.add(u - lin(at))
        r.facts = frozenset(r.res(f) for f in keep if r.res(f).t)
        nn = set()
        for s, o in ((a, b), (b, a)):
            for f in s.ne:
                if o.prove_ne0(f):
                    g = r.res(f)
                    if g.t:
                        nn.add(L._norm_eq(g))
        r.ne = frozenset(nn)
        return r

    def _joinval(self, a, b, x, y, defs, ty=None):
        if isinstance(x, Tup) or isinstance(y, Tup):
            return Tup([lin(self.fresh('j')), lin(self.fresh('j'))])
        if not isinstance(x, Lin) or not isinstance(y, Lin):
            at = self.fresh('jb', 1); at.lo, at.hi = 0, 1
            return ne0(lin(at))
        at = self.fresh('join', 64, None, 'gen')
        px = [z for z in list(x.t) + list(y.t) if z.w == 'p']
        if px:
            at.w = 'p'; at.lo = 0; at.pt = px[0].pt
        if ty is not None:
            self.settype(at, ty)
        defs.append((at, x, y))
        return lin(at)

    # ---- loops
    def run_loop(self, fn, hid, entry, ctx, exits):
        """entry: [(pred,state)].  Returns [(from,to,state)] leaving the loop."""
        hb = fn.bmap[hid]
        self.loops_done += 1
        outer = getattr(self, 'loopctx', None)
        self.loopctx = ctx
        try:
            return self._run_loop(fn, hid, hb, entry, ctx, exits)
        finally:
            self.loopctx = outer

    def _run_loop(self, fn, hid, hb, entry, ctx, exits):
        sts = []
        for pred, s in entry:
            self.eval_phis(s, hb, pred, ctx)
            sts.append(s)
        sts = self.reduce(sts, hb)
        result = []
        rest = []
        for s in sts:
            r = self._unroll(fn, hid, s, ctx)
            if r is None:
                rest.append(s)
            else:
                outs, exs = r
                result += outs; exits += exs
        if rest and self.rule.explicit:
            outs, exs = self._explore(fn, hid, rest, ctx)
            result += outs; exits += exs
        elif rest:
            outs, exs = self._fix(fn, hid, rest, ctx)
            result += outs; exits += exs
        return result

    def _explore(self, fn, hid, entry, ctx):
        """finite state: follow every iteration until no new state reaches the header (counters in header phis are forgotten)"""
        hb = fn.bmap[hid]
        seen = set(); work = []; outs = []; exs = []

        def add(s):
            for p in hb.phis:
                if p.ty != 'ptr' and p.w > 8:
                    s.env[p.id] = lin(self.atom('K', (ctx.path, hid, p.id), 'n', p.w))
            for i in [i for i in s.env if not isinstance(i, tuple) and i not in hb.livein]:
                del s.env[i]
            f = self.fingerprint(s, hb)
            if f not in seen:
                seen.add(f); work.append(s)
        for s in entry:
            add(s.copy())
        while work:
            if len(seen) > 4000:
                if DBG: print(sorted((b.name,o,repr(s.res(v[1]))) for (b,o),v in s.mem.items()), s.ts, s.facts, s.ne, s.sub, s.env)
                raise Budget('loop state space')
            s = work.pop()
            ex = []
            backs, os = self.run_region(fn, hid, [(None, s.copy())], ctx, ex)
            exs += ex; outs += os
            for frm, b in backs:
                self.eval_phis(b, hb, frm, ctx)
                add(b)
        uniq = {}
        for frm, to, s in outs:
            uniq.setdefault((frm, to, self.fingerprint(s, fn.bmap[to])), (frm, to, s))
        return list(uniq.values()), exs

    def _snap(self):
        return self.rule.snapshot() if hasattr(self.rule, 'snapshot') else None

    def _unroll(self, fn, hid, s, ctx):
        """Constant trip counts: follow the iterations while the number of states does not grow at the header."""
        snap = self._snap()
        cur = [s.copy()]
        outs = []; exs = []
        for n in range(self.rule.unroll):
            ex = []
            backs, os = self.run_region(fn, hid, [(None, x) for x in cur], ctx, ex)
            exs += ex
            if os and backs and not self.rule.concrete:
                # leaving is undecided: only acceptable if the exits are decided by data, not by the counter
                if n >= 1 and not self._const_driven(fn, hid, s, backs):
                    if snap is not None:
                        self.rule.restore(snap)
                    return None
                if n == 0 and not self._const_driven(fn, hid, s, backs):
                    if snap is not None:
                        self.rule.restore(snap)
                    return None
            outs += os
            if not backs:
                return outs, exs
            nxt = []
            for frm, b in backs:
                self.eval_phis(b, fn.bmap[hid], frm, ctx)
                nxt.append(b)
            cur = self.reduce(nxt, fn.bmap[hid])
            if len(cur) > self.rule.max_states * Engine.SCALE:
                break
        if snap is not None:
            self.rule.restore(snap)
        return None

    def _const_driven(self, fn, hid, s0, backs):
        """the loop is steered by a counter with a constant bound: every phi of the header (or some local) is a
        constant on the back edge and the header's own exit test is decided"""
        hb = fn.bmap[hid]
        t = hb.insts[-1]
        if t.op != 'br' or len(hb.succ) != 2:
            return False
        if all(x.id in fn.loops[hid] for x in hb.succ):
            return False
        # bound: the header compare has a constant operand and the counter is constant on the back edges
        for frm, b in backs:
            vals = []
            for p in hb.phis:
                for pb, o in p.d['inc']:
                    if pb == frm:
                        v = self.operand(b, o, None)
                        vals.append(b.res(v) if isinstance(v, Lin) else v)
            consts = [v for v in vals if isinstance(v, Lin) and not v.t]
            if not consts:
                return False
            # the header's test must have been decided for s0
        c = t.ops[0]
        if c[0] != 'i':
            return False
        ci = fn.insts[c[1]]
        if ci.op != 'icmp' or not any(o[0] == 'c' for o in ci.ops):
            return False
        return any(o[0] == 'i' and fn.insts[o[1]].op == 'phi' and fn.insts[o[1]].blk.id == hid for o in ci.ops)

    def _locs(self, s, hb):
        d = {('e', p.id): s.env.get(p.id) for p in hb.phis}
        for i in hb.livein:
            if i in s.env:
                d[('e', i)] = s.env[i]
        for k, v in s.mem.items():
            d[('m', k)] = v[1]
        return d

    def _disc(self, v, k=None):
        """values kept as separate disjuncts: booleans and flags"""
        return False

    def loopkey(self, s, hb):
        """disjuncts of a header: typestate plus the constant booleans held in memory / header phis"""
        self.rule.at_header(self, s, hb)
        bits = []
        for p in hb.phis:
            v = s.env.get(p.id)
            if p.w == 1 or p.w == 8:
                if isinstance(v, Lin) and not s.res(v).t:
                    bits.append((p.id, s.res(v).c))
                elif isinstance(v, tuple) and not isinstance(v, Tup):
                    d = s.decide(v)
                    if d is not None:
                        bits.append((p.id, d))
            elif p.ty == 'ptr' and isinstance(v, Lin):
                r = s.res(v)
                if not r.t:
                    bits.append((p.id, 'null'))
        for k, (sz, v) in s.mem.items() if self.rule.bytekey else ():
            if sz == 1 and isinstance(v, Lin) and isinstance(k[1], int):
                r = s.res(v)
                if not r.t:
                    bits.append((k[0].id, k[1], r.c))
        return (self.okey(s), frozenset(bits))

    def _fix(self, fn, hid, entry, ctx):
        hb = fn.bmap[hid]
        snap = self._snap()
        heads = {}     # key -> dict(entry=state, gen={loc: atom}, K, outs, exs)
        work = []
        cnt = [0]
        for s in entry:
            self._addhead(heads, work, s, hb)
        while work:
            key = work.pop(0)
            h = heads[key]
            cnt[0] += 1
            if cnt[0] > 60:
                raise Budget('loop at %s does not converge' % hb.insts[-1].where())
            self._process_head(fn, hid, hb, h, heads, work, ctx)
        outs = []; exs = []
        for h in heads.values():
            for (o, e) in h['res']:
                outs += o; exs += e
        if snap is not None and hasattr(self.rule, 'restore'):
            # keep only the reports of the final pass
            self.rule.restore(snap)
            for h in heads.values():
                self.rule.merge(h['reports'])
        return outs, exs

    def _addhead(self, heads, work, s, hb):
        key = self.loopkey(s, hb)
        if len(heads) > 12:
            key = (key[0], frozenset())
        h = heads.get(key)
        if h is None:
            heads[key] = {'entry': s, 'gen': {}, 'res': [], 'reports': None, 'cands': None, 'n': 0, 'uid': next(_uniq)}
            if key not in work:
                work.append(key)
            return
        # merge into the existing header state
        ch = self._generalise_with(h, s, hb)
        if ch and key not in work:
            work.append(key)

    def _same(self, a, va, b, vb):
        if isinstance(va, Lin) and isinstance(vb, Lin):
            return a.res(va) == b.res(vb)
        if isinstance(va, Tup) or isinstance(vb, Tup) or va is None or vb is None:
            return va == vb
        if isinstance(va, Lin) or isinstance(vb, Lin):
            return False
        return a.rescond(va) == b.rescond(vb)

    def _generalise_with(self, h, s, hb):
        """another (external) state arrives at this header: locations that differ become unknown"""
        e = h['entry']
        le = self._locs(e, hb); ls = self._locs(s, hb)
        ch = False
        for k, v in le.items():
            if k in h['gen'] and h['gen'][k] == 'any':
                continue
            if k not in ls or not self._same(e, v, s, ls[k]):
                if h['gen'].get(k) != 'any':
                    h['gen'][k] = 'any'; ch = True
        # facts valid in both
        fs = frozenset(f for f in e.facts if f in s.facts or s.prove_ge0(f))
        if fs != e.facts:
            e.facts = fs; ch = True
        ns = frozenset(f for f in e.ne if f in s.ne or s.prove_ne0(f))
        if ns != e.ne:
            e.ne = ns; ch = True
        sub = {k: v for k, v in e.sub.items() if s.sub.get(k) == v}
        if len(sub) != len(e.sub):
            # make explicit what the dropped substitutions said about memory values, then drop
            for k, v in list(e.env.items()):
                if isinstance(v, Lin):
                    e.env[k] = e.res(v)
            e.mem = {k: (sz, e.res(v)) for k, (sz, v) in e.mem.items()}
            e.sub = sub; ch = True
        for k in list(e.ts):
            if k[0] == '_esc':
                continue
        for k, v in s.ts.items():
            if k[0] == '_esc' and not e.ts.get(k):
                e.ts[k] = True; ch = True
        return ch

    def _loc_atom(self, e, k, v, hb, name, hid):
        a = self.atom('gen', (hb.fn.name, hb.id, k, hid), name, 64)
        if a.ty is not None or a.pt is not None:
            return a
        if isinstance(v, Lin):
            r = e.res(v)
            ps = [x for x in r.t if x.w == 'p']
            if ps:
                a.w = 'p'; a.lo = 0; a.pt = ps[0].pt
        if k[0] == 'm':
            t = self.typeat(*k[1])
            if t is not None:
                self.settype(a, t)
        else:
            i = hb.fn.insts.get(k[1])
            if i is not None and i.ty == 'ptr':
                a.w = 'p'; a.lo = 0
                if a.pt is None:
                    vn = hb.fn.varnames.get(('i', str(k[1])))
                    if vn:
                        t = self.m.type(vn[1])
                        if t is not None:
                            a.pt = t.pointee()
            elif i is not None:
                vn = hb.fn.varnames.get(('i', str(k[1])))
                if vn and self.m.type(vn[1]) is not None and self.m.type(vn[1]).strip().size * 8 == i.w:
                    self.settype(a, self.m.type(vn[1]))
                if a.ty is None and i.w and i.w < 64:
                    self._rng(a, i.w)
        return a

    def _build(self, h, hb, kval):
        """header state: entry state with the generalised locations replaced.  kval: Lin for the iteration count."""
        e = h['entry'].copy()
        atoms = {}
        dropped = set()
        for k, g in h['gen'].items():
            le = e.env.get(k[1]) if k[0] == 'e' else (e.mem.get(k[1]) or (0, None))[1]
            if g == 'drop':
                if k[0] == 'm':
                    e.mem.pop(k[1], None)
                    dropped.add(k[1][0])
                continue
            nm = self._locname(hb, k)
            if isinstance(g, tuple) and g[0] == 'aff':
                base = e.res(le)
                v = base + kval.scale(g[1])
                atoms[k] = v
            else:
                old = le
                if isinstance(old, tuple) and not isinstance(old, Tup):
                    a = self.atom('gen', (hb.fn.name, hb.id, k, h['uid']), nm, 1, 0, 1)
                    atoms[k] = ne0(lin(a))
                else:
                    a = self._loc_atom(e, k, old, hb, nm, h['uid'])
                    atoms[k] = lin(a)
            if k[0] == 'e':
                e.env[k[1]] = atoms[k]
            else:
                if k[1] in e.mem:
                    e.mem[k[1]] = (e.mem[k[1]][0], atoms[k])
        if dropped:
            e.ver = dict(e.ver)
            for b in dropped:
                e.ver[b] = next(_uniq)
        return e, atoms

    def _locname(self, hb, k):
        if k[0] == 'e':
            vn = hb.fn.varnames.get(('i', str(k[1])))
            return (vn[0] if vn else 'v%d' % k[1]) + "'"
        return self._ldname(*k[1]) + "'"

    def _process_head(self, fn, hid, hb, h, heads, work, ctx):
        mykey = [k for k, v in heads.items() if v is h][0]
        for it in range(14):
            rep = self._snap()
            K = self.atom('K', (fn.name, hid, ctx.path, h['uid']), 'k', 64, 0)
            affine = any(isinstance(g, tuple) for g in h['gen'].values())
            H, atoms = self._build(h, hb, lin(K))
            cands = h['cands'] or []
            inst = []
            for c in cands:
                l = self._inst_cand(c, H, atoms, h, K)
                if l is not None and l.t:
                    inst.append((c, l))
            H.facts = H.facts | frozenset(H.res(l) for c, l in inst if H.res(l).t)
            exs = []
            Hrun = H.copy()
            gver0 = dict(H.ver)
            backs, outs = self.run_region(fn, hid, [(None, Hrun)], ctx, exs)
            bs = []
            for frm, b in backs:
                self.eval_phis(b, hb, frm, ctx)
                bs.append(b)
            mine = [b for b in bs if self._headkey(heads, b, hb) == mykey]
            others = [b for b in bs if self._headkey(heads, b, hb) != mykey]
            ch = False
            le = self._locs(H, hb)
            # locations changed by the body
            for k, v in le.items():
                g = h['gen'].get(k)
                if g in ('any', 'drop'):
                    if g == 'any' and k[0] == 'm' and any(k[1] not in b.mem or b.mem[k[1]][0] != H.mem[k[1]][0] for b in mine):
                        h['gen'][k] = 'drop'; ch = True
                    continue
                deltas = set(); bad = False
                for b in mine:
                    if k[0] == 'm':
                        m = b.mem.get(k[1])
                        if m is None or m[0] != H.mem[k[1]][0]:
                            h['gen'][k] = 'drop'; ch = True; bad = True
                            break
                        nv = m[1]
                    else:
                        nv = b.env.get(k[1])
                        if nv is None:
                            continue
                    if isinstance(v, Lin) and isinstance(nv, Lin):
                        d = b.res(nv - v)
                        deltas.add(d.c if not d.t else None)
                    else:
                        deltas.add(0 if self._same(H, v, b, nv) else None)
                if bad:
                    continue
                if g is None:
                    if deltas <= {0}:
                        continue
                    if len(deltas) == 1 and None not in deltas and isinstance(v, Lin):
                        h['gen'][k] = ('aff', deltas.pop())
                    else:
                        h['gen'][k] = 'any'
                    ch = True
                else:   # affine so far: the delta must be the same on every back edge
                    if deltas and deltas != {g[1]}:
                        h['gen'][k] = 'any'; ch = True
            # memory created in the body that aliases nothing at the header is simply forgotten
            for b in mine:
                for base in set(b.ver):
                    if b.ver.get(base) != H.ver.get(base) and base.kind != 'alloca' and not (base.kind == 'gen' and base.key[-1] == h['uid']) and self._known(h['entry'], base):
                        if h.setdefault('bump', set()) is not None and base not in h['bump']:
                            h['bump'].add(base); ch = True
                if b.gver != H.gver and not h.get('gbump'):
                    h['gbump'] = True; ch = True
                for kk, vv in b.ts.items():
                    if kk[0] == '_esc' and not h['entry'].ts.get(kk) and kk[1].kind == 'alloca' and any(k2[0] is kk[1] for k2 in h['entry'].mem):
                        h['entry'].ts[kk] = True; ch = True
            if h.get('bump') or h.get('gbump'):
                self._applybump(h)
            if not ch and h['cands'] is None:
                h['cands'] = self._candidates(h, H, atoms, bs, outs, exs, K, hb)
                if h['cands']:
                    ch = True
            elif not ch and h['cands']:
                keep = []
                for c, l in inst:
                    ok = self._holds_entry(c, h, hb)
                    for b in mine:
                        if not ok:
                            break
                        l2 = self._cand_after(c, b, h, K, H, atoms)
                        if l2 is None or not b.prove_ge0(l2):
                            ok = False
                    if ok:
                        keep.append(c)
                if len(keep) != len(h['cands']):
                    h['cands'] = keep; ch = True
            if ch:
                if rep is not None:
                    self.rule.restore(rep)
                continue
            # stable
            h['res'] = [(outs, exs)]
            if rep is not None:
                h['reports'] = self.rule.since(rep)
                self.rule.restore(rep)
            for b in others:
                self._addhead(heads, work, b, hb)
            return
        raise Budget('loop header at %s does not stabilise' % hb.insts[-1].where())

    def _known(self, e, base):
        """the object was already visible when the loop was entered"""
        return base.kind in ('param', 'obj', 'g') or base in e.ver or any(k[0] is base for k in e.mem) or \
            any(isinstance(v[1], Lin) and base in v[1].t for v in e.mem.values()) or \
            any(isinstance(v, Lin) and base in v.t for v in e.env.values())

    def _applybump(self, h):
        e = h['entry']
        if h.get('gbump') and not h.get('gdone'):
            e.gver = next(_uniq); h['gdone'] = True
            e.ver = dict(e.ver)
            for b in list(e.ver):
                if b.kind not in ('alloca', 'heap'):
                    e.ver[b] = e.gver
        for b in h.get('bump', ()):
            if b not in h.setdefault('bdone', set()):
                e.ver = dict(e.ver); e.ver[b] = next(_uniq); h['bdone'].add(b)

    def _headkey(self, heads, b, hb):
        k = self.loopkey(b, hb)
        if k not in heads and len(heads) > 12:
            return (k[0], frozenset())
        return k

    # candidate invariants: ('ge', loc, Lin bound)   value(loc) - bound >= 0 ;  ('le', loc, bound)
    def _candidates(self, h, H, atoms, bs, outs, exs, K, hb):
        locs = [(k, v) for k, v in atoms.items() if isinstance(v, Lin)]
        if not locs:
            return []
        genatoms = set()
        for k, v in locs:
            for a in v.t:
                if a.kind in ('gen', 'K') and (a is K or v.single() is a):
                    genatoms.add(a)
        out = []
        seen = set()

        def add(c):
            if c not in seen:
                seen.add(c); out.append(c)
        affine = [k for k, g in h['gen'].items() if isinstance(g, tuple)]
        anys = [k for k, g in h['gen'].items() if g == 'any' and isinstance(atoms.get(k), Lin)]
        e = h['entry']
        le = self._locs(e, hb)
        rows = set()
        for s in bs + [o[2] for o in outs] + [x.st for x in exs]:
            rows |= set(s.facts) | {n for n in s.ne} | {-n for n in s.ne}
        # bounds on K (through any affine location) taken from guards
        if affine:
            add(('K', Lin({}, 0)))
        for r in rows:
            if K in r.t and all(a is K or self._invariant(a, genatoms) for a in r.t):
                for d in (0, 1, -1):
                    add(('Kf', r + d))
                    # guard at the previous iteration
                k = r.t[K]
                add(('Kf', Lin(r.t, r.c - k)))
                add(('Kf', Lin(r.t, r.c + k)))
        for k in anys:
            v0 = le.get(k)
            if isinstance(v0, Lin):
                v0 = e.res(v0)
                if all(self._invariant(a, genatoms) for a in v0.t):
                    add(('ge', k, v0)); add(('le', k, v0))
            add(('ge', k, ZERO))
            at = atoms[k].single()
            for r in rows:
                if at in r.t and abs(r.t[at]) == 1 and all(a is at or self._invariant(a, genatoms) for a in r.t):
                    rest = Lin({a: q for a, q in r.t.items() if a is not at}, r.c)
                    if r.t[at] == 1:
                        for d in (0, 1, -1):
                            add(('ge', k, -rest + d))
                    else:
                        for d in (0, 1, -1):
                            add(('le', k, rest + d))
        # pairs of locations moving together
        for k1, k2 in itertools.combinations(anys, 2):
            v1, v2 = le.get(k1), le.get(k2)
            if isinstance(v1, Lin) and isinstance(v2, Lin) and len(anys) <= 6:
                d = e.res(v1 - v2)
                if all(self._invariant(a, genatoms) for a in d.t):
                    add(('rel', k1, k2, d)); add(('rel', k2, k1, -d))
        if affine:
            for k in anys:
                v0 = le.get(k)
                if isinstance(v0, Lin) and len(anys) <= 6:
                    v0 = e.res(v0)
                    if all(self._invariant(a, genatoms) for a in v0.t):
                        add(('leK', k, v0)); 
        return out[:120]

    def _invariant(self, a, gens):
        return a not in gens and a.kind not in ('undef',)

    def _inst_cand(self, c, H, atoms, h, K):
        if c[0] == 'K':
            return None
        if c[0] == 'Kf':
            r = c[1]
            ok = [a for a in r.t if a.kind == 'K' and a.key[1:3] == K.key[1:3] and a.key[3] == K.key[3]]
            if not ok:
                return None
            return r.subst({ok[0]: lin(K)})
        k = c[1]
        if k not in atoms or not isinstance(atoms[k], Lin):
            return None
        if c[0] == 'ge':
            return atoms[k] - c[2]
        if c[0] == 'le':
            return c[2] - atoms[k]
        if c[0] == 'rel':
            if c[2] not in atoms or not isinstance(atoms[c[2]], Lin):
                return None
            return atoms[k] - atoms[c[2]] - c[3]
        if c[0] == 'leK':
            return lin(K) + c[2] - atoms[k]

    def _cand_after(self, c, b, h, K, H, atoms):
        def val(k):
            v = b.env.get(k[1]) if k[0] == 'e' else (b.mem.get(k[1]) or (0, None))[1]
            return v if isinstance(v, Lin) else None
        if c[0] == 'Kf':
            r = c[1]
            ok = [a for a in r.t if a.kind == 'K' and a.key[1:4] == K.key[1:4]]
            return r.subst({ok[0]: lin(K) + 1})
        v = val(c[1])
        if v is None:
            return None
        if c[0] == 'ge':
            return v - c[2]
        if c[0] == 'le':
            return c[2] - v
        if c[0] == 'rel':
            w = val(c[2])
            return None if w is None else v - w - c[3]
        if c[0] == 'leK':
            return lin(K) + 1 + c[2] - v

    def _holds_entry(self, c, h, hb):
        e = h['entry']

        def val(k):
            v = e.env.get(k[1]) if k[0] == 'e' else (e.mem.get(k[1]) or (0, None))[1]
            return v if isinstance(v, Lin) else None
        if c[0] == 'Kf':
            r = c[1]
            ok = [a for a in r.t if a.kind == 'K']
            return e.prove_ge0(r.subst({a: ZERO for a in ok if a.key[1] == hb.fn.name and a.key[2] == hb.id}))
        v = val(c[1])
        if v is None:
            return False
        if c[0] == 'ge':
            return e.prove_ge0(v - c[2])
        if c[0] == 'le':
            return e.prove_ge0(c[2] - v)
        if c[0] == 'rel':
            w = val(c[2])
            return w is not None and e.prove_ge0(v - w - c[3])
        if c[0] == 'leK':
            return e.prove_ge0(c[2] - v)

    # ---- instructions
    def exec_block(self, s, b, ctx, exits):
        """-> [(successor id, state)]"""
        cur = [s]
        for i in b.insts:
            if i.op in ('phi', 'dbg'):
                continue
            nxt = []
            for st in cur:
                self.steps += 1
                if not self.steps % 64 and time.time() > self.until:
                    raise Budget('time limit')
                if self.steps > self.rule.budget:
                    raise Budget('analysis budget exhausted in %s' % ctx.fn.base)
                h = getattr(self, 'i_' + i.op, None)
                if i.op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'invoke'):
                    nxt.append(st); continue
                if i.op == 'call':
                    for r in self.do_call(st, i, ctx):
                        if r[0] == 'throw':
                            exits.append(Exit('throw', r[1], None, i))
                        else:
                            nxt.append(r[1])
                    continue
                if h is not None:
                    r = h(st, i, ctx)
                    if r is None:
                        nxt.append(st)
                    else:
                        nxt.extend(r)
                else:
                    self.i_generic(st, i, ctx)
                    nxt.append(st)
            cur = nxt
            if not cur:
                return []
            if len(cur) > self.rule.max_states * Engine.SCALE * 2:
                groups = {}
                for s_ in cur:
                    groups.setdefault(self.okey(s_), []).append(s_)
                cur = [self.join(g) for g in groups.values()]
        t = b.insts[-1]
        out = []
        for st in cur:
            out.extend(self.terminator(st, t, b, ctx, exits))
        return out

    def terminator(self, st, t, b, ctx, exits):
        if t.op == 'br':
            if len(t.d['succ']) == 1 or not t.ops:
                return [(t.d['succ'][0], st)]
            c = self.tocond(st, self.operand(st, t.ops[0], ctx))
            out = []
            if t.d['succ'][0] == t.d['succ'][1]:
                return [(t.d['succ'][0], st)]
            d = st.decide(c)
            for val, to in ((True, t.d['succ'][0]), (False, t.d['succ'][1])):
                if d is not None and d != val:
                    continue
                s2 = st.copy() if d is None else st
                for s3 in s2.assume(c if val else cnot(c)):
                    if d is None:
                        s3.note((t.where(), cstr(c) if val else 'not ' + cstr(c)))
                    self.rule.on_branch(self, s3, t, c, val)
                    out.append((to, s3))
            return out
        if t.op == 'switch':
            v = self.tolin(st, self.operand(st, t.ops[0], ctx))
            out = []; rest = []
            bydest = {}
            for cv, to in t.d['cases']:
                bydest.setdefault(to, []).append(int(cv))
            for cv, to in t.d['cases']:
                s2 = st.copy()
                for s3 in s2.assume(eq0(v - int(cv))):
                    s3.note((t.where(), 'case %s' % cv))
                    out.append((to, s3))
                rest.append(ne0(v - int(cv)))
            s2 = st.copy()
            for s3 in s2.assume(cand(*rest)):
                s3.note((t.where(), 'default'))
                out.append((t.d['default'], s3))
            return out
        if t.op == 'ret':
            v = self.operand(st, t.ops[0], ctx) if t.ops else None
            exits.append(Exit('ret', st, v, t))
            return []
        if t.op == 'resume':
            exits.append(Exit('throw', st, None, t))
            return []
        if t.op == 'invoke':
            out = []
            for r in self.do_call(st, t, ctx):
                out.append((t.d['unwind'] if r[0] == 'throw' else t.d['normal'], r[1]))
            return out
        if t.op == 'unreachable':
            exits.append(Exit('noret', st, None, t))
            return []
        return []

    def setv(self, st, i, v):
        st.env[i.id] = v

    def i_alloca(self, st, i, ctx):
        a = self.atom('alloca', (ctx.path, i.id), i.d['name'] or 'local%d' % i.id, 'p', 1)
        if a.meta is None:
            a.meta = {'size': i.d['size'], 'where': i.where(), 'fn': ctx.fn}
            vn = ctx.fn.varnames.get(('i', str(i.id)))
            if vn:
                a.name = vn[0]
                t = self.m.type(vn[1])
                a.pt = t.strip() if t is not None else None
                a.meta['var'] = vn[0]
        n = i.ops[0] if i.ops else None
        if n is not None and not (n[0] == 'c' and int(n[1]) == 1):
            a.meta['count'] = self.tolin(st, self.operand(st, n, ctx))
        ctx.allocas.add(a)
        if any(k[0] is a for k in st.mem):
            st.mem = {k: v for k, v in st.mem.items() if k[0] is not a}
        if a in st.ver:
            st.ver = dict(st.ver); del st.ver[a]
        if any(f[0] is a for f in st.fills):
            st.fills = tuple(f for f in st.fills if f[0] is not a)
        st.ts.pop(('_esc', a), None)
        self.setv(st, i, lin(a))

    def i_load(self, st, i, ctx):
        b, o = self.addr(st, self.operand(st, i.ops[0], ctx))
        w = i.w or ('p' if i.ty == 'ptr' else 64)
        self.rule.on_access(self, st, i, 'load', b, o, i.d['size'], None, ctx)
        if i.ty.startswith('{') or i.ty.startswith('%'):
            self.setv(st, i, Tup([lin(self.fresh('agg')), lin(self.fresh('agg'))])); return
        v = self.load(st, b, o, i.d['size'], w, i)
        if i.w == 1:
            v = self.tocond(st, v)
        self.setv(st, i, v)

    def i_store(self, st, i, ctx):
        v = self.operand(st, i.ops[0], ctx)
        b, o = self.addr(st, self.operand(st, i.ops[1], ctx))
        if isinstance(v, Lin):
            if b is None or b.kind not in ('alloca',) or st.ts.get(('_esc', b)):
                self.escape(st, v)
        if isinstance(v, Tup):
            if b is not None:
                self.havoc_obj(st, b)
            return
        if not isinstance(v, Lin):
            v = self.tolin(st, v)
        self.rule.on_access(self, st, i, 'store', b, o, i.d['size'], v, ctx)
        self.store(st, b, o, i.d['size'], v)

    def i_getelementptr(self, st, i, ctx):
        p = self.tolin(st, self.operand(st, i.ops[0], ctx))
        if i.d.get('arr'):
            self.rule.on_index(self, st, i, ctx)
        if i.d.get('bad'):
            self.setv(st, i, lin(self.fresh('gep', 'p'))); return
        p = p + i.d['off']
        for o, k in i.d['var']:
            p = p + self.tolin(st, self.operand(st, o, ctx)).scale(k)
        self.setv(st, i, p)

    def i_icmp(self, st, i, ctx):
        a = self.operand(st, i.ops[0], ctx); b = self.operand(st, i.ops[1], ctx)
        self.setv(st, i, self.icmp(st, i.d['pred'], a, b, i.d.get('ow', 64)))

    def icmp(self, st, pred, a, b, w):
        if w == 1:
            ca, cb = self.tocond(st, a), self.tocond(st, b)
            same = cor(cand(ca, cb), cand(cnot(ca), cnot(cb)))
            return same if pred == 'eq' else cnot(same) if pred == 'ne' else ne0(lin(self.fresh('icmp1', 1)))
        a = self.tolin(st, a); b = self.tolin(st, b)
        d = a - b
        if pred in ('eq', 'ne'):
            # signed/unsigned view of constants (e.g. size_t against -1)
            c = eq0(d)
            return c if pred == 'eq' else cnot(c)
        if pred in ('sgt', 'sge', 'slt', 'sle'):
            return {'sgt': ge0(d - 1), 'sge': ge0(d), 'slt': ge0(-d - 1), 'sle': ge0(-d)}[pred]
        # unsigned
        if pred in ('ugt', 'uge'):
            a, b = b, a
            pred = {'ugt': 'ult', 'uge': 'ule'}[pred]
        lt = ge0(b - a - 1) if pred == 'ult' else ge0(b - a)
        pa = _isptr(a) or st.prove_ge0(a); pb = _isptr(b) or st.prove_ge0(b)
        if pa and pb:
            return lt
        if not b.t and b.c < 0 and pa:
            return T          # b is huge
        if not a.t and a.c < 0 and pb:
            return F
        if pb:
            return cand(ge0(a), lt)
        if pa:
            return cor(ge0(-b - 1), lt)
        return cor(cand(ge0(a), ge0(-b - 1)), cand(ge0(a), ge0(b), lt), cand(ge0(-a - 1), ge0(-b - 1), lt))

    def i_fcmp(self, st, i, ctx):
        a = self.tolin(st, self.operand(st, i.ops[0], ctx)); b = self.tolin(st, self.operand(st, i.ops[1], ctx))
        p = i.d['pred']
        k = p[1:] if len(p) == 3 and p[0] in 'ou' else p
        if k in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            # totally ordered (not-a-number excluded): one sign per unordered pair
            if a == b:
                sg = ZERO
            else:
                sw = repr_key(a) > repr_key(b)
                x = self.op('fsign', [b, a] if sw else [a, b], 8, -1, 1)
                sg = -lin(x) if sw else lin(x)
            self.setv(st, i, {'eq': eq0(sg), 'ne': ne0(sg), 'lt': ge0(-sg - 1), 'le': ge0(-sg), 'gt': ge0(sg - 1), 'ge': ge0(sg)}[k]); return
        x = self.op('fcmp_' + p, [a, b], 1, 0, 1)
        self.setv(st, i, ne0(lin(x)))

    def i_generic(self, st, i, ctx):
        op = i.op
        ops = [self.operand(st, o, ctx) for o in i.ops]
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast'):
            self.setv(st, i, ops[0]); return
        if op in ('zext', 'sext', 'trunc'):
            self.setv(st, i, self.cast(st, op, ops[0], i.d['sw'], i.w)); return
        if op == 'select':
            c = self.tocond(st, ops[0]); d = st.decide(c)
            if d is not None:
                self.setv(st, i, ops[1] if d else ops[2]); return
            if i.w == 1:
                x, y = self.tocond(st, ops[1]), self.tocond(st, ops[2])
                self.setv(st, i, cor(cand(c, x), cand(cnot(c), y))); return
            x = self.op('select', [self.tolin(st, c), self.tolin(st, ops[1]), self.tolin(st, ops[2])], i.w or 'p')
            self.setv(st, i, lin(x)); return
        if op == 'extractvalue':
            v = ops[0]; idx = i.d['idx']
            if isinstance(v, Tup) and len(idx) == 1 and idx[0] < len(v):
                self.setv(st, i, v[idx[0]])
            else:
                self.setv(st, i, lin(self.fresh('xv', 'p' if i.ty == 'ptr' else i.w or 64)))
            return
        if op == 'insertvalue':
            v = list(ops[0]) if isinstance(ops[0], Tup) else [None] * 4
            idx = i.d['idx']
            if len(idx) == 1 and idx[0] < len(v):
                v[idx[0]] = ops[1]
            self.setv(st, i, Tup(v)); return
        if op == 'landingpad':
            a = self.fresh('exc', 'p')
            sel = const(self.tinfo(st.exc)) if st.exc is not None else lin(self.fresh('sel', 32))
            self.setv(st, i, Tup([lin(a), sel])); return
        if op == 'fneg':
            self.setv(st, i, lin(self.op('fneg', [self.tolin(st, ops[0])]))); return
        if op in ('add', 'sub', 'mul', 'shl', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'lshr', 'ashr'):
            r = self.arith(st, op, ops[0], ops[1], i.w)
            if self.rule.arith and op in ('add', 'sub', 'mul', 'shl') and i.w in (32, 64):
                self.rule.on_arith(self, st, i, op, r, ctx)
            self.setv(st, i, r); return
        if op in ('va_arg', 'atomicrmw', 'cmpxchg', 'fence'):
            if i.id is not None:
                self.setv(st, i, lin(self.fresh(op, i.w or 64)))
            return
        if i.id is not None and i.ty != 'void':
            if i.ty.startswith('<') or i.ty.startswith('{'):
                self.setv(st, i, lin(self.fresh(op)))
            else:
                self.setv(st, i, lin(self.op(op, [self.tolin(st, o) for o in ops] + ([i.ty] if op.startswith(('fp', 'si', 'ui')) else []), i.w or 64)))

    def cast(self, st, op, v, sw, w):
        if sw == 1:
            c = self.tocond(st, v)
            l = self.tolin(st, c)
            return l if op != 'sext' else -l
        if w == 1:
            l = self.tolin(st, v)
            if not l.t:
                return T if l.c & 1 else F
            a = l.single()
            if a is not None and a.lo == 0 and a.hi == 1:
                return ne0(l)
            if sw == 8:
                return ne0(l)          # bool loaded from memory
            return ne0(self.arith(st, 'and', l, const(1), sw))
        l = self.tolin(st, v)
        if op == 'sext':
            a = l.single()
            if a is not None and a.lo == 0 and a.hi is not None and a.hi >= 1 << (sw - 1) and sw < 32 and a.kind == 'ld' and not st.prove_ge0(const((1 << (sw - 1)) - 1) - l):
                # an unsigned byte or short read as a signed one
                return lin(self.op('sext%d' % sw, [l], w, -(1 << (sw - 1)), (1 << (sw - 1)) - 1))
            return l
        if op == 'zext':
            if not l.t:
                return const(l.c & ((1 << sw) - 1))
            if st.prove_ge0(l):
                return l
            a = self.op('zext%d' % sw, [l], w, 0, (1 << sw) - 1)
            return lin(a)
        # trunc
        if not l.t:
            x = l.c & ((1 << w) - 1)
            return const(x - (1 << w) if x >= 1 << (w - 1) and l.c < 0 else x)
        if self.inrange(st, l, w):
            return l
        a = self.op('trunc%d' % w, [l], w, -(1 << (w - 1)), (1 << w) - 1)
        return lin(a)

    def inrange(self, st, l, w):
        if self.narrow_ok(st, l, w):
            return True
        return st.prove_ge0(l + (1 << (w - 1))) and st.prove_ge0(const((1 << w) - 1) - l)

    def narrow_ok(self, st, l, w):
        for a in l.t:
            if a.w == 'p' or not isinstance(a.w, int) or a.w > w:
                return False
        return True

    def arith(self, st, op, a, b, w):
        if w == 1:
            ca, cb = self.tocond(st, a), self.tocond(st, b)
            if op == 'and' or op == 'mul':
                return cand(ca, cb)
            if op == 'or':
                return cor(ca, cb)
            if op in ('xor', 'add', 'sub'):
                if cb == T:
                    return cnot(ca)
                if cb == F:
                    return ca
                return cor(cand(ca, cnot(cb)), cand(cnot(ca), cb))
            return ne0(lin(self.fresh('b', 1)))
        a = self.tolin(st, a); b = self.tolin(st, b)
        if op == 'add':
            return a + b
        if op == 'sub':
            return a - b
        ca, cb = not a.t, not b.t
        if op == 'mul':
            if ca:
                return b.scale(a.c)
            if cb:
                return a.scale(b.c)
        if op == 'shl' and cb and 0 <= b.c < 64:
            return a.scale(1 << b.c)
        if ca and cb:
            return const(_cfold(op, a.c, b.c, w or 64))
        mask = (1 << (w or 64)) - 1
        if op == 'and':
            if ca:
                a, b = b, a; ca, cb = cb, ca
            if cb:
                if b.c == 0:
                    return ZERO
                if b.c == -1 or b.c & mask == mask:
                    return a
                x = self.op('and', [a, b], w)
                if b.c > 0:
                    x.lo = 0; x.hi = b.c if x.hi is None else min(x.hi, b.c)
                return lin(x)
            a, b = sorted((a, b), key=repr)
            return lin(self.op('and', [a, b], w))
        if op in ('or', 'xor'):
            if ca:
                a, b = b, a; ca, cb = cb, ca
            if cb and b.c == 0:
                return a
            if op == 'xor' and cb and (b.c == -1):
                return -a - 1
            if not cb:
                a, b = sorted((a, b), key=repr)
            return lin(self.op(op, [a, b], w))
        if op in ('udiv', 'lshr', 'sdiv', 'ashr') and cb and b.c >= 0:
            d = b.c if op in ('udiv', 'sdiv') else (1 << b.c)
            if d == 1:
                return a
            if d > 0:
                # exact multiples
                if op != 'udiv' and op != 'lshr' or st.prove_ge0(a):
                    if all(k % d == 0 for k in a.t.values()) and a.c % d == 0:
                        return Lin({x: k // d for x, k in a.t.items()}, a.c // d)
                if st.prove_ge0(a):
                    x = self.op('div', [a, const(d)], w, 0)
                    x.axioms = (a - lin(x).scale(d), lin(x).scale(d) + (d - 1) - a)
                    return lin(x)
                if op == 'ashr':
                    x = self.op('ashr', [a, b], w)
                    x.axioms = (a - lin(x).scale(d), lin(x).scale(d) + (d - 1) - a)
                    return lin(x)
                x = self.op(op, [a, b], w)
                if op == 'sdiv':
                    x.axioms = (a - lin(x).scale(d) + (d - 1), lin(x).scale(d) + (d - 1) - a)
                return lin(x)
        if op in ('urem', 'srem') and cb and b.c > 0:
            if st.prove_ge0(a):
                q = self.arith(st, 'udiv', a, b, w)
                return a - q.scale(b.c)
            return lin(self.op(op, [a, b], w, 0 if op == 'urem' else -(b.c - 1), b.c - 1))
        return lin(self.op(op, [a, b], w))

    # ---- calls
    def do_call(self, st, i, ctx):
        """-> [('ret'|'throw', state)] with the result stored in the environment"""
        cal = i.d['callee']
        args = [self.operand(st, o, ctx) for o in i.ops]
        fn = None; base = None
        cv = None
        if cal[0] == 'g':
            fn = self.m.funcs.get(cal[1])
        else:
            cv = self.operand(st, cal, ctx)
            cv = self.tolin(st, cv)
            a = cv.single()
            if a is not None and a.kind == 'g' and a.key[1] in self.m.funcs:
                fn = self.m.funcs[a.key[1]]
        base = fn.base if fn is not None else None
        outs = []

        def finish(s, v):
            if i.id is not None and i.ty != 'void':
                if i.w == 1 and isinstance(v, Lin):
                    v = ne0(v)
                s.env[i.id] = v
            return ('ret', s)
        r = self.rule.on_call(self, st, i, fn, base, args, ctx)
        if r is None and self.models is not None:
            r = self.models.call(self, st, i, fn, base, args, ctx)
        if r is not None:
            for x in r:
                if x[0] == 'throw':
                    x[1].exc = None
                    outs.append(('throw', x[1]))
                else:
                    outs.append(finish(x[0], x[1]))
            return outs
        if fn is not None and fn.repo and ctx.depth < self.rule.max_depth and ctx.fns.count(fn.name) < 1 and self.rule.inline(self, fn, ctx):
            c2 = Ctx(ctx.path + (i.id,), ctx.depth + 1, ctx.fns + (fn.name,), fn, ctx, i)
            c2.va = tuple(args[len(fn.args):])
            for idx in i.d.get('byval', []):
                pass
            env = st.env
            exits = self.exec_fn(fn, args[:len(fn.args)], st, c2)
            for e in exits:
                e.st.env = dict(env)
                if e.kind == 'ret':
                    v = e.val
                    if v is None:
                        v = ZERO
                    outs.append(finish(e.st, v))
                elif e.kind == 'throw' and not fn.d.get('nounwind'):
                    outs.append(('throw', e.st))
            if len(outs) > self.rule.max_states * Engine.SCALE:
                outs = self._merge_outs(outs, i, ctx)
            return outs
        return self.opaque_call(st, i, fn, base, args, ctx)

    def _merge_outs(self, outs, i, ctx):
        r = []
        for kind in ('ret', 'throw'):
            ss = [s for k, s in outs if k == kind]
            groups = {}
            for s in ss:
                groups.setdefault(self.okey(s), []).append(s)
            r += [(kind, self.join(g)) for g in groups.values()]
        return r

    def retval(self, i, fn, name=None):
        w = i.w or ('p' if i.ty == 'ptr' else 64)
        if i.ty.startswith('{'):
            return Tup([lin(self.fresh('ret', 'p')), lin(self.fresh('ret', 64))])
        a = self.fresh(name or (('ret_' + (fn.short or fn.base)) if fn is not None else 'ret_indirect'), w, kind='ret')
        if fn is not None and fn.d.get('ditypes'):
            t = self.m.type(fn.d['ditypes'][0])
            if t is not None and t.strip() is not None:
                self.settype(a, t)
                if t.strip().tag in ('reference_type', 'rvalue_reference_type'):
                    a.lo = 1
        self._rng(a, w)
        if w == 'p':
            a.w = 'p'
            if a.lo is None:
                a.lo = 0
        if w == 1:
            a.lo, a.hi = 0, 1
        return lin(a)

    def clobber_args(self, st, fn, args, const_this=False):
        for n, v in enumerate(args):
            if not isinstance(v, Lin):
                continue
            v = st.res(v)
            b, o = split_ptr(v)
            if b is None or b.w not in ('p',) and b.kind not in ('alloca', 'g', 'heap'):
                continue
            if n == 0 and const_this:
                continue
            if b.kind == 'g' and (self.m.globals.get(b.key[1], {}).get('const') or b.key[1] in self.m.funcs):
                continue
            t = b.pt
            lo = hi = None
            if not o.t and t is not None and t.is_record():
                # only the addressed member (sub-object) is handed out
                path, leaf, off = self.m.field_at(t, o.c)
                for rec, f in reversed(path):
                    pass
                if path and o.c > 0:
                    tot = 0
                    lo = o.c; ft = None
                    # outermost member starting exactly at this offset
                    accum = 0
                    for rec, f in path:
                        accum += f.off
                        if accum == o.c:
                            ft = f.strip(); break
                    hi = lo + (ft.size if ft is not None else 8)
            self.havoc_obj(st, b, lo, hi)

    def opaque_call(self, st, i, fn, base, args, ctx):
        name = base or 'indirect'
        self.opaque.add(name)
        outs = []
        if (fn is not None and fn.noret) or i.d.get('noret'):
            if fn is not None and base in ('__cxa_throw', '__cxa_rethrow') or (base or '').startswith('std::__throw_'):
                if base == '__cxa_throw':
                    g = self.tolin(st, args[1]).single()
                    st.exc = g.key[1] if g is not None and g.kind == 'g' else None
                elif base != '__cxa_rethrow':
                    st.exc = None
                return [('throw', st)]
            return []
        if fn is not None and fn.dem.startswith('llvm.'):
            return self.intrinsic(st, i, fn, args, ctx)
        if self.rule.may_throw(self, fn, base):
            s2 = st.copy(); s2.exc = None
            outs.append(('throw', s2))
        cm = fn is not None and fn.dem.endswith(' const')
        for v in args:
            self.escape(st, v)
        self.clobber_args(st, fn, args, cm)
        if fn is None or fn.repo:
            self.havoc_shared(st)
        v = self.retval(i, fn) if i.ty != 'void' else ZERO
        if i.id is not None and i.ty != 'void':
            st.env[i.id] = v if i.w != 1 else ne0(v) if isinstance(v, Lin) else v
        outs.append(('ret', st))
        return outs

    def tinfo(self, name):
        return 1000 + self._tinfo.setdefault(name, len(self._tinfo))

    def exc_isa(self, thrown, caught):
        if thrown == caught:
            return True
        n = lambda x: re.sub(r'^_ZTI\d*', '', x)
        for t in self.m.types:
            if t.is_record() and t.name == n(thrown):
                return self._base(t, n(caught))
        return False

    def _base(self, t, name):
        return t is not None and (t.name == name or any(f.tag == 'inheritance' and self._base(f.strip(), name) for f in t.fields()))

    def intrinsic(self, st, i, fn, args, ctx):
        n = fn.dem
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.memcpy(st, i, args[0], args[1], self.tolin(st, args[2]), ctx)
        elif n.startswith('llvm.memset'):
            self.memset(st, i, args[0], self.tolin(st, args[1]), self.tolin(st, args[2]), ctx)
        elif n.startswith('llvm.va_start'):
            pass
        elif n.startswith('llvm.eh.typeid'):
            g = self.tolin(st, args[0]).single()
            if st.exc is not None and g is not None and g.kind == 'g':
                x = g.key[1]
                st.env[i.id] = const(self.tinfo(st.exc if self.exc_isa(st.exc, x) else x))
            else:
                st.env[i.id] = lin(self.atom('op', ('typeid',) + tuple(str(a) for a in args), 'typeid', 32))
        elif n.startswith(('llvm.abs', 'llvm.smax', 'llvm.umax', 'llvm.smin', 'llvm.umin')):
            st.env[i.id] = lin(self.op(n, [self.tolin(st, a) for a in args], i.w or 64))
        elif n.startswith('llvm.umul.with.overflow') or '.with.overflow' in n:
            a, b = self.tolin(st, args[0]), self.tolin(st, args[1])
            v = self.arith(st, 'mul' if 'mul' in n else 'add' if 'add' in n else 'sub', a, b, 64)
            st.env[i.id] = Tup([v, F])
        elif n.startswith('llvm.fabs') or n.startswith('llvm.fmuladd'):
            st.env[i.id] = lin(self.op(n, [self.tolin(st, a) for a in args]))
        elif i.id is not None and i.ty != 'void':
            st.env[i.id] = self.retval(i, fn)
        return [('ret', st)]

    def memcpy(self, st, i, dst, src, n, ctx):
        db, do = self.addr(st, dst); sb, so = self.addr(st, src)
        self.rule.on_access(self, st, i, 'load', sb, so, n if n.t else n.c, None, ctx)
        self.rule.on_access(self, st, i, 'store', db, do, n if n.t else n.c, None, ctx)
        if db is None:
            return
        ents = []
        if not n.t and isinstance(do, int) and isinstance(so, int) and sb is not None:
            for (b, o), (sz, v) in st.mem.items():
                if b is sb and isinstance(o, int) and so <= o and o + sz <= so + n.c:
                    ents.append((o - so, sz, v))
            # untouched scalar members get their (symbolic) initial value
            t = self._subrecord(sb, so, n.c) or self._subrecord(db, do, n.c)
            if t is not None and n.c <= 256:
                for off, sz, ft in leaf_fields(self.m, t):
                    if not any(e[0] == off for e in ents):
                        w = 'p' if ft.is_ptr() else sz * 8
                        if sz in (1, 2, 4, 8):
                            ents.append((off, sz, self.load(st, sb, so + off, sz, w)))
            elif n.c in (1, 2, 4, 8) and not ents:
                ents.append((0, n.c, self.load(st, sb, so, n.c, 64 if n.c == 8 else n.c * 8)))
        st.mem = dict(st.mem)
        if not n.t and isinstance(do, int):
            for (b, o) in list(st.mem):
                if b is db and (isinstance(o, Lin) or (o < do + n.c and o + st.mem[(b, o)][0] > do)):
                    del st.mem[(b, o)]
            st.newver(db) if not ents else None
        else:
            for (b, o) in list(st.mem):
                if b is db:
                    del st.mem[(b, o)]
            st.newver(db)
        if db.kind not in ('alloca', 'heap', 'g'):
            self.invalidate_at(st, db, do, n.c if not n.t else 1 << 30)
        for off, sz, v in ents:
            st.mem[(db, do + off)] = (sz, v)
            self.escape(st, v) if db.kind != 'alloca' else None

    def _subrecord(self, b, o, n):
        if b is None or b.pt is None or not isinstance(o, int):
            return None
        t = b.pt
        if o == 0 and t.is_record() and t.size == n:
            return t
        path, leaf, off = self.m.field_at(t, o) if o >= 0 else ([], None, 0)
        acc = 0
        for rec, f in path:
            acc += f.off
            ft = f.strip()
            if acc == o and ft is not None and ft.is_record() and ft.size == n:
                return ft
        return None

    def memset(self, st, i, dst, val, n, ctx):
        db, do = self.addr(st, dst)
        self.rule.on_access(self, st, i, 'store', db, do, n if n.t else n.c, val, ctx)
        if db is None:
            return
        st.mem = dict(st.mem)
        for (b, o) in list(st.mem):
            if b is db and (n.t or isinstance(o, Lin) or isinstance(do, Lin) or (o < do + n.c and o + st.mem[(b, o)][0] > do)):
                del st.mem[(b, o)]
        if db.kind not in ('alloca', 'heap', 'g'):
            self.invalidate_at(st, db, do, n.c if not n.t else 1 << 30)
        st.fills = st.fills + ((db, do if isinstance(do, Lin) else const(do), n, val, next(_uniq)),)


def leaf_fields(m, t, off=0):
    out = []
    for f in t.fields():
        s = f.strip()
        if s is None:
            continue
        if s.is_record():
            out += leaf_fields(m, s, off + f.off)
        elif s.tag == 'array_type':
            e = s.elem(); es = e.strip() if e is not None else None
            if es is None or not es.size:
                continue
            for k in range(min(s.size // es.size, 32)):
                if es.is_record():
                    out += leaf_fields(m, es, off + f.off + k * es.size)
                else:
                    out.append((off + f.off + k * es.size, es.size, es))
        elif s.size:
            out.append((off + f.off, s.size, s))
    return out


def repr_key(l):
    return (sorted((a.id, k) for a, k in l.t.items()), l.c)


def _isptr(l):
    return any(a.w == 'p' for a in l.t)


def _cfold(op, a, b, w):
    m = (1 << w) - 1
    ua, ub = a & m, b & m

    def sg(x):
        x &= m
        return x - (1 << w) if x >> (w - 1) else x
    if op == 'and': return sg(ua & ub)
    if op == 'or': return sg(ua | ub)
    if op == 'xor': return sg(ua ^ ub)
    if op == 'shl': return sg(ua << ub) if ub < w else 0
    if op == 'lshr': return ua >> ub if ub < w else 0
    if op == 'ashr': return sg(a) >> ub if ub < w else 0
    if op == 'udiv': return ua // ub if ub else 0
    if op == 'urem': return ua % ub if ub else 0
    if op == 'sdiv': return int(sg(a) / sg(b)) if b else 0
    if op == 'srem': return (abs(sg(a)) % abs(sg(b))) * (1 if sg(a) >= 0 else -1) if b else 0
    return 0


def cstr(c):
    k = c[0]
    if k in 'TF':
        return k
    if k in ('and', 'or'):
        return '(' + (' && ' if k == 'and' else ' || ').join(cstr(x) for x in c[1]) + ')'
    return '%r %s 0' % (c[1], {'ge0': '>=', 'eq0': '==', 'ne0': '!='}[k])
