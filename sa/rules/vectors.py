"""C11: accesses of the vector classes against the memory of the vectors involved."""
import os, re
from .common import *
from ..shapes import par, isstr, iscstr

VEC = ('VectorBase', 'Vector', 'BitVector', 'SoftVector')
SMALL = ((17, 12), (9, 9), (6, 4), (4, 2))
STRS = ('', 'ab', 'abc', 'abcd')


def vrec(m, t):
    """the VectorBase<> record inside a vector class, or None"""
    if t is None or not t.is_record():
        return None
    if is_class(t, 'VectorBase'):
        return t
    for f in t.fields():
        if f.tag == 'inheritance':
            r = vrec(m, f.strip())
            if r is not None:
                return r
    return None


def layout(rec):
    """(element size, offsets of owned block, start, end)"""
    mem = {f.name: f for f in rec.fields() if f.tag == 'member'}
    if not all(n in mem for n in ('mData', 'mStart', 'mEnd')):
        return None
    e = mem['mStart'].strip().pointee()
    return e.size, mem['mData'].off, mem['mStart'].off, mem['mEnd'].off


class VecRule(RuleBase):
    max_states = 200
    budget = 1500000

    def __init__(self, name, small):
        super().__init__(); self.name = name; self.concrete = small; self.size = {}; self.cstrs = {}; self.n = 0; self.open = 0; self.done = set()
        self.unroll = 40

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items())

    def exact(self, l, d=0):
        if not isinstance(l, Lin) or d > 8:
            return not isinstance(l, Lin) and d <= 8
        for a in l.t:
            if a.kind in ('param', 'obj', 'g', 'K', 'ret', 'ld'):
                if a.kind == 'ld' and not (self.exact(a.key[2], d + 1)):
                    return False
                continue
            if a.kind == 'op' and all(self.exact(x, d + 1) for x in a.key[2:]):
                continue
            return False
        return True

    def room(self, b):
        if b in self.size:
            return self.size[b]
        if b.kind == 'heap' and isinstance(b.meta, dict) and isinstance(b.meta.get('size'), Lin):
            return b.meta['size']
        return None

    def check(self, eng, st, i, kind, b, o, size):
        cap = self.room(b)
        if cap is None:
            return
        if isinstance(size, Lin) and not st.res(size).t and st.res(size).c <= 0:
            return
        o = st.res(o if isinstance(o, Lin) else const(o)); size = st.res(size if isinstance(size, Lin) else const(size))
        self.n += 1
        cap = st.res(cap)
        for what, d in (('before the start', o), ('past the end', cap - o - size)):
            d = st.res(d)
            if st.prove_ge0(d):
                continue
            if what.startswith('past') and size.t and st.prove_ge0(-size):
                continue
            outs = [s for s in st.copy().assume(ge0(-d - 1)) if not size.t or s.prove_ge0(size - 1) or s.assume(ge0(size - 1))]
            if not outs:
                continue
            if self.exact(d) and (not size.t or self.exact(size)):
                self.report(outs[0], 'C11/%s/%s' % (self.name, what.split(' ')[-1]), i.where(), '%s: %s %s of %s (offset %s, %s bytes; there are %s)' % (self.name, {'load': 'reads', 'ref': 'returns a reference'}.get(kind, 'writes'), what, b.name, o, size, cap))
            else:
                self.open += 1
                return
        self.done.add(i.where())

    def on_access(self, eng, st, i, kind, b, o, size, val, ctx):
        if b is not None:
            self.check(eng, st, i, kind, b, o, size)

    def result(self, m, eng, e, f, args):
        """what the function hands back stays inside, too: a reference to an element, and the bounds of every vector involved"""
        st = e.st
        t = f.d.get('ditypes') or []
        rt = m.type(t[0]) if t else None
        if rt is not None and rt.tag == 'reference_type' and isinstance(e.val, Lin):
            b, o = eng.addr(st, e.val)
            if b is not None:
                self.check(eng, st, e.inst, 'ref', b, o, 1)
        for k, v in enumerate(args):
            a = v.single() if isinstance(v, Lin) else None
            rec = vrec(m, a.pt) if a is not None and a.pt is not None else None
            if rec is None and a is not None and f.args[k].get('sret') and rt is not None:
                rec = vrec(m, rt.strip())
            lay = layout(rec) if rec is not None else None
            if lay is None:
                continue
            for off, what in ((lay[2], 'begins'), (lay[3], 'ends')):
                p = eng.load(st, a, off, 8, 'p')
                b, o = eng.addr(st, p)
                if b is None or b in self.cstrs or self.room(b) is None:
                    continue
                self.n += 1
                cap = st.res(self.room(b)); o = st.res(o if isinstance(o, Lin) else const(o))
                d = st.res(o if what == 'begins' else cap - o)
                if st.prove_ge0(d):
                    continue
                outs = st.copy().assume(ge0(-d - 1))
                if outs and self.exact(d):
                    self.report(outs[0], 'C11/%s/%s' % (self.name, what), e.inst.where(), '%s leaves %s with an element range that %s outside %s (offset %s; there are %s bytes)' % (self.name, a.name, what, b.name, o, cap))
                elif outs:
                    self.open += 1

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if base is None:
            return None
        if base in ('memcmp', 'bcmp'):
            n = st.res(eng.tolin(st, args[2]))
            for a in args[:2]:
                b, o = eng.addr(st, a)
                if b is not None:
                    self.check(eng, st, i, 'load', b, o, n)
            return [(st, eng.retval(i, fn))]
        if base == 'strlen':
            b, o = eng.addr(st, args[0])
            if b in self.cstrs and not isinstance(o, Lin) and 0 <= o <= len(self.cstrs[b]):
                return [(st, const(len(self.cstrs[b]) - o))]
        if base == 'sscanf':
            b, o = eng.addr(st, args[0])
            for a in args[2:]:
                ob, oo = eng.addr(st, a)
                if ob is not None and not isinstance(oo, Lin):
                    eng.store(st, ob, oo, 4, lin(eng.fresh('scanned', 32)))
            if b in self.cstrs and not isinstance(o, Lin):
                self.check(eng, st, i, 'load', b, o, 1)
                if o >= len(self.cstrs[b]):
                    return [(st, const(-1))]
                return [(st, const(1)), (st.copy(), ZERO)]
            s2 = st.copy()
            return [(st, const(1)), (s2, ZERO)]
        if fn is not None and not fn.repo and ('ostream' in fn.dem or 'basic_string' in fn.dem or 'std::ios' in fn.dem) and not base.endswith(('::begin', '::end')):
            return [(st, args[0] if i.ty == 'ptr' and args else eng.retval(i, fn) if i.ty != 'void' else ZERO)]
        if fn is not None and fn.repo and fn.blocks and not any(v in fn.dem for v in VEC) and not fn.file.endswith('.h') and 'Generator' not in fn.dem:
            return cutcall(eng, st, i, fn, args)
        return None


def setup(m, rule, eng, st, f, args, small, text, fixed=None):
    """the vectors, tables, byte blocks and texts a function is given"""
    ps = par(f)
    sh = 1 if f.args and f.args[0].get('sret') else 0
    vecs = []
    MAX, NUM = small if small else (1 << 28, 1 << 30)
    tag = ''
    nums = []
    tables = []
    for k, v in enumerate(args):
        if not isinstance(v, Lin):
            continue
        a = v.single()
        if a is None:
            continue
        if f.args[k].get('sret'):
            continue
        rec = vrec(m, a.pt) if a.pt is not None else None
        if rec is not None:
            lay = layout(rec)
            if lay is None:
                return None
            if k == sh and is_ctor(f):
                continue
            es, od, os_, oe = lay
            B = eng.atom('param', ('block', k, tag), 'the memory of %s' % a.name, 'p', 1)
            B.lo = 1
            n = eng.atom('param', ('size', k, tag), 'size of %s' % a.name, 64); n.lo = 0; n.hi = MAX
            if fixed is not None and not vecs:
                n.lo = n.hi = fixed
            rule.size[B] = lin(n).scale(es)
            for o, val in ((od, lin(B)), (os_, lin(B)), (oe, lin(B) + lin(n).scale(es))):
                eng.store(st, a, o, 8, val)
            vecs.append((a, B, n, es))
        elif f.args[k]['ty'] == 'ptr':
            p = ps[k - sh - 1] if f.cls is not None and f.cls >= 0 and 0 <= k - sh - 1 < len(ps) else ps[k - sh] if 0 <= k - sh < len(ps) else ''
            tables.append((k, a, p))
        elif a.w in (32, 64):
            nums.append((k, a))
            a.lo = 0 if a.lo is None else max(a.lo, 0)
            a.hi = NUM if a.hi is None else min(a.hi, NUM)
    for k, a, p in tables:
        if p in ('char const*', 'const char*', 'const char *', 'char const *'):
            B = a; a.lo = 1
            rule.cstrs[B] = text
            rule.size[B] = const(len(text) + 1)
            for x in range(len(text)):
                c = eng.atom('param', ('char', k, x), 'character %d' % x, 8); c.lo = 1; c.hi = 127
                eng.store(st, B, x, 1, lin(c))
            eng.store(st, B, len(text), 1, ZERO)
        elif p.replace('const', '').replace(' ', '') in ('unsigned*', 'unsignedint*', 'int*'):
            nx = [b for j, b in nums if j > k]
            if nx:
                a.lo = 1
                rule.size[a] = lin(nx[0]).scale(4)
        elif p.replace('const', '').replace(' ', '') == 'unsignedchar*' and vecs:
            a.lo = 1
            if fixed is not None:
                rule.size[a] = const((fixed + 7) // 8)
        elif 'unsigned long&' in p:
            a.lo = 1
            r = eng.atom('param', ('index', k), '%s' % a.name, 64); r.lo = 0; r.hi = NUM
            eng.store(st, a, 0, 8, lin(r))
    return vecs


def c11(cx):
    m = cx.m
    cx.rule('Every public member of the vector classes (all instantiations) on vectors of arbitrary size with arbitrary offsets, lengths, table entries and texts: every load, store and block copy lies inside the elements of a vector involved, '
            'the index table, the byte array of the packed size, or memory the operation allocated itself; a reference handed back refers to an element, and the element range of every vector left behind lies inside its memory. First for all sizes, with loops summarised; then iteration by iteration, without any approximation, for all sizes up to 17 elements and all offsets and lengths up to 12 (fewer where the paths are too many), '
            'so that a violation is always a real path. A failed assertion ends the path.')
    meth = [f for f in methods_of(m, VEC + ('Parity',), ctors=True)]
    for f in m.repo_funcs():
        if f.short and 'operator<<' in f.dem and any(v in f.dem for v in ('BitVector', 'SoftVector', 'Vector<')):
            meth.append(f)
    total = 0; proved = set(); insts = set()
    if not meth:
        raise core.Broken('no vector classes found')
    for f in meth:
        if not is_public(m, f) and not is_ctor(f):
            continue
        if is_dtor(f):
            continue
        ps = par(f)
        texts = STRS if any(p in ('char const*', 'const char*') for p in ps) else ('',)
        bytes_ = any(p.replace('const', '').replace(' ', '') == 'unsignedchar*' for p in ps)
        und = None; known = True
        for small in (None,) + SMALL:
            try:
                for text in texts:
                    for fixed in (range(25) if small and bytes_ else (None,)):
                        rule = VecRule(f.base, bool(small))
                        eng = Engine(m, rule, Models())
                        if small:
                            eng.LIMIT = 8.0 if cx.tier != 'thorough' else 60.0
                        st = State()
                        args = eng.params(f)
                        if setup(m, rule, eng, st, f, args, small, text, fixed) is None:
                            known = False; break
                        stop = None
                        try:
                            for e in eng.run(f, st, args):
                                if e.kind == 'ret':
                                    rule.result(m, eng, e, f, args)
                        except Budget as e:
                            stop = e
                        cx.fn(f)
                        for g in eng.inlined:
                            cx.fn(m.funcs[g])
                        total += rule.n
                        insts |= rule.done
                        rule.met('%s%s' % (f.dem[:160], ' (sizes up to %d, numbers up to %d)' % small if small else ' (all sizes)'), not rule.rep)
                        drain(cx, rule)
                        if stop:
                            raise stop
                        if small and rule.open:
                            und = 'accesses not followed exactly'
                if small:
                    break
            except Budget as e:
                if small == SMALL[-1]:
                    und = str(e)
            if not known:
                cx.undecided(f.dem, 'members not recognised'); break
        if und:
            cx.undecided(f.dem[:200], und)
    cx.atleast('accesses', total, 50)
