"""C15, C32, C33: small value classes; results compared as exact functions of the inputs on every path."""
from .common import *


class VRule(RuleBase):
    """library calls: std::min/std::max are decided by the comparison of what their arguments refer to"""
    lib = True

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if base in ('std::min', 'std::max') and len(args) == 2:
            b1, o1 = eng.addr(st, args[0]); b2, o2 = eng.addr(st, args[1])
            t = eng.typeat(b1, o1) if b1 is not None and not isinstance(o1, Lin) else None
            t2 = eng.typeat(b2, o2) if b2 is not None and not isinstance(o2, Lin) else None
            t = t or t2
            d = fn.dem
            fl = '<float>' in d or '<double>' in d
            n = 8 if ('<double>' in d or '<long>' in d or '<unsigned long>' in d) else 4 if ('<float>' in d or '<int>' in d or '<unsigned int>' in d) else None
            if n and b1 is not None and b2 is not None:
                x = eng.load(st, b1, o1, n, n * 8); y = eng.load(st, b2, o2, n, n * 8)
                x = st.res(eng.tolin(st, x)); y = st.res(eng.tolin(st, y))
                if fl:
                    c = fless(eng, y, x) if base == 'std::min' else fless(eng, x, y)
                else:
                    c = ge0(x - y - 1) if base == 'std::min' else ge0(y - x - 1)
                s2 = st.copy(); out = []
                out += [(x, args[1]) for x in st.assume(c)]
                out += [(x, args[0]) for x in s2.assume(cnot(c))]
                return out
        return None


def fless(eng, a, b):
    from ..engine import repr_key
    if a == b:
        return F
    sw = repr_key(a) > repr_key(b)
    x = eng.op('fsign', [b, a] if sw else [a, b], 8, -1, 1)
    sg = -lin(x) if sw else lin(x)
    return ge0(-sg - 1)


def assume(st, c):
    """copy of st with c (a conjunction) assumed, or None if impossible"""
    r = st.copy().assume(c)
    return r[0] if r else None


def cases(st, c):
    return st.copy().assume(c)


def obj(eng, name, rec):
    a = eng.atom('obj', ('v', name), name, 'p', 1); a.pt = rec
    return a


def bare(m, f, cls):
    return f.base.split('::')[-1]


# ---- C32
CMP = ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=')


def partype(m, f, k=1):
    """debug type of the k-th source parameter after this (reference stripped)"""
    dts = f.d.get('ditypes') or []
    if k + 1 >= len(dts):
        return None
    t = m.type(dts[k + 1])
    if t is None:
        return None
    s = t.strip()
    if s is not None and s.tag in ('reference_type', 'rvalue_reference_type'):
        p = t.pointee()
        return p
    return s


def tname(t):
    return (t.name or t.tag) if t is not None else '?'


class OpRunner:
    def __init__(self, cx, recA, opname):
        self.cx = cx; self.rule = VRule(); self.eng = Engine(cx.m, self.rule, Models())
        self.ok = True

    def call(self, st, f, args):
        """[(state, value)] of returning paths; value of class results: the object address"""
        out = []
        eng = self.eng
        a = list(args)
        sret = bool(f.args and f.args[0].get('sret'))
        rv = None
        if sret:
            rv = eng.atom('alloca', ('rv', f.name, id(st)), 'result', 'p', 1)
            t = self.cx.m.type((f.d.get('ditypes') or [None])[0]) if f.d.get('ditypes') else None
            rv.pt = t.strip() if t is not None else None
            a = [lin(rv)] + a
        for x in eng.run(f, st, a):
            if x.kind == 'ret':
                out.append((x.st, lin(rv) if sret else x.val))
        for n in eng.inlined:
            self.cx.fn(self.cx.m.funcs[n])
        return out


def same_bool(cx, name, key, run, st, f, fa, g, ga, neg, where, msg):
    """g(ga) == (not) f(fa) on every path"""
    bad = None; und = False
    for s1, v1 in run.call(st.copy(), f, fa):
        for s2, v2 in run.call(s1, g, ga):
            c1 = run.eng.tocond(s2, v1); c2 = run.eng.tocond(s2, v2)
            for truth in (True, False):
                for s in cases(s2, c1 if truth else cnot(c1)):
                    d = s.decide(c2)
                    want = truth != neg
                    if d is None:
                        l = [run.eng.tolin(s, v) for v in (v1, v2)]
                        if all(precise(x) for x in l):
                            bad = bad or core.pathlist(s) or ['?']
                        else:
                            und = True
                    elif d != want:
                        bad = bad or core.pathlist(s) or ['%s is %s' % (f.base, truth)]
    if bad is None and und:
        cx.undecided(name, 'comparison of values the analysis does not follow')
        return
    cx.obligation(name, bad is None, where, msg, bad or [], key=key)


def implies(cx, name, key, run, st, f, fa, g, ga, value, where, msg):
    """when f(fa) is true, g(ga) is `value`"""
    bad = None; und = False
    for s1, v1 in run.call(st.copy(), f, fa):
        for s2, v2 in [y for s in cases(s1, run.eng.tocond(s1, v1)) for y in run.call(s, g, ga)]:
            d = s2.decide(run.eng.tocond(s2, v2))
            if d is None:
                if precise(run.eng.tolin(s2, v2)) and precise(run.eng.tolin(s2, v1)):
                    bad = bad or core.pathlist(s2) or ['?']
                else:
                    und = True
            elif d != value:
                bad = bad or core.pathlist(s2) or ['?']
    if bad is None and und:
        cx.undecided(name, 'comparison of values the analysis does not follow'); return
    cx.obligation(name, bad is None, where, msg, bad or [], key=key)


def c32(cx):
    cx.rule('Every operator of a class is evaluated symbolically on two arbitrary objects, and pairs of operators are composed on the same state: != against not ==, > against '
            'exchanged <, <= and >= against the negations, equality excludes both orders and excluding all three is impossible; each compound assignment leaves the object '
            'with the value of the plain operator; increments and decrements change the value by one and yield the new or old value; an assignment yields what it assigned.')
    m = cx.m
    by = {}
    for f in m.repo_funcs():
        last = f.base.split('::')[-1]
        if not last.startswith('operator') or last == 'operator<<' or '::' not in f.base:
            continue
        rec, me = method_info(m, f)
        if rec is None:
            continue
        by.setdefault(rec.id, (rec, []))[1].append(f)
    n = 0
    for rid in sorted(by):
        rec, fs = by[rid]
        if 'iterator' in rec.name or is_class(rec, 'ThreadSafeIterator') or strip_t(rec.name) in ('VectorBase', 'Vector', 'BitVector', 'SoftVector', 'InterthreadQueue', 'ScopedIteratorTemplate'):
            continue
        cmps = {}; plain = {}; comp = {}
        for f in fs:
            op = f.base.split('::')[-1]
            nargs = len([a for a in f.args if not a.get('sret')])
            if op in CMP and nargs == 2:
                cmps.setdefault(tname(partype(m, f)), {})[op] = f
            elif op in ('operator+', 'operator-', 'operator*', 'operator/', 'operator%', 'operator|', 'operator&', 'operator^') and nargs == 2:
                plain[(op, tname(partype(m, f)))] = f
            elif op in ('operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator%=', 'operator|=', 'operator&=', 'operator^='):
                comp[(op, tname(partype(m, f)))] = f
        cname = rec.name
        for pt, ops in sorted(cmps.items()):
            same = pt == rec.name or strip_t(pt) == strip_t(rec.name)

            def pair(a, b):
                return ops.get(a), ops.get(b)
            run = OpRunner(cx, rec, cname)
            A = lin(obj(run.eng, 'a', rec))
            f0 = next(iter(ops.values()))
            P = partype(m, f0)
            if P is not None and P.is_record():
                B = lin(obj(run.eng, 'b', P))
            else:
                p = run.eng.params(f0)
                B = p[1]
            st = State()
            tag = 'C32/%s/%s' % (cname, pt if not same else 'self')

            def eqv(x, y, xa, ya, neg, text):
                nonlocal n
                if x in ops and y in ops:
                    n += 1
                    nm = '%s %s %s' % (tag, x, y)
                    same_bool(cx, nm, nm, run, st, ops[x], xa, ops[y], ya, neg, ops[y].where(), '%s: %s' % (cname, text))
            eqv('operator==', 'operator!=', [A, B], [A, B], True, 'operator!= is not the negation of operator==')
            if same:
                eqv('operator<', 'operator>', [A, B], [B, A], False, 'a > b does not mean b < a')
                eqv('operator<', 'operator>=', [A, B], [A, B], True, 'operator>= is not the negation of operator<')
                eqv('operator>', 'operator<=', [A, B], [A, B], True, 'operator<= is not the negation of operator>')
                eqv('operator<=', 'operator>=', [A, B], [B, A], False, 'a >= b does not mean b <= a')
            else:
                eqv('operator<', 'operator>=', [A, B], [A, B], True, 'operator>= is not the negation of operator<')
                eqv('operator>', 'operator<=', [A, B], [A, B], True, 'operator<= is not the negation of operator>')

            def imp(x, y, val, text):
                nonlocal n
                if x in ops and y in ops:
                    n += 1
                    nm = '%s %s implies %s %s' % (tag, x, '' if val else 'not', y)
                    implies(cx, nm, nm, run, st, ops[x], [A, B], ops[y], [A, B], val, ops[y].where(), '%s: %s' % (cname, text))
            imp('operator==', 'operator<', False, 'objects can be equal and one less than the other')
            imp('operator==', 'operator>', False, 'objects can be equal and one greater than the other')
            imp('operator<', 'operator>', False, 'an object can be both less and greater')
            if all(x in ops for x in ('operator==', 'operator<', 'operator>')):
                n += 1
                bad = None; und = False
                for s1, v1 in run.call(st.copy(), ops['operator<'], [A, B]):
                    for s2, v2 in [y for s in cases(s1, cnot(run.eng.tocond(s1, v1))) for y in run.call(s, ops['operator>'], [A, B])]:
                        for s3, v3 in [y for s in cases(s2, cnot(run.eng.tocond(s2, v2))) for y in run.call(s, ops['operator=='], [A, B])]:
                            d = s3.decide(run.eng.tocond(s3, v3))
                            if d is False or (d is None and precise(run.eng.tolin(s3, v3))):
                                bad = core.pathlist(s3) or ['?']
                            elif d is None:
                                und = True
                if bad is None and und:
                    cx.undecided(tag + ' total')
                else:
                    cx.obligation(tag + ' total', bad is None, ops['operator=='].where(), '%s: two objects can be neither equal nor ordered' % cname, bad)
            for op, f in sorted(ops.items()):
                # the operands are not changed
                run2 = OpRunner(cx, rec, cname)
                for s1, v1 in run2.call(State(), f, [A, B]):
                    ch = [k for k, v in s1.mem.items() if k[0] in (A.single(), B.single()) and isinstance(k[1], int) and not s1.prove_eq0(
                        run2.eng.tolin(s1, v[1]) - run2.eng.tolin(s1, run2.eng.load(State(), k[0], k[1], v[0], v[0] * 8)))] if False else []
                    cx.obligation('%s %s pure' % (tag, op), not ch, f.where(), '%s changes its operands' % f.base)
        # compound assignment
        for (op, pt), f in sorted(comp.items()):
            g = plain.get((op[:-1], pt))
            run = OpRunner(cx, rec, cname)
            A = lin(obj(run.eng, 'a', rec)); Aa = A.single()
            P = partype(m, f)
            B = lin(obj(run.eng, 'b', P)) if P is not None and P.is_record() else run.eng.params(f)[1]
            st = State()
            fl = [x for x in rec.fields() if not x.d.get('static') and x.tag == 'member' and not x.name.startswith('_vptr')]
            nm = 'C32/%s/%s %s' % (cname, op, pt)
            if g is not None:
                n += 1
                bad = None; und = False
                for s1, v1 in run.call(st.copy(), g, [A, B]):
                    want = fieldvals(run, s1, v1, rec, fl)
                    for s2, v2 in run.call(s1, f, [A, B]):
                        for x, w in zip(fl, want):
                            got = run.eng.tolin(s2, run.eng.load(s2, Aa, x.off, x.strip().size, x.strip().size * 8))
                            if w is None or not precise(s2.res(got)) or not precise(s2.res(w)):
                                und = True; continue
                            if not s2.prove_eq0(got - w):
                                bad = bad or ['%s becomes %s, the plain operator gives %s' % (x.name, s2.res(got), s2.res(w))]
                if bad is None and und:
                    cx.undecided(nm)
                else:
                    cx.obligation(nm, bad is None, f.where(), '%s %s: not the same as %s followed by assignment' % (cname, op, op[:-1]), bad)
            elif len(fl) == 1 and op in ('operator+=', 'operator-='):
                # scalar wrappers: the plain operator is the built-in one
                n += 1
                x = fl[0]; sz = x.strip().size
                old = run.eng.tolin(st, run.eng.load(st, Aa, x.off, sz, sz * 8))
                bad = None; und = False
                for s2, v2 in run.call(st.copy(), f, [A, B]):
                    got = s2.res(run.eng.tolin(s2, run.eng.load(s2, Aa, x.off, sz, sz * 8)))
                    r = binop(run, s2, got, old, B, '+' if op == 'operator+=' else '-')
                    rv = binop(run, s2, run.eng.tolin(s2, v2), old, B, '+' if op == 'operator+=' else '-')
                    if r is False or rv is False:
                        bad = ['value becomes %s, returns %s' % (got, s2.res(run.eng.tolin(s2, v2)))]
                    elif r is None or rv is None:
                        und = True
                if bad is None and und:
                    cx.undecided(nm)
                else:
                    cx.obligation(nm, bad is None, f.where(), '%s %s: not the built-in %s followed by assignment' % (cname, op, op[8:9]), bad)
        # increments and decrements of scalar wrappers; assignments
        for f in fs:
            op = f.base.split('::')[-1]
            fl = [x for x in rec.fields() if x.tag == 'member' and not x.name.startswith('_vptr') and not x.d.get('static')]
            if op in ('operator++', 'operator--') and len(fl) == 1 and fl[0].strip() is not None and fl[0].strip().tag == 'base_type':
                post = len(f.args) > 1
                run = OpRunner(cx, rec, cname); A = lin(obj(run.eng, 'a', rec)); st = State()
                x = fl[0]; sz = x.strip().size
                old = run.eng.tolin(st, run.eng.load(st, A.single(), x.off, sz, sz * 8))
                nm = 'C32/%s/%s%s' % (cname, op, ' postfix' if post else ' prefix'); n += 1
                bad = None; und = False
                for s2, v2 in run.call(st.copy(), f, [A] + [ZERO] * post):
                    got = s2.res(run.eng.tolin(s2, run.eng.load(s2, A.single(), x.off, sz, sz * 8)))
                    r = step(run, s2, got, old, 1 if op == 'operator++' else -1)
                    rv = s2.res(run.eng.tolin(s2, v2))
                    r2 = step(run, s2, rv, old, 0 if post else 1 if op == 'operator++' else -1)
                    if r is False or r2 is False:
                        bad = ['%s becomes %s, returns %s' % (x.name, got, rv)]
                    elif r is None or r2 is None:
                        und = True
                if bad is None and und:
                    cx.undecided(nm)
                else:
                    cx.obligation(nm, bad is None, f.where(), '%s %s: wrong value or wrong result' % (cname, nm.split('/')[-1]), bad)
            if op == 'operator=' and len(fl) == 1 and fl[0].strip() is not None and fl[0].strip().tag == 'base_type':
                run = OpRunner(cx, rec, cname); A = lin(obj(run.eng, 'a', rec)); st = State()
                P = partype(m, f)
                B = lin(obj(run.eng, 'b', P)) if P is not None and P.is_record() else run.eng.params(f)[1]
                nm = 'C32/%s/%s %s yields' % (cname, op, tname(P)); n += 1
                bad = None; und = False
                if run.eng.tolin(st, B) is None:
                    continue
                rt = m.type((f.d.get('ditypes') or [None])[0]) if f.d.get('ditypes') else None
                if rt is None or f.d.get('rty') == 'void':
                    continue
                for s2, v2 in run.call(st.copy(), f, [A, B]):
                    x = fl[0]; sz = x.strip().size
                    got = s2.res(run.eng.tolin(s2, run.eng.load(s2, A.single(), x.off, sz, sz * 8)))
                    r = fieldvals(run, s2, v2, rec, fl, rt)
                    if r[0] is None or not precise(got) or not precise(s2.res(r[0])):
                        und = True
                    elif not s2.prove_eq0(got - r[0]):
                        bad = ['%s becomes %s, the result is %s' % (x.name, got, s2.res(r[0]))]
                if bad is None and und:
                    cx.undecided(nm)
                else:
                    cx.obligation(nm, bad is None, f.where(), '%s: an assignment yields something other than the assigned value' % cname, bad)
    # pointer comparison used to order the priority queue
    for f in m.find('PointerCompare::operator()'):
        run = OpRunner(cx, None, 'PointerCompare')
        p = run.eng.params(f)
        P = partype(m, f)
        rec = P.pointee() if P is not None and P.is_ptr() else None
        gts = [g for g in m.repo_funcs() if rec is not None and g.base == '%s::operator>' % rec.name]
        if gts:
            n += 1
            nm = 'C32/PointerCompare'
            same_bool(cx, nm, nm, run, State(), gts[0], [p[1], p[2]], f, p, False, f.where(), 'PointerCompare does not compare the objects pointed to with operator>')
    cx.atleast('operator relations', n, 90)


def fieldvals(run, st, v, rec, fl, rt=None):
    """values of the members of a returned object (by address or as a coerced scalar)"""
    eng = run.eng
    isref = rt is not None and rt.strip() is not None and rt.strip().tag in ('reference_type', 'rvalue_reference_type')
    if isinstance(v, Lin):
        b, o = split_ptr(v)
        if b is not None and (b.kind in ('alloca', 'obj') or isref) and b.w == 'p':
            oo = o.c if not o.t else None
            if oo is None:
                return [None] * len(fl)
            return [eng.tolin(st, eng.load(st, b, oo + x.off, x.strip().size, x.strip().size * 8)) for x in fl]
        if len(fl) == 1 and not isref:
            return [eng.tolin(st, v)]
    elif len(fl) == 1 and v is not None and not isinstance(v, Tup):
        return [eng.tolin(st, v)]
    return [None] * len(fl)


def fop(got):
    a = got.single() if isinstance(got, Lin) else None
    if a is not None and a.kind == 'op':
        return a.key[1], list(a.key[2:])
    return None, []


def unwrap(x):
    """drop conversions and truncations (wrap-around of the built-in type)"""
    while True:
        a = x.single() if isinstance(x, Lin) else None
        if a is not None and a.kind == 'op' and (a.key[1].startswith(('trunc', 'zext', 'sext')) or a.key[1] in ('fptrunc', 'fpext')):
            x = a.key[2]
        else:
            return x


def step(run, st, got, old, d):
    """got == old + d (integer, float or wrapped)"""
    got = unwrap(st.res(got)); old = unwrap(old)
    if st.prove_eq0(got - old - d):
        return True
    k, a = fop(got)
    if k in ('fadd', 'fsub') and d:
        c = [x for x in a if isinstance(x, Lin) and x.single() is not None and x.single().kind == 'fconst']
        o = [x for x in a if isinstance(x, Lin) and x == old]
        if c and o:
            v = float(c[0].single().key[1]) * (1 if k == 'fadd' else -1)
            return v == d
    return False if precise(got) else None


def binop(run, st, got, a, b, op):
    b = run.eng.tolin(st, b)
    got = unwrap(st.res(got))
    want = a + b if op == '+' else a - b
    if st.prove_eq0(got - want) or st.prove_eq0(got - unwrap(a) - unwrap(b) if op == '+' else got - unwrap(a) + unwrap(b)):
        return True
    k, x = fop(got)
    if k == ('fadd' if op == '+' else 'fsub'):
        if [x[0], x[1]] == [a, b] or (op == '+' and [x[1], x[0]] == [a, b]):
            return True
    return False if precise(got) else None


# ---- C33
def c33(cx):
    cx.rule('Each instantiation of the statistics class: on every path of addPoint the stored members are exact functions of the old ones and the point (current, count, sum), '
            'the minimum (maximum) is replaced exactly on paths where no point was added before or the point is smaller (larger); the constructor zeroes the count and sum; '
            'the average divides the sum by the count only on paths where the count is not zero.')
    m = cx.m
    recs = cx.record('Statistic')
    n = 0
    for rec in recs:
        fl = {x.name: x for x in rec.fields()}
        for k in ('mCurrent', 'mMin', 'mMax', 'mCnt', 'mSum'):
            if k not in fl:
                raise core.Broken('Statistic member %s not found' % k)
        ms = {f.base.split('::')[-1]: f for f in methods_of(m, ('Statistic',), ctors=True) if method_info(m, f)[0].id == rec.id}
        for k in ('addPoint', 'getAvg', 'getCurrent'):
            if k not in ms:
                raise core.Broken('%s::%s not found' % (rec.name, k))

        def get(run, st, a, k):
            x = fl[k]; sz = x.strip().size
            v = run.eng.tolin(st, run.eng.load(st, a, x.off, sz, sz * 8))
            q = v.single()
            if k == 'mCnt' and q is not None and q.kind == 'ld':
                q.lo = 0; q.hi = 1 << 31
            return v
        isf = strip_t(fl['mCurrent'].strip().name) in ('float', 'double')
        # constructor
        for nm, f in ms.items():
            if is_ctor(f):
                run = OpRunner(cx, rec, ''); A = obj(run.eng, 'a', rec)
                if len([a for a in f.args]) != 1:
                    continue
                for s, v in run.call(State(), f, [lin(A)]):
                    for k in fl:
                        w = s.res(get(run, s, A, k)); n += 1
                        cx.obligation('C33/%s/constructor %s' % (rec.name, k), not w.t and w.c == 0, f.where(), '%s is not zero before any point is added' % k)
        f = ms['addPoint']
        run = OpRunner(cx, rec, ''); A = obj(run.eng, 'a', rec); st = State(); eng = run.eng
        old = {k: get(run, st, A, k) for k in fl}
        val = eng.params(f)[1]
        vl = eng.tolin(st, val)

        def less(x, y):
            return fless(eng, x, y) if isf else ge0(y - x - 1)
        tag = 'C33/%s/addPoint ' % rec.name

        def ob(k, ok, msg, s, vals):
            nonlocal n
            n += 1
            if not ok and not all(precise(v) for v in vals):
                cx.undecided(tag + k); return
            cx.obligation(tag + k, ok, f.where(), '%s::addPoint: %s' % (rec.name, msg), core.pathlist(s))
        for s, v in run.call(st.copy(), f, [lin(A), val]):
            new = {k: s.res(get(run, s, A, k)) for k in fl}
            ob('current', s.prove_eq0(new['mCurrent'] - vl), 'the current value is not the last point', s, [new['mCurrent']])
            ob('count', s.prove_eq0(new['mCnt'] - old['mCnt'] - 1), 'the count changes by %s' % s.res(new['mCnt'] - old['mCnt']), s, [new['mCnt']])
            k, a = fop(new['mSum'])
            oks = k == 'fadd' and any(x == old['mSum'] for x in a) and any(unconv(x) == vl for x in a)
            ob('sum', oks, 'the sum becomes %s' % new['mSum'], s, [new['mSum']])
            for k, better, txt in (('mMin', less(vl, old['mMin']), 'minimum'), ('mMax', less(old['mMax'], vl), 'maximum')):
                first = eq0(old['mCnt'])
                if s.prove_eq0(new[k] - vl) and s.prove_eq0(new[k] - old[k]):
                    ob(k, True, '', s, []); continue
                # states in which the new value must be taken, and in which the old one must be kept
                worse = less(old[k], vl) if k == 'mMin' else less(vl, old[k])
                for c, want, why in ((first, vl, 'not set by the first point'), (better, vl, 'not set although the point is %s' % ('smaller' if k == 'mMin' else 'larger')),
                                     (cand(cnot(first), worse), old[k], 'replaced although the point is not %s' % ('smaller' if k == 'mMin' else 'larger'))):
                    for q in cases(s, c):
                        got = q.res(get(run, q, A, k))
                        ob(txt, q.prove_eq0(got - want), 'the %s is %s' % (txt, why), q, [got])
        for nm in ('getCurrent', 'getAvg'):
            f = ms[nm]
            for cnt in (0, 1):
                run = OpRunner(cx, rec, ''); A = obj(run.eng, 'a', rec); st = State()
                old = {k: get(run, st, A, k) for k in fl}
                st = assume(st, eq0(old['mCnt']) if cnt == 0 else ge0(old['mCnt'] - 1))
                for s, v in run.call(st, f, [lin(A)]):
                    r = s.res(run.eng.tolin(s, v)); n += 1
                    key = 'C33/%s/%s %s' % (rec.name, nm, 'without points' if cnt == 0 else 'with points')
                    if nm == 'getCurrent':
                        ok = s.prove_eq0(r - old['mCurrent']) or (cnt == 0 and not r.t and r.c == 0)
                    elif cnt == 0:
                        ok = not r.t and r.c == 0 or (fop(r)[0] is None and s.prove_eq0(r - old['mSum']))
                    else:
                        k, a = fop(r)
                        ok = k == 'fdiv' and a[0] == old['mSum'] and unconv(a[1]) == old['mCnt']
                    if not ok and not precise(r):
                        cx.undecided(key); continue
                    cx.obligation(key, ok, f.where(), '%s::%s %s is %s' % (rec.name, nm, 'with no points added' if cnt == 0 else 'after adding points', r), core.pathlist(s))
    cx.atleast('statistics obligations', n, 60)


def unconv(x):
    while True:
        a = x.single() if isinstance(x, Lin) else None
        if a is not None and a.kind == 'op' and a.key[1] in ('sitofp', 'uitofp', 'fpext', 'fptrunc'):
            x = a.key[2]
        else:
            return x


# ---- C15
class TRule(VRule):
    arith = True

    def __init__(self, name):
        super().__init__(); self.name = name; self.inrange = True

    def on_arith(self, eng, st, i, op, r, ctx):
        if not (i.fn.file or '').endswith(('Timeval.h', 'Timeval.cpp')):
            return
        if i.fn.base == 'Timeval::addMinutes':
            return          # minutes*60 may wrap for more than 136 years
        r = st.res(r)
        if not r.t:
            return
        # time_t is 64 bits; unsigned offsets may wrap to their signed reading
        key = 'C15/%s/no overflow' % i.fn.base
        if eng.inrange(st, r, i.w) if i.w == 32 else (st.prove_ge0(r + (1 << 62)) and st.prove_ge0(const(1 << 62) - r)):
            self.met(key)
        elif precise(r):
            self.met(key, False)
            self.report(st, key, i.where(), '%s: %d-bit %s can overflow (%s)' % (i.fn.base, i.w, op, r))


def c15(cx):
    cx.rule('Every Timeval operation is evaluated for arbitrary stored times between the epoch and 2^32 seconds with a microsecond part below one million and an arbitrary '
            'current time of the same form: the results are compared as linear expressions with the exact ones, microsecond parts stay below one million, '
            'and every 32- and 64-bit operation stays in range.')
    m = cx.m
    rec = cx.record('Timeval')[0]
    n = 0

    def setup(f, rule, models=None):
        eng = Engine(m, rule, NowModels())
        st = State()
        args = eng.params(f)
        sr = 1 if f.args and f.args[0].get('sret') else 0
        return eng, st, args, sr

    def time_of(eng, st, b, o, new=False):
        s = eng.tolin(st, eng.load(st, b, o, 8, 64)); u = eng.tolin(st, eng.load(st, b, o + 8, 8, 64))
        if new:
            for v, hi in ((s, (1 << 32) - 1), (u, 999999)):
                a = v.single()
                if a is not None and a.kind == 'ld':
                    a.lo = 0; a.hi = hi
        return s, u
    us = lambda t: t[0].scale(1000000) + t[1]
    for f in sorted(methods_of(m, ('Timeval',), ctors=True), key=lambda f: f.name):
        nm = f.base.split('::')[-1]
        if nm.startswith('~') or nm == 'isoTime' or nm == 'seconds':
            continue
        rule = TRule(f.base)
        eng, st, args, sr = setup(f, rule)
        th = eng.addr(st, args[sr])[0]
        now = (lin(eng.atom('param', ('now_s',), 'now.sec', 64, 0, (1 << 32) - 1)), lin(eng.atom('param', ('now_us',), 'now.usec', 64, 0, 999999)))
        eng.models.now = now
        ctor = is_ctor(f)
        t0 = None
        if not ctor:
            t0 = time_of(eng, st, th, 0, True)
        other = None
        prm = partype(m, f)
        if prm is not None and prm.is_record():
            other = time_of(eng, st, eng.addr(st, args[sr + 1])[0], 0, True)
        exits = eng.run(f, st, args)
        for x in eng.inlined:
            cx.fn(m.funcs[x])
        drain(cx, rule)
        tag = 'C15/%s' % f.dem.split('(')[0] + ('' if not ctor else '(%s)' % f.dem.split('(', 1)[1].rstrip(')'))

        def ob(x, what, ok, msg, *vals):
            nonlocal n
            n += 1
            if not ok and not all(precise(x.st.res(v)) for v in vals):
                cx.undecided('%s %s' % (tag, what)); return
            cx.obligation('%s %s' % (tag, what), ok, f.where(), '%s: %s' % (tag[4:], msg), core.pathlist(x.st))
        for x in exits:
            if x.kind != 'ret':
                continue
            s = x.st
            if nm in ('sec', 'usec'):
                v = eng.tolin(s, x.val); w = t0[0] if nm == 'sec' else t0[1]
                ob(x, 'value', s.prove_eq0(v - w), 'returns %s' % v, v)
                continue
            if nm == 'delta' or nm == 'elapsed' or nm == 'remaining':
                v = eng.tolin(s, x.val)
                d = {'delta': lambda: us(other) - us(t0), 'elapsed': lambda: us(now) - us(t0), 'remaining': lambda: us(t0) - us(now)}[nm]()
                e = v.scale(1000) - d
                ob(x, 'difference', s.prove_ge0(e + 999) and s.prove_ge0(const(999) - e), 'the result %s is not the difference in milliseconds' % s.res(v), v)
                continue
            if nm == 'passed':
                later = ge0(us(now) - us(t0) - 1)
                c = eng.tocond(s, x.val)
                for tr in (True, False):
                    for q in cases(s, c if tr else cnot(c)):
                        d = q.decide(later)
                        ob(x, 'passed', d == tr, 'reports %s when the time %s' % ('passed' if tr else 'not passed', 'may not have passed' if tr else 'may have passed'), eng.tolin(s, x.val))
                continue
            if nm == 'timespec':
                if isinstance(x.val, Tup):
                    v = [eng.tolin(s, y) for y in x.val[:2]]
                elif sr:
                    b, o = eng.addr(s, args[0])
                    v = [eng.tolin(s, eng.load(s, b, o, 8, 64)), eng.tolin(s, eng.load(s, b, o + 8, 8, 64))]
                else:
                    continue
                ob(x, 'timespec', s.prove_eq0(v[0] - t0[0]) and s.prove_eq0(v[1] - t0[1].scale(1000)), 'gives %s s %s ns' % tuple(v), *v)
                continue
            t1 = time_of(eng, s, th, 0)
            args_ = [eng.tolin(s, a) for a in args[sr + 1:]]
            if ctor and len(args) == 3 or (ctor and prm is not None and prm.is_record()):
                continue        # the caller gives both parts
            if nm in ('future', 'Timeval', 'now', 'addMinutes'):
                want = us(now) if nm != 'addMinutes' else us(t0)
                if nm in ('future', 'Timeval') and args_:
                    a = args_[0].single()
                    if a is not None:
                        a.lo = 0
                    want = want + args_[0].scale(1000)
                if nm == 'addMinutes':
                    want = want + args_[0].scale(60000000)
                e = us(t1) - want
                if nm in ('future', 'Timeval'):
                    ok = s.prove_eq0(e)
                else:
                    ok = s.prove_eq0(e)
                ob(x, 'value', ok, 'the time becomes %s s + %s us' % (s.res(t1[0]), s.res(t1[1])), t1[0], t1[1])
                ob(x, 'normalised', s.prove_ge0(t1[1]) and s.prove_ge0(const(999999) - t1[1]), 'the microsecond part can be %s, outside 0..999999' % s.res(t1[1]), t1[1])
    cx.atleast('time value obligations', n, 14)


class NowModels(Models):
    now = None

    def call(self, eng, st, i, fn, base, args, ctx):
        if base == 'gettimeofday' and self.now is not None:
            b, o = eng.addr(st, args[0])
            eng.store(st, b, o, 8, self.now[0]); eng.store(st, b, o + 8, 8, self.now[1])
            return [(st, ZERO)]
        return super().call(eng, st, i, fn, base, args, ctx)
