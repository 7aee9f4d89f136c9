"""C10: reference counting.  Every RefCntPointer operation is analysed on all configurations of null / X / Y pointers;
the objects' counts are arbitrary but at least the number of counted pointers of the configuration."""
from .common import *
from .values import VRule

MAXRC = 10000


class RcRule(LockRule):
    def __init__(self, name, objs, cntoff, mtxoff):
        super().__init__()
        self.name = name; self.objs = objs; self.cntoff = cntoff; self.mtxoff = mtxoff; self.init = {}

    # the count as other threads may have left it: at least the references this thread still owns
    def others(self, eng, st, x):
        own = self.init.get(x, 0) + st.ts.get(('delta', x), 0)
        e = eng.fresh('others', 32); e.lo = max(0, -own) if own < 0 else 0; e.hi = MAXRC
        eng.store(st, x, self.cntoff, 2, lin(e) + own)

    def dead(self, st, x):
        return st.ts.get(('dead', x))

    def changed_by_others(self, eng, st):
        pass

    def on_lock(self, eng, st, loc, i, ctx, kind):
        b, o = loc
        if b in self.objs:
            if self.dead(st, b):
                self.report(st, 'C10/%s/after' % self.name, i.where(), '%s uses the object after deleting it' % self.name)
            if self.held(st, loc) == 0:
                self.others(eng, st, b)

    def on_unlock(self, eng, st, loc, i, ctx):
        b, o = loc
        if b in self.objs:
            if self.dead(st, b):
                self.report(st, 'C10/%s/after' % self.name, i.where(), '%s releases the mutex of the object after deleting it' % self.name)
            v = eng.load(st, b, self.cntoff, 2, 16)
            st.ts[('last', b)] = st.res(eng.tolin(st, v))

    def release(self, eng, st, loc, i, ctx):
        super().release(eng, st, loc, i, ctx)
        b, o = loc
        if b in self.objs and self.held(st, loc) == 0:
            # from here on other threads may change it
            e = eng.fresh('unlocked', 16); e.lo = 0; e.hi = MAXRC + 100
            eng.store(st, b, self.cntoff, 2, lin(e))

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items() if k[0] in ('L', 'delta', 'dead', 'last'))

    def on_access(self, eng, st, i, kind, base, off, size, val, ctx):
        if base not in self.objs:
            return
        if self.dead(st, base):
            self.report(st, 'C10/%s/after' % self.name, i.where(), '%s uses the object after deleting it' % self.name)
            return
        if kind != 'store' or isinstance(off, Lin) or not (off < self.cntoff + 2 and self.cntoff < off + size):
            return
        if not st.ts.get(('L', base, self.mtxoff)):
            self.report(st, 'C10/%s/atomic' % self.name, i.where(), '%s changes the reference count without holding the mutex of the object' % self.name)
            return
        old = st.res(eng.tolin(st, eng.load(st, base, self.cntoff, 2, 16))); new = st.res(eng.tolin(st, val))
        d = new - old
        if d.t:
            if precise(new) or True:
                self.report(st, 'C10/%s/change' % self.name, i.where(), '%s stores a count that does not follow from the count under the lock (%s instead of %s)' % (self.name, new, old))
            return
        st.ts[('delta', base)] = st.ts.get(('delta', base), 0) + d.c
        st.note((i.where(), 'count of %s changes by %d' % (base.name, d.c)))

    def on_other(self, eng, st, i, fn, base, args, ctx):
        if not args or not isinstance(args[0], Lin):
            return None
        a0 = st.res(args[0]).single()
        isdel = fn is None or (base or '').split('::')[-1].startswith('~') or base in ('operator delete', 'operator delete[]', 'free')
        if a0 in self.objs and isdel:
            x = a0
            if self.dead(st, x):
                self.report(st, 'C10/%s/twice' % self.name, i.where(), '%s deletes the object twice' % self.name)
            elif fn is not None and base.split('::')[-1].startswith('~'):
                self.report(st, 'C10/%s/virtual' % self.name, i.where(), '%s destroys the object as a %s, its own destructor does not run' % (self.name, base))
            else:
                c = st.ts.get(('last', x))
                own = self.init.get(x, 0) + st.ts.get(('delta', x), 0)
                if st.ts.get(('L', x, self.mtxoff)):
                    self.report(st, 'C10/%s/held' % self.name, i.where(), '%s deletes the object while holding its mutex' % self.name)
                elif c is None or not st.prove_ge0(-c):
                    self.report(st, 'C10/%s/early' % self.name, i.where(), '%s deletes the object although other counted pointers may still refer to it' % self.name)
            st.ts[('dead', x)] = True
            st.note((i.where(), 'the object %s is deleted' % x.name))
            return [(st, ZERO)]
        return None


def c10(cx):
    m = cx.m
    cx.rule('For every operation of RefCntPointer and every configuration of null and non-null pointers (the operands the same or different), on every path: the count of each '
            'object changes under its mutex by exactly the change in the number of pointers to it, the object is deleted (through its virtual destructor) exactly when the count read under the lock has reached zero, '
            'nothing touches it afterwards, and a released pointer is null.')
    recs = [t for t in m.types if t.is_record() and t.name.startswith('RefCntPointer<') and not t.d.get('fwd')]
    if not recs:
        raise core.Broken('RefCntPointer not instantiated')
    prec = recs[0]
    pf = [f for f in prec.fields() if f.tag == 'member']
    tgt = None
    for f in pf:
        p = f.pointee()
        if p is not None and p.is_record() and derived(m, p, 'RefCntBase'):
            tgt = p; poff = f.off
    if tgt is None:
        raise core.Broken('RefCntPointer has no pointer member')
    rb = cx.record('RefCntBase')[0]
    ints = [f for f in rb.fields() if f.tag == 'member' and f.strip().tag == 'base_type']
    mt = [f for f in rb.fields() if is_class(f.strip(), 'Mutex')]
    if len(ints) != 1 or len(mt) != 1 or ints[0].strip().size != 2 and ints[0].strip().size not in (4, 8):
        raise core.Broken('RefCntBase: count or mutex member not recognised')
    cntoff = ints[0].off; mtxoff = mt[0].off; csz = ints[0].strip().size
    # mutex object identity: the rule sees the address of the Mutex
    fns = []
    seen = set()
    for f in m.repo_funcs():
        if f.cls == prec.id or f.base.startswith('Utils::RefCntPointer::') and f.dem.find('SaRc') > 0:
            k = f.name.replace('C2E', 'C1E').replace('D2E', 'D1E')
            if k not in seen:
                seen.add(k); fns.append(f)
    n = 0
    for f in fns:
        rec, me = method_info(m, f)
        if me is not None and access(rec, me) != 3:
            continue                      # private helpers are analysed inside the public operations
        ctor = is_ctor(f); dtor = is_dtor(f)
        short = f.base.split('::')[-1]
        dts = [m.type(t) for t in (f.d.get('ditypes') or [])]
        sret = bool(f.args and f.args[0].get('sret'))
        par = dts[2] if len(dts) > 2 else None
        kind = None
        if par is not None:
            pt = par.pointee(); ps = par.strip()
            if is_class(ps, 'RefCntPointer'):
                kind = 'val'
            elif ps.tag in ('reference_type', 'rvalue_reference_type') and pt is not None and is_class(pt, 'RefCntPointer'):
                kind = 'ref'
            elif ps.tag == 'pointer_type' and pt is not None and (pt is tgt or derived(m, pt, 'RefCntBase')):
                kind = 'raw'
            else:
                continue
        for tv in ((None,) if ctor else ('0', 'X')):
            for ov in ((None,) if kind is None else ('0', 'X', 'Y', 'self') if kind == 'ref' and not ctor else ('0', 'X', 'Y')):
                name = 'RefCntPointer::%s%s' % (short, '' if kind is None else '(%s)' % {'val': 'RefCntPointer', 'ref': 'RefCntPointer&', 'raw': 'Type*'}[kind])
                cfg = '%s this=%s other=%s' % (name, tv, ov)
                if one(cx, f, name, cfg, tv, ov, kind, ctor, dtor, tgt, prec, poff, cntoff, mtxoff, csz, sret):
                    n += 1
    # a new object counts nothing
    for f in m.repo_funcs():
        if f.base == 'Utils::RefCntBase::RefCntBase' and len(f.args) == 1:
            rule = VRule()
            eng = Engine(m, rule, Models())
            o = eng.atom('heap', ('new',), 'object', 'p', 1); o.pt = rb
            for e in eng.run(f, State(), [lin(o)]):
                if e.kind != 'ret':
                    continue
                v = eng.tolin(e.st, eng.load(e.st, o, cntoff, csz, csz * 8))
                cx.obligation('C10/new object has count 0', v == ZERO, f.where(), 'a new object does not start with a count of zero', core.pathlist(e.st))
            cx.fn(f)
            break
    cx.atleast('operations on counted pointers', n, 20)


def one(cx, f, name, cfg, tv, ov, kind, ctor, dtor, tgt, prec, poff, cntoff, mtxoff, csz, sret):
    m = cx.m
    eng = None
    X = Y = None
    rule = RcRule(name, (), cntoff, mtxoff)
    models = Models()
    eng = Engine(m, rule, models)

    def mk(nm, pt):
        a = eng.atom('heap', ('cfg', nm), nm, 'p', 1); a.pt = pt
        return a
    X = mk('X', tgt); Y = mk('Y', tgt); P = mk('pointer', prec); Q = mk('other pointer', prec); R = mk('result', prec)
    rule.objs = (X, Y)
    st = State()
    par_lv = kind == 'ref' and m.type(f.d['ditypes'][2]).strip().tag == 'reference_type'
    val = {'0': ZERO, 'X': lin(X), 'Y': lin(Y)}
    tracked = {}                           # pointer object -> value before
    if not ctor:
        eng.store(st, P, poff, 8, val[tv]); tracked[P] = val[tv]
    args = [lin(P)]
    if kind in ('val', 'ref'):
        if ov == 'self':
            args.append(lin(P))
        else:
            eng.store(st, Q, poff, 8, val[ov]); tracked[Q] = val[ov]
            args.append(lin(Q))
    elif kind == 'raw':
        args.append(val[ov])
    if sret:
        args = [lin(R)] + args
    count0 = {}
    for x in (X, Y):
        rule.init[x] = sum(1 for v in tracked.values() if v == lin(x))
        vt = eng.fresh('vtable', 'p'); vt.lo = 1
        eng.store(st, x, 0, 8, lin(vt))
        rule.others(eng, st, x)
    try:
        exits = eng.run(f, st, args)
    except Budget as e:
        cx.undecided(cfg, str(e)); return False
    for g in eng.inlined:
        cx.fn(m.funcs[g])
    for e in exits:
        s = e.st
        if e.kind != 'ret':
            rule.report(s, 'C10/%s/throw' % name, f.where(), '%s is left by an exception' % name) if False else None
            continue
        now = {}
        for p in set(tracked) | {P}:
            if p is P and dtor:
                continue
            now[p] = s.res(eng.tolin(s, eng.load(s, p, poff, 8, 'p')))
        short = f.base.split('::')[-1]
        # what this refers to afterwards
        want = None
        if ctor or short == 'operator=':
            want = ZERO if kind is None else val.get(ov, tracked.get(P))
        elif short == 'free':
            want = ZERO
        elif not dtor and not ctor and short in ('self', 'operator->', 'operator*', 'isNULL', 'operator==', 'operator!='):
            want = tracked[P]
        if want is not None and now[P] != want and not set(now[P].t) <= {X, Y}:
            cx.undecided(cfg, 'value of the pointer afterwards not followed')
            continue
        if kind == 'ref' and Q in now and par_lv and now[Q] != tracked[Q] and set(now[Q].t) <= {X, Y}:
            rule.report(s, 'C10/%s/source' % name, f.where(), '%s (%s): the pointer copied from afterwards refers to %s instead of %s' % (name, cfg.split(' ', 1)[1], now[Q], tracked[Q]))
        if want is not None and now[P] != want:
            rule.report(s, 'C10/%s/refers' % name, f.where(), '%s (%s): afterwards the pointer refers to %s instead of %s' % (name, cfg.split(' ', 1)[1], now[P], want))
        for x in (X, Y):
            before = rule.init[x]
            unk = [v for v in now.values() if v.t and v not in (lin(X), lin(Y))]
            if unk:
                continue
            after = sum(1 for v in now.values() if v == lin(x))
            d = s.ts.get(('delta', x), 0)
            if d != after - before:
                rule.report(s, 'C10/%s/count' % name, f.where(), '%s (%s): the count of %s changes by %d but the number of pointers to it changes by %d'
                            % (name, cfg.split(' ', 1)[1], x.name, d, after - before))
            c = s.ts.get(('last', x))
            gone = s.ts.get(('dead', x))
            if not gone and after - before < 0 and c is not None and not s.prove_ge0(c - 1):
                rule.report(s, 'C10/%s/leak' % name, f.where(), '%s (%s): the object is not deleted although its count has reached zero' % (name, cfg.split(' ', 1)[1]))
            if gone and after > 0:
                rule.report(s, 'C10/%s/dangling' % name, f.where(), '%s (%s): a counted pointer refers to the deleted object' % (name, cfg.split(' ', 1)[1]))
    rule.met(cfg, not rule.rep)
    drain(cx, rule)
    return True
