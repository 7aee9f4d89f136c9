"""C05, C06 and the primitive layer of C03/C04: what the mutex, signal and guard classes do with the system's locks."""
from .common import *

ERRS = (1, 133)


class PrimRule(RuleBase):
    """pthread calls become typestate ('H', base, off) -> times held; Timeval objects carry 'now + offset' in milliseconds"""
    max_states = 256

    def __init__(self, entry, mtx=None):
        super().__init__(); self.entry = entry; self.events = []; self.cnt = None; self.mtx = mtx; self.t0 = None

    def key(self, st):
        # states in which the count differs from the one at acquisition by different amounts are kept apart
        k = frozenset((a, b) for a, b in st.ts.items() if a[0] in ('H', 'ev', 'acq'))
        if self.cnt is None:
            return k
        g = [v for (b, o), (sz, v) in st.mem.items() if b.kind == 'alloca' and b.key == ('ghostcnt',)]
        c = st.mem.get((self.cnt[0], self.cnt[1]))
        d = None
        if g and c is not None and isinstance(c[1], Lin) and isinstance(g[0], Lin):
            d = st.res(c[1] - g[0])
            d = d.c if not d.t else None
        return (k, d)

    def held(self, st, l):
        return st.ts.get(('H',) + l, 0)

    def sethold(self, st, l, n):
        if n:
            st.ts[('H',) + l] = n
        else:
            st.ts.pop(('H',) + l, None)

    def acquired(self, eng, st, l, i):
        n = self.held(st, l)
        self.sethold(st, l, n + 1)
        st.note((i.where(), 'acquired'))
        if n == 0 and self.cnt is not None and l[0] is self.cnt[0]:
            # other threads changed it until now
            k = st.ts[('acq',)] = st.ts.get(('acq',), 0) + 1
            f = eng.atom('param', ('acq', k), 'count at acquisition', 32, 0, 1 << 20)
            eng.store(st, self.cnt[0], self.cnt[1], 4, lin(f))
            g = eng.atom('alloca', ('ghostcnt',), 'ghostcnt', 'p', 1)
            eng.store(st, g, 0, 4, lin(f))

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if base in ('pthread_mutex_lock', 'pthread_rwlock_wrlock', 'pthread_rwlock_rdlock'):
            self.acquired(eng, st, eng.addr(st, args[0]), i)
            st.ts[('ev', base)] = True
            return [(st, ZERO)]
        if base in ('pthread_mutex_trylock', 'pthread_mutex_timedlock', 'pthread_rwlock_trywrlock', 'pthread_rwlock_tryrdlock'):
            st.ts[('ev', base)] = True
            if base == 'pthread_mutex_timedlock':
                self.abstime(eng, st, args[1], i, base)
            s2 = st.copy()
            self.acquired(eng, st, eng.addr(st, args[0]), i)
            e = eng.fresh('error', 32, kind='param'); e.lo, e.hi = ERRS
            s2.note((i.where(), '%s fails' % base))
            return [(st, ZERO), (s2, lin(e))]
        if base in ('pthread_mutex_unlock', 'pthread_rwlock_unlock'):
            l = eng.addr(st, args[0]); n = self.held(st, l)
            st.note((i.where(), 'released'))
            if n <= 0:
                self.met('C06/%s/unlock' % self.entry, False)
                self.report(st, 'C06/%s/unlock' % self.entry, i.where(), '%s releases a mutex it does not hold' % self.entry)
            else:
                self.sethold(st, l, n - 1)
            return [(st, ZERO)]
        if base in ('pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_cond_signal', 'pthread_cond_broadcast'):
            if base == 'pthread_cond_timedwait':
                self.abstime(eng, st, args[2], i, base)
            st.ts[('ev', base, eng.addr(st, args[0]), eng.addr(st, args[1]) if len(args) > 1 else None)] = st.ts.get(
                ('ev', base, eng.addr(st, args[0]), eng.addr(st, args[1]) if len(args) > 1 else None), 0) + 1
            return [(st, lin(eng.fresh('rc', 32)))]
        if base and base.startswith('Timeval::'):
            m = base.split('::')[1]
            sret = bool(fn.args and fn.args[0].get('sret'))
            b, o = eng.addr(st, args[1 if sret else 0])
            if m in ('Timeval', 'future', 'now'):
                d = self.t0
                if len(args) == 2:
                    d = d + eng.tolin(st, args[1])
                eng.store(st, b, o, 8, d); eng.store(st, b, o + 8, 8, ZERO)
                return [(st, ZERO)]
            if m == 'timespec':
                d = eng.load(st, b, o, 8, 64)
                if sret:
                    rb, ro = eng.addr(st, args[0])
                    eng.store(st, rb, ro, 8, d); eng.store(st, rb, ro + 8, 8, ZERO)
                    return [(st, ZERO)]
                return [(st, Tup([d, ZERO]))]
            return [(st, ZERO if i.ty == 'void' else eng.retval(i, fn))]
        if fn is not None and fn.repo and fn.name in self.reach(eng.m):
            return None
        # cannot touch a lock: only its result is unknown, the count stays (no function outside the reach set stores to it)
        save = {}
        if self.cnt is not None:
            for b, o in st.mem:
                if (b is self.cnt[0] and o == self.cnt[1]) or (b.kind == 'alloca' and b.key == ('ghostcnt',)):
                    save[(b, o)] = st.mem[(b, o)]
        if fn is not None and fn.repo:
            out = cutcall(eng, st, i, fn, args)
        else:
            out = eng.models.call(eng, st, i, fn, base, args, ctx)
            if out is None:
                if base and base.startswith('llvm.'):
                    return None
                out = []
                for k, s in eng.opaque_call(st, i, fn, base, args, ctx):
                    if k == 'throw':
                        out.append(('throw', s))
                    else:
                        out.append((s, s.env.get(i.id, ZERO) if i.id is not None else ZERO))
        for o in out:
            s = o[1] if o[0] == 'throw' else o[0]
            for k, v in save.items():
                s.mem = dict(s.mem); s.mem[k] = v
        return out

    def reach(self, m):
        r = getattr(m, '_pthr', None)
        if r is None:
            r = m._pthr = reaches(m, {'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_timedlock', 'pthread_mutex_unlock', 'pthread_cond_wait',
                                      'pthread_cond_timedwait', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_rwlock_wrlock', 'pthread_rwlock_rdlock',
                                      'pthread_rwlock_trywrlock', 'pthread_rwlock_tryrdlock', 'pthread_rwlock_unlock'}, stop={'Log::~Log', 'Log::Log'})
            # small accessors of the lock classes themselves are analysed in place
            r |= {f.name for f in m.repo_funcs() if f.base.startswith(('Mutex::', 'Signal::', 'RWLock::')) and f.base != 'Mutex::mutext'}
        return r

    def abstime(self, eng, st, p, i, base):
        b, o = eng.addr(st, p)
        d = st.res(eng.load(st, b, o, 8, 64)) if b is not None else None
        key = 'C04/%s/deadline' % self.entry
        want = self.t0 + self.msecs if getattr(self, 'msecs', None) is not None else None
        if want is None:
            return
        ok = d is not None and st.prove_eq0(d - want)
        if not ok and not (d is not None and all(a is self.t0.single() or a.kind == 'param' for a in d.t)):
            self.undec = '%s: deadline %s not understood' % (self.entry, d); return
        self.met(key, ok)
        if not ok:
            self.report(st, key, i.where(), '%s hands the system the deadline %s instead of the current time plus %s' % (self.entry, d, self.msecs))

    def on_access(self, eng, st, i, kind, b, o, size, val, ctx):
        if kind == 'store' and self.cnt is not None and b is self.cnt[0] and o == self.cnt[1]:
            key = 'C06/%s/count under lock' % self.entry
            ok = self.held(st, self.mtx) > 0
            self.met(key, ok)
            if not ok:
                self.report(st, key, i.where(), '%s changes the lock count without holding the mutex' % self.entry)


class AggModels(Models):
    pass


def mutex_layout(cx):
    r = cx.record('Mutex')[0]
    mt = cnt = None
    for f in r.fields():
        if f.name == 'mMutex' or 'pthread_mutex_t' in (f.qual() or ''):
            if mt is None:
                mt = f
    ints = [f for f in r.fields() if f.name == 'mLockCnt']
    if mt is None or not ints:
        raise core.Broken('Mutex: system mutex or lock count member not found')
    return mt.off, ints[0].off


def c06(cx):
    cx.rule('Each Mutex operation (lock with and without reporting, trylock, timedlock, unlock, lockcnt) is analysed against the system calls, with every call that can '
            'fail given a failing outcome with any error number, for a caller that does not and one that does hold the mutex already: the result is true exactly on '
            'paths on which the system call acquired the mutex, the count changes by exactly one for each acquisition and release, and only while it is held. '
            'The system mutex is made with the attribute that lets its holder lock it again.')
    moff, coff = mutex_layout(cx)
    n = 0
    for name in ('Mutex::lock', 'Mutex::trylock', 'Mutex::timedlock', 'Mutex::unlock', 'Mutex::lockcnt'):
        for f in cx.need(name)[:1]:
            for h0 in (0, 1):
                if name == 'Mutex::unlock' and h0 == 0:
                    continue
                rule = PrimRule(name)
                eng = Engine(cx.m, rule, Models(locks=False, signals=False))
                rule.t0 = lin(eng.atom('param', ('t0',), 'now', 64, 1 << 40, 1 << 41))
                st = State(); args = eng.params(f)
                me = eng.addr(st, args[0])[0]
                rule.mtx = (me, moff); rule.cnt = (me, coff)
                g = eng.atom('alloca', ('ghostcnt',), 'ghostcnt', 'p', 1)
                c0 = eng.load(st, me, coff, 4, 32)
                a = c0.single(); a.lo = h0; a.hi = 1 << 20
                eng.store(st, g, 0, 4, c0)
                if h0:
                    rule.sethold(st, rule.mtx, h0)
                try:
                    exits = eng.run(f, st, args)
                except Budget as e:
                    cx.undecided(name, str(e)); continue
                for x in eng.inlined:
                    cx.fn(cx.m.funcs[x])
                tag = '%s%s' % (name, ' (already held)' if h0 and name != 'Mutex::unlock' else '')
                rets = 0
                for x in exits:
                    if x.kind != 'ret':
                        if x.kind == 'throw':
                            # only library text handling can throw here: it must not change what is held
                            pass
                        continue
                    rets += 1
                    d = rule.held(x.st, rule.mtx) - h0
                    cnt = x.st.res(eng.load(x.st, me, coff, 4, 32)); was = x.st.res(eng.load(x.st, g, 0, 4, 32))
                    where = x.inst.where() if x.inst is not None else f.where()
                    okc = x.st.prove_eq0(cnt - was - d)
                    if not okc and not precise(cnt - was):
                        cx.undecided(tag, 'count %s not understood' % cnt)
                    else:
                        cx.obligation('C06/%s/count' % tag, okc, where, '%s: the mutex is %s but the lock count changes by %s' % (
                            tag, {0: 'neither acquired nor released', 1: 'acquired once', -1: 'released once'}.get(d, 'acquired %d times' % d), cnt - was),
                            core.pathlist(x.st))
                    if name in ('Mutex::trylock', 'Mutex::timedlock'):
                        t = x.st.decide(eng.tocond(x.st, x.val))
                        if t is None:
                            c = eng.tolin(x.st, x.val)
                            if not precise(c):
                                cx.undecided(tag, 'result not understood'); continue
                            # the result does not depend on the outcome of the system call
                            cx.obligation('C06/%s/result' % tag, False, where, '%s: its result does not follow from the outcome of the system call' % tag, core.pathlist(x.st))
                            continue
                        cx.obligation('C06/%s/result' % tag, t == (d == 1), where, '%s reports %s although the mutex was %s' % (
                            tag, 'success' if t else 'failure', 'acquired' if d == 1 else 'not acquired'), core.pathlist(x.st))
                    elif name == 'Mutex::lock':
                        cx.obligation('C06/%s/acquires' % tag, d == 1, where, '%s returns after acquiring the mutex %d times' % (tag, d), core.pathlist(x.st))
                    elif name == 'Mutex::unlock':
                        cx.obligation('C06/%s/releases' % tag, d == -1, where, '%s returns having released the mutex %d times' % (tag, -d), core.pathlist(x.st))
                    else:
                        v = eng.tolin(x.st, x.val)
                        cx.obligation('C06/%s/value' % tag, x.st.prove_eq0(v - cnt) and d == 0, where, '%s does not return the lock count' % tag, core.pathlist(x.st))
                if not rets:
                    cx.fail('C06/%s/returns' % tag, f.where(), '%s never returns' % tag)
                n += 1
                drain(cx, rule)
    for name in ('RWLock::trywlock', 'RWLock::tryrlock'):
        for f in cx.need(name)[:1]:
            rule = PrimRule(name); eng = Engine(cx.m, rule, Models(locks=False, signals=False)); st = State(); args = eng.params(f)
            for x in eng.run(f, st, args):
                if x.kind == 'ret':
                    d = sum(v for k, v in x.st.ts.items() if k[0] == 'H')
                    t = x.st.decide(eng.tocond(x.st, x.val))
                    cx.obligation('C06/%s/result' % name, t is not None and t == (d == 1), f.where(), '%s reports %s although the lock was %s' % (
                        name, t, 'acquired' if d else 'not acquired'), core.pathlist(x.st))
            cx.fn(f); n += 1
    cx.atleast('lock operations', n, 9)
    recursive(cx, moff)


class InitRule(RuleBase):
    """attribute objects carry the kind last set; mutex objects the kind they were made with"""

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if base in ('pthread_mutexattr_init', 'pthread_mutexattr_settype'):
            st.ts[('A',) + eng.addr(st, args[0])] = ZERO if len(args) == 1 else st.res(eng.tolin(st, args[1]))
        elif base == 'pthread_mutexattr_destroy':
            st.ts.pop(('A',) + eng.addr(st, args[0]), None)
        elif base == 'pthread_mutex_init':
            a = st.res(eng.tolin(st, args[1]))
            st.ts[('X',) + eng.addr(st, args[0])] = ZERO if not a.t and a.c == 0 else st.ts.get(('A',) + eng.addr(st, args[1]), ('unset',))
        else:
            return None
        return [(st, ZERO)]


def recursive(cx, moff):
    RECURSIVE = 1
    n = 0
    for f in cx.need('Mutex::Mutex'):
        if len(f.args) > 1 and 'Mutex const&' in f.dem:
            continue
        rule = InitRule(); eng = Engine(cx.m, rule, Models(locks=False, signals=False))
        st = State(); args = eng.params(f)
        me = eng.addr(st, args[0])[0]
        for x in eng.run(f, st, args):
            if x.kind != 'ret':
                continue
            k = x.st.ts.get(('X', me, moff))
            where = x.inst.where() if x.inst is not None else f.where()
            if isinstance(k, Lin) and k.t:
                cx.undecided('Mutex::Mutex', 'kind of mutex not understood'); continue
            cx.obligation('C06/Mutex::Mutex/again', isinstance(k, Lin) and k.c == RECURSIVE, where, 'the mutex is %s, so a thread that holds it cannot lock it again' % (
                'not initialised' if k is None else 'made with attributes that were never set' if not isinstance(k, Lin) else 'made non-recursive'), core.pathlist(x.st))
            n += 1
        cx.fn(f)
    cx.atleast('mutex constructions', n, 1)


def signals(cx, prop):
    """the condition-variable wrapper (used by C03 and C04)"""
    sig = cx.record('Signal')[0]; moff, coff = mutex_layout(cx)
    n = 0
    for f in cx.need('Signal::wait') + cx.need('Signal::signal') + cx.need('Signal::broadcast'):
        name = f.base
        timed = len(f.args) > 2
        rule = PrimRule('%s%s' % (name, ' with a timeout' if timed else ''))
        eng = Engine(cx.m, rule, Models(locks=False, signals=False))
        rule.t0 = lin(eng.atom('param', ('t0',), 'now', 64, 1 << 40, 1 << 41))
        st = State(); args = eng.params(f)
        if timed:
            rule.msecs = eng.tolin(st, args[2])
            a = rule.msecs.single()
            if a is not None:
                a.hi = (1 << 31) - 1      # longer waits than 24 days are not considered
                if a.lo is None:
                    a.lo = -(1 << 31)
        me = eng.addr(st, args[0])[0]
        exits = eng.run(f, st, args)
        cx.fn(f)
        for x in exits:
            if x.kind != 'ret':
                continue
            ev = {k[1]: (k[2], k[3], v) for k, v in x.st.ts.items() if k[0] == 'ev' and len(k) == 4}
            where = f.where()
            if name == 'Signal::wait':
                want = 'pthread_cond_timedwait' if timed else 'pthread_cond_wait'
                if timed and prop == 'C04':
                    pos = x.st.decide(ge0(rule.msecs - 1))
                    if not ev:
                        cx.obligation('C04/Signal::wait/waits', pos is False, where, 'the timed Signal::wait returns at once although its timeout is positive', core.pathlist(x.st))
                    else:
                        cx.obligation('C04/Signal::wait/timed call', set(ev) == {want} and x.st.prove_ge0(rule.msecs - 1), where,
                                      'the timed Signal::wait %s' % ('uses %s' % ', '.join(ev) if set(ev) != {want} else 'blocks with a timeout that is zero or negative'), core.pathlist(x.st))
                    n += 1
                if prop == 'C03':
                    if not timed:
                        ok = set(ev) == {want} and ev[want][2] == 1
                        cx.obligation('C03/Signal::wait/waits', ok, where, 'Signal::wait does not wait on the condition variable exactly once', core.pathlist(x.st))
                    for k, (c, mx, cnt) in ev.items():
                        mb = eng.addr(x.st, args[1])[0]
                        cx.obligation('C03/Signal::wait/arguments', c[0] is me and mx == (mb, moff), where,
                                      'Signal::wait does not wait on its own condition variable with the mutex it was given', core.pathlist(x.st))
                    n += 1
            elif prop == 'C03':
                ok = 'pthread_cond_broadcast' in ev or (name == 'Signal::signal' and 'pthread_cond_signal' in ev)
                ok = ok and all(c[0] is me for c, mx, cnt in ev.values())
                cx.obligation('C03/%s/wakes' % name, ok, where, '%s does not wake %s waiting on its condition variable' % (name, 'all threads' if name.endswith('broadcast') else 'a thread'), core.pathlist(x.st))
                n += 1
        if prop == 'C04':
            if getattr(rule, 'undec', None):
                cx.undecided(rule.entry, rule.undec)
            drain(cx, rule)
    if prop == 'C04':
        for f in cx.need('Mutex::timedlock')[:1]:
            rule = PrimRule('Mutex::timedlock')
            eng = Engine(cx.m, rule, Models(locks=False, signals=False))
            rule.t0 = lin(eng.atom('param', ('t0',), 'now', 64, 1 << 40, 1 << 41))
            st = State(); args = eng.params(f)
            rule.msecs = eng.tolin(st, args[1])
            rule.msecs.single().lo = 0
            exits = eng.run(f, st, args)
            cx.fn(f)
            for x in exits:
                if x.kind == 'ret':
                    cx.obligation('C04/Mutex::timedlock/timed call', ('ev', 'pthread_mutex_lock') not in x.st.ts, f.where(),
                                  'Mutex::timedlock can block without a time limit', core.pathlist(x.st))
            if getattr(rule, 'undec', None):
                cx.undecided(rule.entry, rule.undec)
            n += 1
            drain(cx, rule)
    cx.atleast('condition variable paths', n, 3)


class MultiRule(LockRule):
    explicit = True
    max_states = 512

    def changed_by_others(self, eng, st):
        pass        # the guard belongs to this thread; what is held is typestate

    def __init__(self, entry, group):
        super().__init__(); self.entry = entry; self.group = group

    def on_lock(self, eng, st, loc, i, ctx, kind):
        if kind != 'lock':
            return
        other = [l for l in self.locks(st) if l in self.group and l != loc]
        key = 'C05/%s/blocks' % self.entry
        self.met(key, not other)
        if other:
            self.report(st, key, i.where(), '%s can block on %s while it holds %s' % (self.entry, self.lname(eng, loc), ', '.join(self.lname(eng, l) for l in other)))

    def on_unlock(self, eng, st, loc, i, ctx):
        if self.held(st, loc) < 1:
            key = 'C05/%s/unlock' % self.entry
            self.met(key, False)
            self.report(st, key, i.where(), '%s releases %s, which it does not hold' % (self.entry, self.lname(eng, loc)))


def c05(cx):
    cx.rule('Every constructor of ScopedLockMultiple followed by its destructor, for each of the possible ownership masks: no path makes a blocking acquisition of one of '
            'the mutexes while holding another of the group, all are held exactly once when construction ends, and exactly the ones owned on entry when destruction ends.')
    rec = cx.record('ScopedLockMultiple')[0]
    ctors = []
    seen = set()
    for f in cx.need('ScopedLockMultiple::ScopedLockMultiple'):
        if f.blocks and f.dem not in seen:
            seen.add(f.dem); ctors.append(f)
    dtor = cx.need('ScopedLockMultiple::~ScopedLockMultiple')[0]
    n = 0
    for f in ctors:
        dts = f.d.get('ditypes') or []
        mpos = [k for k in range(1, len(f.args)) if k + 1 < len(dts) and ptr_to(cx.m.type(dts[k + 1]), 'Mutex')]
        if len(mpos) < 2:
            continue
        for owner in range(8 if len(mpos) == 3 else 4):
            name = 'ScopedLockMultiple(%d mutexes%s)' % (len(mpos), ', reporting' if len(f.args) > len(mpos) + 2 else '')
            rule = MultiRule('%s owning %d' % (name, owner), [])
            eng = Engine(cx.m, rule, Models(locks=False, signals=False))
            st = State(); args = eng.params(f)
            obj = eng.atom('alloca', ('guard',), 'guard', 'p', 1); obj.pt = rec
            args[0] = lin(obj)
            ms = []
            for j, k in enumerate(mpos):
                a = eng.atom('alloca', ('mtx', j), 'mutex %s' % 'ABC'[j], 'p', 1); a.pt = cx.record('Mutex')[0]
                args[k] = lin(a); ms.append((a, 0))
            args[1] = const(owner)
            for j, l in enumerate(ms):
                if owner >> j & 1:
                    st.ts[('L',) + l] = 1
            rule.group = ms
            try:
                exits = eng.run(f, st, args)
            except Budget as e:
                cx.undecided(rule.entry, str(e)); continue
            rets = [x for x in exits if x.kind == 'ret']
            if not rets:
                cx.fail('C05/%s/completes' % rule.entry, f.where(), '%s never completes' % rule.entry)
            for x in rets:
                n += 1
                for l in ms:
                    h = rule.held(x.st, l)
                    cx.obligation('C05/%s holds %s' % (rule.entry, rule.lname(eng, l)), h == 1, f.where(),
                                  'when %s has completed, %s is held %d times' % (rule.entry, l[0].name, h), core.pathlist(x.st))
                s2 = x.st.copy()
                for y in eng.run(dtor, s2, [args[0]]):
                    if y.kind != 'ret':
                        continue
                    for j, l in enumerate(ms):
                        h = rule.held(y.st, l)
                        cx.obligation('C05/%s restores %s' % (rule.entry, l[0].name), h == (owner >> j & 1), dtor.where(),
                                      'after the guard of %s is destroyed, %s is held %d times (on entry %d)' % (rule.entry, l[0].name, h, owner >> j & 1), core.pathlist(y.st))
            for x in eng.inlined:
                cx.fn(cx.m.funcs[x])
            drain(cx, rule)
    cx.atleast('guard constructions', n, 12)
