"""C01-C06: locks, wake-ups and timed waits, decided on paths of the source with the mutexes modelled."""
from .common import *

QUEUES = ('InterthreadQueue', 'InterthreadQueueWithWait', 'InterthreadMap1', 'InterthreadMap', 'InterthreadPriorityQueue', 'Semaphore')
TABLES = {'ConfigurationTable': ('mCache',), 'ReportingTable': ('mBatch',)}
GLOBALS = {'alarmsList': 'alarmsLock', 'sLogCache': 'sLogCacheLock', 'sCacheCount': 'sLogCacheLock'}
# operations documented as requiring the caller to hold the lock
CALLER_LOCKS = {'ConfigurationTable::checkCacheAge'}
ITER = ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend')


class Objects:
    """which memory is protected by which mutex"""

    def __init__(self, m):
        self.m = m; self.spec = {}
        for name in ('InterthreadQueue', 'InterthreadQueueWithWait', 'InterthreadMap1', 'InterthreadPriorityQueue', 'Semaphore') + tuple(TABLES):
            for r in m.record(name):
                lockp = lock = None; prot = []
                for f in r.fields():
                    t = f.strip()
                    if f.tag == 'inheritance':
                        continue
                    if f.name.startswith('_vptr'):
                        continue
                    if is_class(t, 'Mutex'):
                        lock = lock or f
                    elif is_class(t, 'Signal'):
                        pass
                    elif ptr_to(f, 'Mutex'):
                        lockp = f
                    elif ptr_to(f, 'Signal'):
                        pass
                    elif name not in TABLES or f.name in TABLES[name]:
                        prot.append(f)
                if lock is None or not prot:
                    raise core.Broken('class %s: mutex or shared data not found' % name)
                self.spec[r.id] = (r, lock, lockp, prot)
        self.glob = {}
        bydem = {}
        for n, g in m.globals.items():
            if not g['dem'].startswith('guard variable'):
                bydem[g['dem'].replace('[abi:cxx11]', '').split('::')[-1]] = n
        for v, l in GLOBALS.items():
            if v not in bydem or l not in bydem:
                raise core.Broken('shared variable %s or its mutex %s not found' % (v, l))
            self.glob[bydem[v]] = bydem[l]

        self.cut = Cut(m, QUEUES + tuple(TABLES), set(self.glob))

    def prot(self, eng, st, b, o):
        """(name, lock location) if this address is protected shared data"""
        if b is None:
            return None
        if b.kind == 'g':
            l = self.glob.get(b.key[1])
            if l is not None:
                return self.m.globals[b.key[1]]['dem'], (eng.glob(l), 0)
        if isinstance(o, Lin):
            return None
        for rec, start, f, pos in subobjects(self.m, b, o):
            s = self.spec.get(rec.id)
            if s and any(x is f or x.off == f.off for x in s[3]):
                return '%s::%s' % (strip_t(rec.name), f.name), self.lockof(eng, st, b, start, s)
        return None

    def lockof(self, eng, st, b, start, s):
        if s[2] is not None:
            v = eng.load(st, b, start + s[2].off, 8, 'p')
            return eng.addr(st, v)
        return (b, start + s[1].off)

    def derived(self, eng, st, b, depth=0):
        """the address was obtained from inside a protected container (a node, an iterator)"""
        if b is None or depth > 3:
            return None
        if b.kind == 'op' and b.key[1] in ('mapfind', 'mapslot', 'mapbegin', 'top', 'elem', 'itnext', 'itprev'):
            for x in b.key[2:]:
                if isinstance(x, Lin) and x.t:
                    bb, oo = split_ptr(x)
                    if bb is None:
                        continue
                    p = self.prot(eng, st, bb, oo.c if not oo.t else oo) or self.derived(eng, st, bb, depth + 1)
                    if p:
                        return p
        if b.kind == 'ld' and isinstance(b.key[2], int):
            for rec, start, f, pos in subobjects(self.m, b.key[1], b.key[2]):
                if rec.name.startswith('_List_node') or 'list<' in rec.name:
                    return self.prot(eng, st, b.key[1], b.key[2])
        return None


class C01Rule(LockRule):
    def __init__(self, objs, exempt=()):
        super().__init__(); self.o = objs; self.entry = None; self.skip_access = False
        self.cut = objs.cut

    def check(self, eng, st, b, o, i, ctx, what):
        if self.skip_access:
            return
        p = self.o.prot(eng, st, b, o) or self.o.derived(eng, st, b)
        if not p:
            return
        name, l = p
        if any(is_ctor(f) or is_dtor(f) for f in self.chainfns(ctx) if self.owns(f, name)):
            return
        ok = self.held(st, l) > 0
        key = 'C01/%s/%s' % (self.entry, name)
        self.met(key, ok)
        if not ok:
            other = [self.lname(eng, x) for x in self.locks(st)]
            self.report(st, key, i.where(), '%s %s without holding the mutex that protects it (%s)%s' % (
                self.entry, what + ' ' + name, self.lname(eng, l), '; holds ' + ', '.join(other) if other else ''))

    def chainfns(self, ctx):
        r = []
        while ctx is not None:
            r.append(ctx.fn); ctx = ctx.parent
        return r

    def owns(self, f, name):
        return '::' in f.base and '::' in name and f.base.rsplit('::', 1)[0] == name.rsplit('::', 1)[0]

    def on_access(self, eng, st, i, kind, b, o, size, val, ctx):
        self.check(eng, st, b, o, i, ctx, 'reads' if kind == 'load' else 'writes')

    def on_other(self, eng, st, i, fn, base, args, ctx):
        if fn is not None and self.cut.cut(fn):
            return cutcall(eng, st, i, fn, args)
        if fn is not None and not fn.repo and base and base.startswith(('std::', '__gnu')):
            for n, v in enumerate(args):
                if n == 0 and (is_ctor(fn) or is_dtor(fn)):
                    continue
                if isinstance(v, Lin) and n < len(fn.args) and fn.args[n]['ty'] == 'ptr':
                    b, o = eng.addr(st, v)
                    self.check(eng, st, b, o, i, ctx, 'uses')
        return None


def same_class_params(cx, f, rec):
    """indices of parameters (not this) that point or refer to the same class"""
    out = []
    dts = f.d.get('ditypes') or []
    shift = 1 if f.args and f.args[0].get('sret') else 0
    for n in range(1 + shift, len(f.args)):
        k = n + 1 - shift
        if k < len(dts):
            t = cx.m.type(dts[k])
            p = t.pointee() if t is not None else None
            if p is not None and p.id == rec.id:
                out.append(n)
    return out


def configs(cx, objs, f, rec):
    """[(name, prepare(eng, st, args))]: how the lock and signal pointers are set up on entry"""
    s = objs.spec.get(rec.id)
    if s is None or s[2] is None:
        return [('', lambda eng, st, args: None)]
    sigf = [x for x in rec.fields() if is_class(x.strip(), 'Signal')]
    sigp = [x for x in rec.fields() if ptr_to(x, 'Signal')]
    shift = 1 if f.args and f.args[0].get('sret') else 0
    others = same_class_params(cx, f, rec)

    def setp(eng, st, who, owner):
        b, o = eng.addr(st, who)
        eng.store(st, b, o + s[2].off, 8, owner + s[1].off)
        for p, q in zip(sigp, sigf):
            eng.store(st, b, o + p.off, 8, owner + q.off)

    def own(eng, st, args):
        setp(eng, st, args[shift], args[shift])
        for n in others:
            setp(eng, st, args[n], args[shift])

    def conn(eng, st, args):
        if others:
            owner = args[others[0]]
        else:
            p = eng.atom('obj', ('peer', rec.id), 'peer', 'p', 1)
            p.pt = rec
            owner = lin(p)
        setp(eng, st, args[shift], owner)
        for n in others:
            setp(eng, st, args[n], owner)
    return [('unconnected: ', own), ('connected: ', conn)]


def entry_name(f):
    import re as _re
    a = f.dem
    k = a.find('(')
    return f.base + ('(%d args)' % len([x for x in f.args if not x.get('sret')])) if False else f.base


def public_ops(cx, names):
    for f in methods_of(cx.m, names):
        rec, me = method_info(cx.m, f)
        if me is not None and access(rec, me) != 3:
            continue
        yield f, rec


def entries(cx, names):
    return list(public_ops(cx, names))


def owner_record(objs, rec):
    """the class with the lock: the class itself or a base"""
    if rec.id in objs.spec:
        return rec
    for f in rec.fields():
        if f.tag == 'inheritance':
            r = owner_record(objs, f.strip())
            if r is not None:
                return r
    return None


def dedupe(cx, fs):
    return fs


def c01(cx):
    cx.rule('On every path of every public operation, each access to protected shared data (a member or global listed with its mutex, or a node reached through it) '
            'happens while the mutex of that object is held; connected queues are analysed with their lock pointers set to the peer.')
    objs = Objects(cx.m)
    n = 0
    for f, rec in entries(cx, QUEUES + tuple(TABLES)):
        short = f.base.split('::')[-1]
        orec = owner_record(objs, rec)
        if short in ITER:
            n += iterator_op(cx, objs, f, rec); continue
        if short == 'iqConnect':
            n += connect_op(cx, objs, f, rec); continue
        for cname, prep in configs(cx, objs, f, rec):
            rule = C01Rule(objs); rule.entry = cname + f.base
            st = State(); eng = Engine(cx.m, rule, Models(locks=False, signals=False))
            args = eng.params(f)
            prep(eng, st, args)
            if f.base in CALLER_LOCKS:
                st.ts[('L',) + objs.lockof(eng, st, *(eng.addr(st, args[0]) + (objs.spec[orec.id],)))] = 1
            try:
                exits = eng.run(f, st, args)
            except Budget as e:
                cx.undecided(f.base, str(e)); continue
            for x in eng.inlined:
                cx.fn(cx.m.funcs[x])
            drain(cx, rule); n += 1
            # an operation handing out the lock hands out the one in use
            t = cx.m.type((f.d.get('ditypes') or [-1])[0])
            if t is not None and (ptr_to(t, 'Mutex')) and orec is not None:
                for x in exits:
                    if x.kind != 'ret':
                        continue
                    want = objs.lockof(eng, x.st, *((eng.addr(x.st, args[0])) + (objs.spec[orec.id],)))
                    got = eng.addr(x.st, x.val)
                    cx.obligation('C01/%s hands out the lock in use' % rule.entry, got == want, f.where(),
                                  '%s returns %s, but the operations use %s' % (rule.entry, rule.lname(eng, got), rule.lname(eng, want)),
                                  core.pathlist(x.st), 'C01/%s/handout' % f.base)
    # free functions over protected globals
    done = set(); work = []
    for g, l in objs.glob.items():
        us = [f for f in cx.m.repo_funcs() if g in globals_used(f)]
        us = [f for f in us if not f.base.startswith(('__cxx_global', '_GLOBAL', '__cxx_'))]
        if not us:
            raise core.Broken('no function uses %s' % g)
        work += us
    while work:
        f = work.pop()
        if f.name in done:
            continue
        done.add(f.name)
        rule = C01Rule(objs); rule.entry = f.base
        exits, eng = run(cx, rule, f, Models(locks=False, signals=False))
        if rule.rep and (f.d.get('internal') or not is_public(cx.m, f)):
            cs = [cx.m.funcs[c] for c in callers(cx.m).get(f.name, ()) if c != f.name]
            if cs:
                work += cs
                continue
        drain(cx, rule); n += 1
    cx.atleast('operations', n, 40)


def iterator_op(cx, objs, f, rec):
    """begin/end are obtained with the lock already held by the caller: they must accept the lock in use"""
    for cname, prep in configs(cx, objs, f, rec):
        rule = C01Rule(objs); rule.entry = cname + f.base; rule.skip_access = True
        st = State(); eng = Engine(cx.m, rule, Models(locks=False, signals=False))
        args = eng.params(f)
        prep(eng, st, args)
        shift = 1 if f.args and f.args[0].get('sret') else 0
        orec = owner_record(objs, rec)
        b, o = eng.addr(st, args[shift])
        l = objs.lockof(eng, st, b, o, objs.spec[orec.id])
        st.ts[('L',) + l] = 1
        try:
            exits = eng.run(f, st, args)
        except Budget as e:
            cx.undecided(f.base, str(e)); continue
        cx.fn(f)
        aborts = [x for x in exits if x.kind == 'noret']
        cx.obligation('C01/%s usable while holding the lock in use' % rule.entry, not aborts and exits, f.where(),
                      '%s stops the program although the caller holds the lock of the queue' % rule.entry, core.pathlist(aborts[0].st) if aborts else None,
                      'C01/%s/iterator' % f.base)
    return 1


def connect_op(cx, objs, f, rec):
    rule = C01Rule(objs); rule.entry = f.base; rule.skip_access = True
    st = State(); eng = Engine(cx.m, rule, Models(locks=False, signals=False))
    args = eng.params(f)
    s = objs.spec[rec.id]
    sigp = [x for x in rec.fields() if ptr_to(x, 'Signal')]
    exits = eng.run(f, st, args)
    cx.fn(f)
    for x in exits:
        if x.kind != 'ret':
            continue
        for p in [s[2]] + sigp:
            a = eng.load(x.st, args[0].single(), p.off, 8, 'p'); b = eng.load(x.st, args[1].single(), p.off, 8, 'p')
            cx.obligation('C01/%s shares %s' % (f.base, p.name), x.st.prove_eq0(a - b), f.where(),
                          'after %s the two queues use different %s' % (f.base, p.name), core.pathlist(x.st), 'C01/%s/%s' % (f.base, p.name))
    return 1


# ---------------------------------------------------------------- C02
class C02Rule(LockRule):
    max_states = 32

    def __init__(self, cut):
        super().__init__(); self.cut = cut; self.entry = None

    def on_unlock(self, eng, st, loc, i, ctx):
        n = self.held(st, loc)
        key = 'C02/%s/unlock' % self.entry
        if n > 0:
            self.met(key, True)
            return
        b, o = loc
        st.ts[('U',) + loc] = st.ts.get(('U',) + loc, 0) + 1
        if not isinstance(o, Lin) and b is not None and precise_atom(b):
            self.met(key, False)
            self.report(st, key, i.where(), '%s releases %s, which it does not hold on this path' % (self.entry, self.lname(eng, loc)))

    def on_other(self, eng, st, i, fn, base, args, ctx):
        if fn is not None and self.cut.cut(fn):
            r = cutcall(eng, st, i, fn, args)
            if not fn.d.get('nounwind') and not i.d.get('nounwind') and self.throws(eng, fn):
                s2 = st.copy()
                s2.note((i.where(), 'exception leaves %s' % base))
                return r + [('throw', s2)]
            return r
        return with_throw(eng, st, i, fn, base, args, ctx)

    def throws(self, eng, fn):
        """may the repository function throw (transitively)?"""
        t = getattr(eng.m, '_throws', None)
        if t is None:
            t = eng.m._throws = {}
        if fn.name in t:
            return t[fn.name]
        t[fn.name] = False
        r = False
        for i in calls(fn):
            if i.d.get('nounwind'):
                continue
            c = i.d['callee']
            f2 = eng.m.funcs.get(c[1]) if c[0] == 'g' else None
            if f2 is None:
                r = True
            elif f2.repo:
                r = r or (not f2.d.get('nounwind') and self.throws(eng, f2))
            elif f2.base in ('__cxa_throw', '__cxa_rethrow') or can_throw(f2, f2.base, i):
                r = True
        t[fn.name] = r
        return r

    def may_throw(self, eng, fn, base):
        return fn is None or (fn.repo and not fn.d.get('nounwind') and self.throws(eng, fn))


def lock_users(m):
    out = []
    for f in m.repo_funcs():
        if f.base.startswith(LOCK_LAYER):
            continue
        for i in calls(f):
            c = i.d['callee']
            g = m.funcs.get(c[1]) if c[0] == 'g' else None
            if g is not None and (g.base in LOCK_OPS - {'Mutex::lockcnt', 'Signal::signal', 'Signal::broadcast'} or
                                  g.base in ('ScopedLock::ScopedLock', 'ScopedLockMultiple::ScopedLockMultiple', 'lockCout', 'lockCerr', 'unlockCout', 'unlockCerr')):
                out.append(f); break
    return out


def c02(cx):
    cx.rule('For every function that takes or releases a mutex (directly or through a handing-over helper), on every path to a return or an exceptional exit, '
            'each mutex is released as often as it was acquired by the function; every library call that can throw is given an exceptional continuation; '
            'no path releases a mutex the function does not hold.')
    objs = Objects(cx.m)
    work = lock_users(cx.m)
    cut = Cut(cx.m, QUEUES + tuple(TABLES), set(objs.glob))
    done = set(); n = 0
    while work:
        f = work.pop(0)
        if f.name in done or f.base in HANDOVER or f.base.startswith(LOCK_LAYER):
            continue
        done.add(f.name)
        rec, me = method_info(cx.m, f)
        orec = owner_record(objs, rec) if rec is not None else None
        for cname, prep in (configs(cx, objs, f, rec) if orec is rec and rec is not None else [('', lambda e, s, a: None)]):
            rule = C02Rule(cut); rule.entry = f.base
            eng = Engine(cx.m, rule, Models(locks=False, signals=False))
            st = State(); args = eng.params(f)
            prep(eng, st, args)
            try:
                exits = eng.run(f, st, args)
            except Budget as e:
                cx.undecided(f.base, str(e)); continue
            cx.fn(f)
            n += 1
            rets = [x for x in exits if x.kind == 'ret']
            leaks = [(x, rule.locks(x.st)) for x in exits if x.kind in ('ret', 'throw')]
            unheld = [(x, {k: v for k, v in x.st.ts.items() if k[0] == 'U'}) for x in rets]
            bad = [(x, l) for x, l in leaks if l]
            # a helper that takes or releases for its caller: every normal return agrees (for each returned constant)
            if bad or rule.rep:
                groups = {}
                for x in rets:
                    v = x.st.res(x.val) if isinstance(x.val, Lin) else x.val
                    k = v if isinstance(v, Lin) and not v.t else x.st.decide(v) if isinstance(v, tuple) and not isinstance(v, Tup) else None
                    groups.setdefault(k, set()).add((frozenset(rule.locks(x.st).items()), frozenset((a, b) for a, b in x.st.ts.items() if a[0] == 'U')))
                cs = [cx.m.funcs[c] for c in callers(cx.m).get(f.name, ()) if c != f.name]
                helper = f.d.get('internal') or not is_public(cx.m, f) or cs
                if cs and helper and all(len(g) == 1 for g in groups.values()) and not any(l for x, l in leaks if x.kind == 'throw' and rets and not rule.locks(rets[0].st)):
                    work += cs
                    cx.notes.append('%s hands a lock over to its callers, which are analysed with it in place' % f.base)
                    continue
            for x, l in bad:
                how = 'returns' if x.kind == 'ret' else 'is left by an exception'
                for (b, o), c in l.items():
                    if b is not None and b.kind in ('gen', 'fresh', 'undef'):
                        cx.undecided(f.base, 'lock of unknown identity'); continue
                    where = x.inst.where() if x.inst is not None else f.where()
                    cx.fail('C02/%s/%s/%s' % (f.base, x.kind, rule.lname(eng, (b, o))), where,
                            '%s %s still holding %s' % (f.base, how, rule.lname(eng, (b, o))), core.pathlist(x.st))
            cx.oblig.append(('C02/%s%s balanced on %d exits' % (cname, f.base, len(leaks)), not bad))
            drain(cx, rule)
    # the helpers that hand the stream lock over take it, or give it back, on every way out
    for name, want in (('lockCout', 1), ('lockCerr', 1), ('unlockCout', -1), ('unlockCerr', -1)):
        for f in cx.need(name)[:1]:
            rule = C02Rule(cut); rule.entry = name
            eng = Engine(cx.m, rule, Models(locks=False, signals=False))
            st = State(); args = eng.params(f)
            try:
                exits = eng.run(f, st, args)
            except Budget as e:
                cx.undecided(name, str(e)); continue
            cx.fn(f); n += 1
            for x in exits:
                if x.kind != 'ret':
                    continue
                got = {rule.lname(eng, k): c for k, c in rule.locks(x.st).items()}
                back = {rule.lname(eng, k[1:]): c for k, c in x.st.ts.items() if k[0] == 'U'}
                ok = (list(got.values()) == [1] and not back) if want > 0 else (list(back.values()) == [1] and not got)
                cx.obligation('C02/%s/handover' % name, ok and 'gStreamLock' in str(list(got) + list(back)), x.inst.where() if x.inst is not None else f.where(),
                              '%s does not %s the stream lock exactly once on this path (takes %s, releases %s)' % (name, 'take' if want > 0 else 'release', got or 'nothing', back or 'nothing'),
                              core.pathlist(x.st))
    cx.atleast('functions taking a mutex', n, 30)
