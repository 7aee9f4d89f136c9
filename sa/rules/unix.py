"""C27 signal table and C28 pid file."""
from .common import *
from ..shapes import Shapes, sname

NSIG_VALUES = (-(1 << 31), -64, -1, 0, 1, 2, 9, 11, 15, 31, 32, 62, 63, 64, 65, 100, 128, (1 << 31) - 1)
FATAL = (1, 2, 3, 6, 11, 15)            # HUP INT QUIT ABRT SEGV TERM


class SigRule(LockRule):
    explicit = True
    concrete = True

    def __init__(self, name, rec):
        super().__init__()
        self.name = name; self.sh = Shapes(); self.rec = rec; self.seen = 0; self.vague = False; self.anynum = False; self.track = None
        self.arr = [(x.off, x.strip().size, x.strip().elem().strip()) for x in rec.fields() if x.tag == 'member' and x.strip().tag == 'array_type']

    def key(self, st):
        r = frozenset((k, v) for k, v in st.ts.items() if k[0] in ('L', 'LS', 'ev', 'bad'))
        return (r, st.res(self.track)) if self.track is not None else r

    def changed_by_others(self, eng, st):
        pass

    def index(self, eng, st, i, b, off, want):
        """an element of type `want` at this place of the table object"""
        if b is None or b.pt is None or b.pt.strip() is not self.rec and b.pt.name != self.rec.name:
            return
        arrs = [a for a in self.arr if is_class(a[2], want) or a[2].name.split('<')[0] == want]
        if not arrs:
            return
        lo, size, el = arrs[0]
        o = st.res(off) if isinstance(off, Lin) else const(off)
        self.seen += 1
        key = 'C27/%s/index %s' % (self.name, want)
        if st.prove_ge0(o - lo) and st.prove_ge0(const(lo + size) - o - el.size):
            self.met(key); return
        if precise(o):
            self.met(key, False)
            self.report(st, key, i.where(), '%s uses the %s at offset %s of a table of %d, outside its bounds for some signal number' % (self.name, want, o - lo, size // el.size))
        else:
            self.vague = True

    def on_lock(self, eng, st, loc, i, ctx, kind):
        self.index(eng, st, i, loc[0], loc[1], 'Mutex')

    def on_unlock(self, eng, st, loc, i, ctx):
        self.index(eng, st, i, loc[0], loc[1], 'Mutex')

    def on_access(self, eng, st, i, kind, base, off, size, val, ctx):
        pass

    def ev(self, st, *x):
        if self.anynum:
            return
        st.ts[('ev',)] = st.ts.get(('ev',), ()) + (x,)

    def on_other(self, eng, st, i, fn, base, args, ctx):
        if base in ('std::__cxx11::list', 'std::list') or (base or '').replace('__cxx11::', '').startswith('std::list::'):
            sret = bool(fn.args and fn.args[0].get('sret'))
            b, o = eng.addr(st, args[1 if sret else 0])
            self.index(eng, st, i, b, o, 'list')
        if base in ('signal', '__sysv_signal', 'bsd_signal'):
            self.ev(st, 'signal', st.res(eng.tolin(st, args[0])), st.res(eng.tolin(st, args[1])))
            st.note((i.where(), 'signal(%s, %s)' % (st.res(eng.tolin(st, args[0])), st.res(eng.tolin(st, args[1])))))
            return [(st, eng.retval(i, fn))]
        if base == 'sigaction' and len(args) == 3:
            b, o = eng.addr(st, args[1])
            if b is not None and not isinstance(o, Lin):
                self.ev(st, 'signal', st.res(eng.tolin(st, args[0])), st.res(eng.tolin(st, eng.load(st, b, o, 8, 'p'))))
            return [(st, eng.retval(i, fn))]
        if base in ('kill', 'raise', 'abort', 'tgkill', '_exit', 'exit', 'Exit::exit', 'pthread_kill'):
            self.ev(st, 'die', base, tuple(st.res(eng.tolin(st, a)) for a in args))
            st.note((i.where(), base))
            if base in ('kill', 'raise', 'pthread_kill'):
                return [(st, ZERO)]
            return []
        if fn is None and i.d['callee'][0] != 'asm':
            cv = eng.tolin(st, eng.operand(st, i.d['callee'], ctx))
            self.ev(st, 'run', st.res(cv), tuple(st.res(eng.tolin(st, a)) for a in args))
            st.note((i.where(), 'handler %s runs' % cv))
            return [(st, ZERO)]
        if base == 'WriteCoreDump' or base == 'system':
            return [(st, eng.retval(i, fn))]
        return self.sh.call(eng, st, i, fn, base, args, ctx)


def setup(cx, rec):
    """state with the signal table object in place"""
    g = gname(cx.m, 'gSigVec') or 'gSigVec'
    return g


def c27(cx):
    m = cx.m
    cx.rule('Every use of an element of the handler table or of the lock table, in every method of the signal table and in the system-level handler, for every signal number: the index is inside the table. '
            'Register for valid and invalid numbers: invalid changes nothing and installs nothing, valid installs the system-level handler for the same number and appends exactly the given handler. '
            'The system-level handler with two handlers registered, for every number 1 to 63: both run once with the number, then the default action is restored and only then the process is sent the signal; for other numbers nothing runs.')
    rec = cx.record('UnixSignal')[0]
    sysh = cx.one('_sigHandler')
    reg = cx.one('UnixSignal::Register')
    disp = cx.one('UnixSignal::Handler')
    arrs = SigRule('', rec).arr
    lists = [a for a in arrs if a[2].name.startswith('list<')]
    if len(lists) != 1:
        raise core.Broken('UnixSignal: handler table not recognised')
    loff, lsize, lel = lists[0]
    nsig = lsize // lel.size
    seen = 0

    def go(rule, f, st, args, what):
        eng = rule.eng
        try:
            ex = eng.run(f, st, args)
        except Budget as e:
            cx.undecided(what, str(e)); return []
        for g in eng.inlined:
            cx.fn(m.funcs[g])
        return ex

    def new(name, st=None):
        rule = SigRule(name, rec)
        rule.eng = Engine(m, rule, Models())
        return rule, rule.eng, State()

    def table(eng, st, P, sig=None, hs=()):
        """handler lists: empty except for sig"""
        sh = Shapes()
        for k in range(nsig):
            nodes = []
            if k == sig:
                for n, h in enumerate(hs):
                    nd = eng.atom('heap', ('handler', n), 'entry %d' % (n + 1), 'p', 1)
                    eng.store(st, nd, 16, 8, h); nodes.append(nd)
            sh.lset(st, P, loff + k * lel.size, nodes)
    # ---- any number at all
    for f in (reg, sysh):
        rule, eng, st = new(f.base)
        rule.anynum = True; rule.explicit = rule.concrete = False
        a = eng.params(f)
        rule.track = eng.tolin(st, a[-1])
        ex = go(rule, f, st, a, f.base)
        # seen from the object's own name
        seen += rule.seen
        if rule.vague:
            cx.undecided(f.base, 'an index of the table is not followed')
        drain(cx, rule)
    # every other method that takes a number
    for f in methods_of(m, ['UnixSignal']):
        if f in (reg, disp) or f.base.split('::')[-1] in ('CoreName', 'TarName'):
            continue
        rule, eng, st = new(f.base)
        a = eng.params(f)
        b, o = eng.addr(st, a[0])
        table(eng, st, b)
        go(rule, f, st, a, f.base)
        seen += rule.seen
        drain(cx, rule)
    for f in [x for x in m.repo_funcs() if x.base in ('UnixSignal::UnixSignal', 'UnixSignal::~UnixSignal') and ('C2E' in x.name or 'D2E' in x.name)]:
        rule, eng, st = new(f.base)
        P = eng.atom('heap', ('table',), 'this', 'p', 1); P.pt = rec
        if '~' in f.base:
            table(eng, st, P)
        for e in go(rule, f, st, [lin(P)], f.base):
            if e.kind != 'ret':
                continue
            bad = [x for x in e.st.ts.get(('ev',), ()) if x[0] == 'signal' and x[2] != ZERO and precise(x[2])]
            if '~' in f.base and bad:
                rule.report(e.st, 'C27/%s/default' % f.base, f.where(), '%s leaves a handler installed' % f.base)
        seen += rule.seen
        drain(cx, rule)
    # ---- Register
    for s in NSIG_VALUES:
        rule, eng, st = new('Register')
        P = eng.atom('heap', ('table',), 'this', 'p', 1); P.pt = rec
        H = eng.atom('param', ('h',), 'handler', 'p', 1)
        old = eng.atom('param', ('old',), 'earlier handler', 'p', 1)
        valid = 0 < s < nsig
        table(eng, st, P, s if 0 <= s < nsig else None, [lin(old)])
        ks = [i for i in range(nsig)]
        for e in go(rule, reg, st, [lin(P), lin(H), const(s)], 'Register(%d)' % s):
            if e.kind != 'ret':
                continue
            evs = [x for x in e.st.ts.get(('ev',), ()) if x[0] == 'signal']
            inst = [x for x in evs]
            for k in ks:
                now = rule.sh.lget(e.st, P, loff + k * lel.size)
                if now is None:
                    cx.undecided('Register(%d)' % s, 'list %d not followed' % k); continue
                got = [e.st.res(eng.tolin(e.st, eng.load(e.st, nd, 16, 8, 'p'))) for nd in now]
                want = ([lin(old)] if k == s else []) + ([lin(H)] if valid and k == s else [])
                if got == want:
                    continue
                if sorted(map(str, got)) == sorted(map(str, want)):
                    continue
                if not all(precise(g) for g in got):
                    cx.undecided('Register(%d)' % s, 'an entry is not followed'); continue
                rule.report(e.st, 'C27/Register/list%s' % ('' if valid else ' invalid'), reg.where(),
                            'Register(handler, %d) leaves [%s] registered for signal %d instead of [%s]' % (s, ', '.join(map(str, got)), k, ', '.join(map(str, want))))
            if not valid and inst:
                rule.report(e.st, 'C27/Register/installs invalid', reg.where(), 'Register(handler, %d) changes the action of a signal although the number is out of range' % s)
            if valid:
                if not [x for x in inst if x[1] == const(s)] and all(x[1].is_const() for x in inst):
                    rule.report(e.st, 'C27/Register/installs', reg.where(), 'Register(handler, %d) does not install a handler with the system for signal %d' % (s, s))
                for x in inst:
                    if x[1].is_const() and x[1] != const(s):
                        rule.report(e.st, 'C27/Register/other', reg.where(), 'Register(handler, %d) changes the action of signal %s' % (s, x[1]))
                    g = x[2].single()
                    if x[2].is_const() or g is not None and (g is H or g.kind == 'g' and g.key[1] != sysh.name and not calls_dispatch(m, g.key[1], disp)):
                        rule.report(e.st, 'C27/Register/action', reg.where(), 'Register(handler, %d) installs %s, which does not run the registered handlers' % (s, x[2]))
        seen += rule.seen
        rule.met('Register, signal %d' % s, not rule.rep)
        drain(cx, rule)
    # ---- delivery
    gv = gname(m, 'gSigVec') or [n for n in m.globals if m.globals[n]['dem'] == 'gSigVec'][0]
    for s in list(range(1, nsig)) + [x for x in NSIG_VALUES if not 0 < x < nsig]:
        rule, eng, st = new('delivery')
        P = eng.glob(gv)
        hs = [eng.atom('param', ('h', n), 'handler %d' % n, 'p', 1) for n in (1, 2)]
        valid = 0 < s < nsig
        table(eng, st, P, s if valid else None, [lin(h) for h in hs])
        n = 0
        for e in go(rule, sysh, st, [const(s)], 'delivery of %d' % s):
            n += 1
            if e.kind != 'ret':
                continue
            evs = e.st.ts.get(('ev',), ())
            verdict(rule, e.st, sysh, s, valid, hs, evs)
        seen += rule.seen
        rule.met('delivery of signal %d' % s, not rule.rep)
        drain(cx, rule)
    cx.atleast('table uses', seen, 100)


def calls_dispatch(m, name, disp):
    return name in reaches(m, {disp.base})


def verdict(rule, st, f, s, valid, hs, evs):
    runs = [x for x in evs if x[0] == 'run']
    if not valid:
        if runs:
            rule.report(st, 'C27/delivery/invalid', f.where(), 'handlers run for the invalid signal number %d' % s)
        return
    for h in hs:
        k = [x for x in runs if x[1] == lin(h)]
        if len(k) != 1 and all(precise(x[1]) for x in runs):
            rule.report(st, 'C27/delivery/runs', f.where(), 'signal %d: %s runs %d times instead of once' % (s, h.name, len(k)))
        for x in k:
            if x[2] and x[2][0] != const(s):
                rule.report(st, 'C27/delivery/number', f.where(), 'signal %d: %s is told signal %s' % (s, h.name, x[2][0]))
    die = [n for n, x in enumerate(evs) if x[0] == 'die']
    if not die:
        rule.report(st, 'C27/delivery/rethrow', f.where(), 'signal %d: the process is not sent the signal again after the handlers ran' % s); return
    d = evs[die[0]]
    if d[1] in ('kill', 'raise', 'pthread_kill'):
        sn = d[2][-1]
        if sn.is_const() and sn != const(s):
            rule.report(st, 'C27/delivery/rethrow number', f.where(), 'signal %d: the process is sent signal %s instead' % (s, sn))
        acts = [x for x in evs[:die[0]] if x[0] == 'signal' and x[1] == const(s)]
        if not acts or acts[-1][2] != ZERO and (acts[-1][2].is_const() or precise(acts[-1][2])):
            rule.report(st, 'C27/delivery/default', f.where(), 'signal %d: the signal is sent again before its default action is restored' % s)
    last = max([n for n, x in enumerate(evs) if x[0] == 'run'], default=-1)
    if last > die[0]:
        rule.report(st, 'C27/delivery/order', f.where(), 'signal %d: handlers run after the signal was sent again' % s)


# ---------------------------------------------------------------- C28
class PidRule(LockRule):
    explicit = True
    concrete = True
    EXITS = ('Exit::exit', 'exit', '_exit', 'abort', 'std::terminate', '_Exit', 'quick_exit')

    def __init__(self, name, rec):
        super().__init__()
        self.name = name; self.rec = rec; self.sh = Shapes()

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items() if k[0] in ('L', 'ev', 'cre', 'rm', 'at', 'sig', 'B', 'S', 'LS', 'D'))

    def changed_by_others(self, eng, st):
        pass

    def add(self, st, k, x):
        st.ts[(k,)] = st.ts.get((k,), ()) + (x,)

    def stop(self, eng, st, i, fn, base):
        pass

    def on_other(self, eng, st, i, fn, base, args, ctx):
        if base in self.EXITS:
            self.stop(eng, st, i, fn, base)
            return []
        if fn is not None and fn.repo and base.startswith('ConfigurationTable::'):
            return cutcall(eng, st, i, fn, args)
        if fn is not None and fn.repo and base in ('UnixSignal::CoreName', 'UnixSignal::TarName'):
            return cutcall(eng, st, i, fn, args)
        if fn is not None and fn.repo and base == 'UnixSignal::Register':
            self.add(st, 'sig', (st.res(eng.tolin(st, args[1])), st.res(eng.tolin(st, args[2]))))
            return [(st, ZERO)]
        if base in ('signal', 'sigaction'):
            if base == 'signal':
                self.add(st, 'sig', (st.res(eng.tolin(st, args[1])), st.res(eng.tolin(st, args[0]))))
            return [(st, eng.retval(i, fn))]
        if base in ('atexit', 'std::atexit', '__cxa_atexit', 'on_exit'):
            self.add(st, 'at', st.res(eng.tolin(st, args[0])))
            return [(st, ZERO)]
        if base in ('snprintf', 'sprintf'):
            a = args[2:] if base == 'snprintf' else args[1:]
            b, o = eng.addr(st, args[0])
            fmt = self.sh.cptr(eng, st, a[0])
            if b is not None and not isinstance(o, Lin):
                st.ts[('B', b, o)] = ('fmt', fmt, tuple(st.res(eng.tolin(st, x)) for x in a[1:]))
            return [(st, eng.retval(i, fn))]
        if base in ('fopen', 'fopen64', 'open', 'open64', 'creat', 'creat64', 'freopen'):
            return self.create(eng, st, i, fn, base, args)
        if base == 'fdopen':
            r = eng.fresh('file', 'p', kind='ret'); r.lo = 1
            return [(st, lin(r))]
        if base in ('unlink', 'remove', 'unlinkat', 'std::remove'):
            v = self.sh.cptr(eng, st, args[1] if base == 'unlinkat' else args[0])
            self.add(st, 'rm', v); st.note((i.where(), 'removes the file %s' % (v,)))
            s2 = st.copy()
            return [(st, ZERO), (s2, const(-1))]
        if base in ('stat', 'access', 'kill', 'lstat', 'flock', 'lockf', 'stat64'):
            r = eng.fresh(base, 32, kind='ret'); r.lo = -1; r.hi = 0
            self.add(st, 'ev', (base,))
            return [(st, lin(r))]
        if base in ('strdup', '__strdup'):
            b, o = split_ptr(eng.tolin(st, args[0]))
            v = self.sh.cptr(eng, st, args[0])
            a = eng.fresh('copy', 'p', kind='heap'); a.lo = 1
            st.ts[('B', a, 0)] = v
            return [(st, lin(a))]
        if base in ('fclose', 'close', 'fprintf', 'fputs', 'write', 'getpid', 'fputc', 'fflush', 'dprintf', 'fsync'):
            return [(st, eng.retval(i, fn))]
        return self.sh.call(eng, st, i, fn, base, args, ctx)

    def create(self, eng, st, i, fn, base, args):
        path = self.sh.cptr(eng, st, args[0])
        make = None
        if base.startswith('fopen') or base == 'freopen':
            md = self.sh.cptr(eng, st, args[1])
            if md[0] == 'c':
                make = 'x' in md[1] if md[1][:1] in ('w', 'a') else 'read'
        elif base.startswith('open'):
            fl = st.res(eng.tolin(st, args[1]))
            if fl.is_const():
                make = 'read' if not fl.c & 0o100 else bool(fl.c & 0o200)
        else:
            make = False
        if make == 'read':
            s2 = st.copy()
            return self.two(eng, st, i, fn, base)
        st.note((i.where(), 'creates %s' % (path,)))
        bad = st.copy()
        self.add(st, 'cre', (path, make, i.where()))
        bad.ts[('cre',)] = bad.ts.get(('cre',), ())
        bad.ts[('bad',)] = bad.ts.get(('bad',), ()) + (path,)
        bad.note((i.where(), 'which fails'))
        r = self.two(eng, st, i, fn, base, bad)
        return r

    def two(self, eng, st, i, fn, base, bad=None):
        bad = bad if bad is not None else st.copy()
        if i.ty == 'ptr':
            a = eng.fresh('file', 'p', kind='ret'); a.lo = 1
            return [(st, lin(a)), (bad, ZERO)]
        a = eng.fresh('fd', 32, kind='ret'); a.lo = 0
        return [(st, lin(a)), (bad, const(-1))]


def c28(cx):
    m = cx.m
    cx.rule('RegisterProgram, every outcome of every file operation: the pid file is created in one step that fails if it exists (no separate test), no path returns normally unless the file was created, '
            'a path that stops has not marked the file as its own, success records the path of the file created and registers a function that removes it at exit and for the fatal signals; '
            'SelfDetect::Exit removes the recorded file and every listed file, and nothing if nothing was recorded.')
    rec = cx.record('SelfDetect')[0]
    rp = cx.one('SelfDetect::RegisterProgram'); exf = cx.one('SelfDetect::Exit')
    mem = {x.name: x for x in rec.fields() if x.tag == 'member'}
    ptrs = [x for x in mem.values() if x.strip().tag == 'pointer_type']
    lists = [x for x in mem.values() if x.strip().name.startswith('list<')]
    if not ptrs or len(lists) != 1:
        raise core.Broken('SelfDetect: members not recognised')
    toexit = reaches(m, {'SelfDetect::Exit'})

    def obj(eng, st):
        P = eng.atom('heap', ('self',), 'this', 'p', 1); P.pt = rec
        for x in ptrs:
            eng.store(st, P, x.off, 8, ZERO)
        Shapes().lset(st, P, lists[0].off, ())
        return P
    rule = PidRule('RegisterProgram', rec)
    eng = Engine(m, rule, Models())
    st = State()
    P = obj(eng, st)
    a = eng.params(rp)
    stops = []

    def stop(eng, st, i, fn, base):
        stops.append((st.copy(), i))
    rule.stop = stop
    n = 0
    filem = None
    try:
        ex = eng.run(rp, st, [lin(P)] + a[1:])
    except Budget as e:
        cx.undecided('RegisterProgram', str(e)); ex = []
    for g in eng.inlined:
        cx.fn(m.funcs[g])

    def ptrtext(s, x):
        v = s.res(eng.tolin(s, eng.load(s, P, x.off, 8, 'p')))
        if not v.t:
            return None
        return rule.sh.cptr(eng, s, v)
    created = 0
    for e in ex:
        if e.kind != 'ret':
            continue
        n += 1
        s = e.st
        cre = s.ts.get(('cre',), ())
        if not cre:
            rule.report(s, 'C28/RegisterProgram/continues', rp.where(), 'RegisterProgram returns as if registered although the pid file was not created'); continue
        created += 1
        for path, excl, w in cre:
            if excl is False:
                rule.report(s, 'C28/RegisterProgram/exclusive', w, 'the pid file is created without failing if it exists already, so two programs starting together both succeed')
        if all(x[1] is None for x in cre):
            cx.undecided('RegisterProgram', 'how the file is created is not followed')
        paths = [x[0] for x in cre]
        mine = [x for x in ptrs if ptrtext(s, x) in paths]
        if not mine and all(ptrtext(s, x) is not None and ptrtext(s, x)[0] in ('c', 'fmt', 'null') or ptrtext(s, x) is None or ptrtext(s, x) == rule.sh.cptr(eng, s, a[1]) for x in ptrs):
            rule.report(s, 'C28/RegisterProgram/recorded', rp.where(), 'the path of the pid file created is not recorded for removal at exit')
        for x in mine:
            filem = x
        if any(v in paths for v in s.ts.get(('rm',), ())):
            rule.report(s, 'C28/RegisterProgram/removed', rp.where(), 'RegisterProgram itself removes the pid file')
        at = [g.single() for g in s.ts.get(('at',), ())]
        if not any(g is not None and g.kind == 'g' and g.key[1] in toexit for g in at):
            rule.report(s, 'C28/RegisterProgram/atexit', rp.where(), 'no function that removes the pid file is registered to run at exit')
        sg = s.ts.get(('sig',), ())
        if all(k.is_const() for h, k in sg):
            for k in FATAL:
                hs = [h.single() for h, kk in sg if kk == const(k)]
                if not any(h is not None and h.kind == 'g' and h.key[1] in toexit for h in hs):
                    rule.report(s, 'C28/RegisterProgram/signal %d' % k, rp.where(), 'the pid file is not removed when the program is ended by signal %d' % k)
        else:
            cx.undecided('RegisterProgram', 'the signals registered are not followed')
    for s, i in stops:
        n += 1
        bad = s.ts.get(('bad',), ()); cre = s.ts.get(('cre',), ())
        if cre:
            # stops although created: the file must be known for removal or removed
            paths = [x[0] for x in cre]
            if not any(ptrtext(s, x) in paths for x in ptrs) and not any(v in paths for v in s.ts.get(('rm',), ())):
                rule.report(s, 'C28/RegisterProgram/left', i.where(), 'the program stops after creating the pid file without being able to remove it')
        elif bad:
            at = [g.single() for g in s.ts.get(('at',), ())]
            armed = any(g is not None and g.kind == 'g' and g.key[1] in toexit for g in at)
            if any(ptrtext(s, x) in bad for x in ptrs) and armed or any(v in bad for v in s.ts.get(('rm',), ())):
                rule.report(s, 'C28/RegisterProgram/foreign', i.where(), 'a program that failed to create the pid file removes the file of the running instance when it stops')
    for w in ('creation exclusive', 'never continues unregistered', 'path recorded', 'removal registered for exit', 'removal registered for signals', 'other instance\'s file kept'):
        rule.met('RegisterProgram: ' + w, not rule.rep)
    if ex:
        cx.atleast('outcomes of RegisterProgram', n, 3)
    drain(cx, rule)
    # ---- Exit
    for setf in (True, False):
        for cnt in (0, 1, 2):
            rule = PidRule('Exit', rec)
            eng = Engine(m, rule, Models()); st = State()
            P = obj(eng, st)
            if setf:
                for x in ptrs:
                    f = eng.atom('heap', ('text', x.name), x.name, 'p', 1)
                    st.ts[('B', f, 0)] = ('k', x.name)
                    eng.store(st, P, x.off, 8, lin(f))
            nodes = []
            for k in range(cnt):
                nd = eng.atom('heap', ('file', k), 'file %d' % k, 'p', 1)
                st.ts[('S', nd, 16)] = ('k', 'file %d' % k); nodes.append(nd)
            rule.sh.lset(st, P, lists[0].off, nodes)
            sg = eng.atom('param', ('sig',), 'sig', 32, -(1 << 31), (1 << 31) - 1)
            rule.stop = lambda eng, st, i, fn, base: None
            try:
                ex = eng.run(exf, st, [lin(P), lin(sg)])
            except Budget as e:
                cx.undecided('SelfDetect::Exit', str(e)); continue
            for g in eng.inlined:
                cx.fn(m.funcs[g])
            fm = filem.name if filem is not None else None
            want = ([('k', fm)] if setf and fm else []) + [('k', 'file %d' % k) for k in range(cnt)]
            for e in ex:
                if e.kind != 'ret':
                    continue
                rm = e.st.ts.get(('rm',), ())
                if any(v[0] not in ('k', 'c', 'null') for v in rm):
                    cx.undecided('SelfDetect::Exit', 'a removed file is not followed'); continue
                for w in want:
                    if w not in rm:
                        rule.report(e.st, 'C28/Exit/kept', exf.where(), 'SelfDetect::Exit does not remove %s' % ('the pid file' if w[1] == fm else 'a registered file'))
                for v in rm:
                    if v not in want and fm is not None:
                        rule.report(e.st, 'C28/Exit/other', exf.where(), 'SelfDetect::Exit removes %s' % sname(v))
            rule.met('Exit, %s, %d registered files' % ('registered' if setf else 'not registered', cnt), not rule.rep)
            drain(cx, rule)
    # RegisterFile
    for f, cnt in [(f, c) for f in cx.need('SelfDetect::RegisterFile') for c in (0, 1, 2)]:
        rule = PidRule('RegisterFile', rec)
        eng = Engine(m, rule, Models()); st = State()
        P = obj(eng, st)
        nodes = []
        for k in range(cnt):
            nd = eng.atom('heap', ('file', k), 'file %d' % k, 'p', 1)
            st.ts[('S', nd, 16)] = ('k', 'file %d' % k); nodes.append(nd)
        rule.sh.lset(st, P, lists[0].off, nodes)
        a = eng.params(f)
        want = rule.sh.cptr(eng, st, a[1])
        try:
            ex = eng.run(f, st, [lin(P)] + a[1:])
        except Budget as e:
            cx.undecided(f.base, str(e)); continue
        cx.fn(f)
        for e in ex:
            if e.kind != 'ret':
                continue
            now = rule.sh.lget(e.st, P, lists[0].off)
            if now is None:
                cx.undecided(f.base, 'list not followed'); continue
            got = [rule.sh.sval(eng, e.st, nd, 16) for nd in now]
            if want not in got and (not got or all(g[0] in ('p', 'c', 'k') for g in got)):
                rule.report(e.st, 'C28/RegisterFile', f.where(), 'RegisterFile does not record the file')
            for k in range(cnt):
                if ('k', 'file %d' % k) not in got and all(g[0] in ('p', 'c', 'k') for g in got):
                    rule.report(e.st, 'C28/RegisterFile/forgets', f.where(), 'RegisterFile forgets a file registered earlier')
        rule.met('RegisterFile records the file (%d before)' % cnt, not rule.rep)
        drain(cx, rule)
