"""C07 lock order, C34 layering: interprocedural lock-order graph and call-graph reachability."""
from .common import *

GUARDS = ('ScopedLock', 'ScopedLockMultiple')


def lockid(m, b, o):
    """type-level identity of a mutex: global variable, or class and member"""
    if b is None:
        return None
    if b.kind == 'g':
        g = m.globals.get(b.key[1])
        t = m.type(g['dity']).strip() if g and g.get('dity', -1) is not None and g.get('dity', -1) >= 0 else b.pt
        if t is None or not t.is_record() or is_class(t, 'Mutex'):
            return g['dem'].replace('[abi:cxx11]', '') if g else b.name
    if isinstance(o, Lin):
        return None
    last = None
    for rec, start, f, pos in subobjects(m, b, o):
        if is_class(f.strip(), 'Mutex'):
            last = '%s::%s' % (strip_t(rec.name), f.name)
            break
    return last


class OrderRule(LockRule):
    def __init__(self, m, inl):
        super().__init__(); self.m = m; self.inl = inl
        self.acq = {}; self.calls = {}; self.edges = {}

    def changed_by_others(self, eng, st):
        pass

    def names(self, st):
        return {n for n in (lockid(self.m, *l) for l in self.locks(st)) if n}

    def on_lock(self, eng, st, loc, i, ctx, kind):
        n = lockid(self.m, *loc)
        if n is None:
            return
        if kind == 'lock' or kind == 'timed':
            self.acq.setdefault(n, i.where())
            for h in self.names(st):
                self.edges.setdefault((h, n), (i.where(), [i.where()]))

    def on_other(self, eng, st, i, fn, base, args, ctx):
        if fn is None or not fn.repo:
            return None
        if base.startswith(LOCK_LAYER) or fn.name in self.inl:
            return None
        h = frozenset(self.names(st))
        self.calls.setdefault((fn.name, h), i.where())
        return cutcall(eng, st, i, fn, args)

    def snapshot(self):
        return None

    def restore(self, s):
        pass

    def since(self, s):
        return None

    def merge(self, d):
        pass


def lockgraph(cx):
    m = cx.m
    raw = {'Mutex::lock', 'Mutex::_lock', 'Mutex::unlock', 'Mutex::trylock', 'Mutex::timedlock'}
    inl = set()
    direct = set()
    for f in m.repo_funcs():
        for i in calls(f):
            c = i.d.get('callee')
            if c and c[0] == 'g' and c[1] in m.funcs:
                b = m.funcs[c[1]].base
                if b in raw or (is_ctor(m.funcs[c[1]]) and b.split('::')[0] in GUARDS):
                    direct.add(f.name)
                if b in raw and not f.base.startswith(LOCK_LAYER):
                    inl.add(f.name)
    acq = {}; cls = {}; edges = {}
    n = 0
    for f in m.repo_funcs():
        if f.base.startswith(LOCK_LAYER) or f.name.startswith('_GLOBAL') or f.base.startswith('sa_'):
            continue
        if f.name in direct:
            r = OrderRule(m, inl)
            eng = Engine(m, r, Models(locks=False, signals=False, logging=False))
            try:
                eng.run(f, State(), eng.params(f))
            except Budget as e:
                cx.undecided('C07/' + f.base, str(e))
            n += 1
            cx.fn(f)
            acq[f.name] = dict(r.acq); cls[f.name] = r.calls
            for k, v in r.edges.items():
                edges.setdefault(k, []).append((f, v[0], []))
        else:
            acq[f.name] = {}
            cls[f.name] = {(i.d['callee'][1], frozenset()): i.where() for i in calls(f)
                           if i.d.get('callee') and i.d['callee'][0] == 'g' and i.d['callee'][1] in m.funcs and m.funcs[i.d['callee'][1]].repo}
    # transitive acquisitions with a witness path
    trans = {f: {l: [w] for l, w in a.items()} for f, a in acq.items()}
    ch = True
    while ch:
        ch = False
        for f in cls:
            for (c, h), w in cls[f].items():
                for l, p in trans.get(c, {}).items():
                    if l not in trans[f]:
                        trans[f][l] = ['%s calls %s' % (w, m.funcs[c].base)] + p
                        ch = True
    for f in cls:
        for (c, h), w in cls[f].items():
            for l, p in trans.get(c, {}).items():
                for x in h:
                    edges.setdefault((x, l), []).append((m.funcs[f], w, ['%s calls %s' % (w, m.funcs[c].base)] + p))
    return edges, trans, n


def c07(cx):
    cx.rule('Lock-order graph: the locks held at every call site (path-sensitive) against the locks the callee can take directly or through any further call; '
            'nodes are global mutexes and mutex members identified by class; an edge in both directions (a cycle) between two different locks is a violation.')
    edges, trans, n = lockgraph(cx)
    cx.atleast('functions that take a lock', n, 40)
    names = sorted({x for e in edges for x in e} | {l for t in trans.values() for l in t})
    for want in ('ConfigurationTable::mLock', 'alarmsLock'):
        if want not in names:
            raise core.Broken('lock %s not seen' % want)
    succ = {}
    for (a, b) in edges:
        if a != b:
            succ.setdefault(a, set()).add(b)

    def reach(a):
        seen = {}; work = [(a, [a])]
        while work:
            x, p = work.pop()
            for y in succ.get(x, ()):
                if y not in seen:
                    seen[y] = p + [y]; work.append((y, p + [y]))
        return seen
    for a in names:
        r = reach(a)
        for b in sorted(succ.get(a, ())):
            back = reach(b).get(a)
            f, w, path = edges[(a, b)][0]
            msg = ''
            if back:
                g, w2, path2 = edges[(back[0], back[1])][0] if len(back) > 1 else (f, w, path)
                msg = '%s is taken while holding %s (%s, %s), and %s while holding %s (%s, %s)' % (b, a, f.base, w, back[1], back[0], g.base, w2)
            cx.obligation('C07/%s/%s' % tuple(sorted((a, b))) if back else 'C07/%s before %s' % (a, b), not back, w, msg, path + ['--'] + (path2 if back else []))
    for a in names:
        cx.ok('C07 lock ' + a)


# ---- C34
FORMATTERS = {'Utils::format', 'Utils::format1'}
LOGREC = ('Log::Log', 'Log::~Log', 'Log::get', 'gLogEarly')


def closure(m, roots, stop=()):
    """functions reachable from roots -> call path"""
    seen = {}
    work = []
    for f in roots:
        seen[f.name] = [f.base]; work.append(f)
    while work:
        f = work.pop(0)
        for i in calls(f):
            for c in targets(m, i):
                if c.name not in seen and c.base not in stop:
                    seen[c.name] = seen[f.name] + ['%s %s' % (i.where(), c.base)]
                    if c.repo:
                        work.append(c)
    return seen


def targets(m, i):
    c = i.d.get('callee')
    if c and c[0] == 'g' and c[1] in m.funcs:
        return [m.funcs[c[1]]]
    return []


def c34(cx):
    cx.rule('Call-graph reachability over direct calls (logging macros expanded): from every Mutex operation no log record, configuration access or log-level lookup is '
            'reachable; from the level lookup, the database helpers, the configuration read path and the record writer the cached log-level test (which starts a level '
            'lookup) is not reachable; an unconditional record written below the alarm recorder is less severe than CRIT.')
    m = cx.m

    def roots(pred, what, k):
        r = [f for f in m.repo_funcs() if pred(f)]
        cx.atleast(what, len(r), k)
        cx.fn(*r)
        return r

    def forbid(rs, bad, why, tag, stop=()):
        for f in rs:
            c = closure(m, [f], stop)
            hit = sorted((len(p), n) for n, p in c.items() if n != f.name and bad(m.funcs[n]))
            name = 'C34/%s/%s' % (tag, f.base)
            if hit:
                p = c[hit[0][1]]
                cx.obligation(name, False, f.where(), '%s can reach %s (%s)' % (f.base, m.funcs[hit[0][1]].base, why), p)
            else:
                cx.ok(name)
    def severity(rs, tag):
        c = closure(m, rs, stop={'Log::~Log'})
        n = 0
        for nme in sorted(c):
            f = m.funcs[nme]
            if not f.repo:
                continue
            for i in calls(f):
                for t in targets(m, i):
                    if t.base == 'Log::Log':
                        n += 1
                        k = i.ops[1] if len(i.ops) > 1 else None
                        if k and k[0] == 'c':
                            cx.obligation('C34/%s/record in %s %d' % (tag, f.base, n), int(k[1]) > 2, i.where(),
                                          '%s can reach this record of severity %s in %s, which is an alarm itself' % (rs[0].base, k[1], f.base), c[nme],
                                          key='C34/%s/record in %s' % (tag, f.base))
    mutex = roots(lambda f: f.base.startswith('Mutex::') or f.base.startswith(('ScopedLock::', 'RWLock::', 'Signal::')), 'lock primitives', 12)
    conf = lambda f: f.base.startswith(('ConfigurationTable::', 'ConfigurationRecord::'))
    forbid(mutex, lambda f: f.base in LOGREC or conf(f) or f.base in ('gGetLoggingLevel', 'getLoggingLevel', 'addAlarm'),
           'logging takes mutexes, so the lock primitives must not log or use the configuration', 'primitives', stop=FORMATTERS)
    # the formatters, which the primitives use for their reports, may record oversized text, but unconditionally and not as an alarm
    fm = roots(lambda f: f.base in FORMATTERS, 'formatters', 2)
    forbid(fm, lambda f: f.base in ('gGetLoggingLevel', 'getLoggingLevel') or conf(f), 'the lock primitives and the level lookup use the formatter', 'formatter', stop={'Log::~Log'})
    severity(fm, 'formatter')
    level = roots(lambda f: f.base in ('getLoggingLevel', 'lookupLevel', 'lookupLevel2', 'levelStringToInt'), 'level lookup', 3)
    forbid(level, lambda f: f.base == 'gGetLoggingLevel', 'the level lookup would look up a level again, without end', 'level lookup')
    db = roots(lambda f: (f.file or '').endswith('sqlite3util.cpp') and not f.name.startswith('_GLOBAL'), 'database helpers', 10)
    forbid(db, lambda f: f.base == 'gGetLoggingLevel', 'the level lookup uses the database', 'database')
    rd = [f for f in m.repo_funcs() if conf(f) and f.base.split('::')[-1] in ('lookup', 'getStr', 'getNum', 'getFloat', 'getBool', 'defines', 'keyDefinedInSchema', 'checkCacheAge', 'set')]
    cx.atleast('configuration read path', len(rd), 6)
    forbid(rd, lambda f: f.base == 'gGetLoggingLevel', 'the level lookup reads the configuration', 'configuration')
    rec = roots(lambda f: f.base in ('Log::Log', 'Log::~Log', 'Log::get', 'addAlarm'), 'record writer', 3)
    forbid([f for f in rec if f.base != 'Log::Log'], lambda f: f.base == 'gGetLoggingLevel', 'writing a record would test a level again', 'record writer')
    # unconditional records below addAlarm: severity must not make them alarms themselves
    severity(roots(lambda f: f.base == 'addAlarm', 'alarm recorder', 1), 'alarm recorder')
    cx.notes.append('Calls through function pointers (cross-check callbacks, thread entry points, signal handlers) are not followed: they run user code.')
