"""C22 alarms and C23 level and group tables."""
from .common import *
from ..shapes import Shapes, sname

LEVELS = ['EMERG', 'ALERT', 'CRIT', 'ERR', 'WARNING', 'NOTICE', 'INFO', 'DEBUG']       # syslog.h, in order of number


class ListRule(LockRule):
    explicit = True
    concrete = True

    def __init__(self, name, mx):
        super().__init__()
        self.name = name; self.mx = mx; self.sh = Shapes(); self.keys = set()

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items() if k[0] in ('L', 'LS', 'S', 'E', 'n', 'sys', 'al'))

    def changed_by_others(self, eng, st):
        pass

    def on_other(self, eng, st, i, fn, base, args, ctx):
        if base in ('ConfigurationTable::getNum', 'ConfigurationTable::getStr', 'ConfigurationTable::getFloat', 'ConfigurationTable::getBool') and fn.repo:
            k = self.sh.sref(eng, st, args[1]) if not (fn.args and fn.args[0].get('sret')) else None
            self.keys.add(k)
            if base == 'ConfigurationTable::getNum':
                return [(st, const(self.mx))]
            return [(st, eng.retval(i, fn))]
        return self.sh.call(eng, st, i, fn, base, args, ctx)


class DtorRule(ListRule):
    def on_other(self, eng, st, i, fn, base, args, ctx):
        if base == 'addAlarm' and fn.repo:
            st.ts[('al',)] = st.ts.get(('al',), ()) + (self.sh.sref(eng, st, args[0]),)
            st.note((i.where(), 'the alarm is recorded'))
            return [(st, ZERO)]
        if base in ('syslog', 'vsyslog', '__syslog_chk'):
            fmt = self.sh.cptr(eng, st, args[-2] if base == 'vsyslog' else args[1] if base == 'syslog' else args[2])
            a = tuple(self.sh.cptr(eng, st, x) if isinstance(x, Lin) else None for x in (args[2:] if base == 'syslog' else ()))
            st.ts[('sys',)] = st.ts.get(('sys',), ()) + ((st.res(eng.tolin(st, args[0])), fmt, a),)
            st.note((i.where(), 'sent to the system log'))
            return [(st, ZERO)]
        return self.sh.call(eng, st, i, fn, base, args, ctx)


def c22(cx):
    m = cx.m
    cx.rule('addAlarm on alarm lists of 0 to 3 entries and maxima of 0 to 4 (the maximum may have been lowered): afterwards the list is the newest max entries of the old list followed by the new alarm, in order. '
            'Log::~Log for every priority 0 to 7: the whole text goes to the system log exactly once with that priority, and is recorded as an alarm exactly once if the priority is critical or above, never otherwise; '
            'records that only initialise logging do neither.')
    f = cx.one('addAlarm')
    lists = [n for n, g in m.globals.items() if not g.get('decl') and m.type(g.get('dity', -1)) is not None and m.type(g['dity']).strip().name.startswith('list<') and n in globals_used(f)]
    if len(lists) != 1:
        raise core.Broken('addAlarm: alarm list not recognised')
    n = 0
    deep = cx.tier == 'thorough'
    for mx in range(7 if deep else 5):
        for cnt in range(7 if deep else 4):
            rule = ListRule('addAlarm', mx)
            eng = Engine(m, rule, Models())
            st = State()
            L = eng.glob(lists[0])
            nodes = []
            for k in range(cnt):
                nd = eng.atom('heap', ('alarm', k), 'alarm %d' % (k + 1), 'p', 1)
                st.ts[('S', nd, 16)] = ('k', 'alarm %d' % (k + 1)); nodes.append(nd)
            rule.sh.lset(st, L, 0, nodes)
            a = eng.params(f)
            sb, so = eng.addr(st, a[0])
            st.ts[('S', sb, 0)] = ('k', 'the new alarm')
            try:
                ex = eng.run(f, st, a)
            except Budget as e:
                cx.undecided('addAlarm', str(e)); continue
            for g in eng.inlined:
                cx.fn(m.funcs[g])
            for e in ex:
                if e.kind != 'ret':
                    continue
                now = rule.sh.lget(e.st, L, 0)
                if now is None:
                    cx.undecided('addAlarm', 'list not followed'); continue
                n += 1
                want = ([('k', 'alarm %d' % (k + 1)) for k in range(cnt)] + [('k', 'the new alarm')])
                want = want[len(want) - mx:] if mx < len(want) else want
                got = [rule.sh.sval(eng, e.st, nd, 16) for nd in now]
                cfg = 'addAlarm with %d of at most %d alarms' % (cnt, mx)
                if len(got) > mx:
                    rule.report(e.st, 'C22/bound', f.where(), '%s leaves %d alarms in the list' % (cfg, len(got)))
                elif any(g[0] != 'k' for g in got):
                    cx.undecided(cfg, 'entries not followed')
                elif got != want:
                    rule.report(e.st, 'C22/oldest', f.where(), '%s leaves [%s] instead of [%s]' % (cfg, ', '.join(map(sname, got)), ', '.join(map(sname, want))))
                if e.st.ts.get(('lbad', L, 0)):
                    rule.report(e.st, 'C22/empty', f.where(), '%s removes from an empty list' % cfg)
            for k in rule.keys:
                if k != ('c', 'Log.Alarms.Max'):
                    if k is not None and k[0] == 'c':
                        rule.report(None, 'C22/key', f.where(), 'addAlarm takes the maximum from "%s"' % k[1])
            rule.met('addAlarm, %d alarms, maximum %d' % (cnt, mx), not rule.rep)
            drain(cx, rule)
    cx.atleast('addAlarm outcomes', n, 15)
    rec = cx.record('Log')[0]
    mem = {x.name: x for x in rec.fields() if x.tag == 'member'}
    pri = [x for x in mem.values() if x.strip().tag == 'base_type' and x.strip().size == 4]
    dum = [x for x in mem.values() if x.strip().tag == 'base_type' and x.strip().size == 1]
    if len(pri) != 1 or len(dum) != 1:
        raise core.Broken('Log: members not recognised')
    streams = [x for x in mem.values() if x.strip().name.startswith('basic_ostringstream')]
    d = [x for x in m.find('Log::~Log') if 'D2E' in x.name or 'D1E' in x.name]
    if not d or not streams:
        raise core.Broken('Log::~Log not found')
    f = d[0]
    ini = gname(m, 'sLoggerInited')
    for p in range(8):
        for dummy in (0, 1):
            rule = DtorRule('Log::~Log', 0)
            eng = Engine(m, rule, Models())
            st = State()
            P = eng.atom('heap', ('log',), 'this', 'p', 1); P.pt = rec
            eng.store(st, P, pri[0].off, 4, const(p)); eng.store(st, P, dum[0].off, 1, const(dummy))
            if ini:
                eng.store(st, eng.glob(ini), 0, 1, const(1))
            try:
                ex = eng.run(f, st, [lin(P)])
            except Budget as e:
                cx.undecided('Log::~Log', str(e)); continue
            for g in eng.inlined:
                cx.fn(m.funcs[g])
            text = ('str', P, streams[0].off)
            for e in ex:
                if e.kind != 'ret':
                    continue
                al = e.st.ts.get(('al',), ()); sy = e.st.ts.get(('sys',), ())
                want = 1 if p <= 2 and not dummy else 0
                cfg = 'a record with priority %d (%s)%s' % (p, LEVELS[p], ' that only initialises logging' if dummy else '')
                if len(al) != want:
                    rule.report(e.st, 'C22/alarm%s' % ('' if want else ' extra'), f.where(), '%s is recorded as an alarm %d times instead of %d' % (cfg, len(al), want))
                if len(sy) != (0 if dummy else 1):
                    rule.report(e.st, 'C22/syslog', f.where(), '%s is sent to the system log %d times' % (cfg, len(sy)))
                for pr, fmt, a in sy:
                    if pr != const(p) and pr.is_const():
                        rule.report(e.st, 'C22/priority', f.where(), '%s is sent to the system log with priority %s' % (cfg, pr))
                    if fmt == text or fmt[0] == 'c' and a and a[0] is not None and fmt[1] == '%s' and a[0][0] in ('str', 'c', 'k') and a[0] != text:
                        rule.report(e.st, 'C22/text', f.where(), '%s is not sent to the system log as it is' % cfg)
                for a in al:
                    if a[0] in ('c', 'k', 'str') and a != text:
                        rule.report(e.st, 'C22/alarm text', f.where(), '%s: the text recorded is not the text logged' % cfg)
            rule.met('Log::~Log, priority %d, %s' % (p, 'initialising' if dummy else 'record'), not rule.rep)
            drain(cx, rule)
    # what the constructors leave
    for c in m.find('Log::Log'):
        if 'C2E' in c.name and any('C1E' in x.name and x.dem == c.dem for x in m.find('Log::Log')):
            continue
        rule = DtorRule('Log::Log', 0)
        eng = Engine(m, rule, Models())
        rule.inlineable = False
        a = eng.params(c)
        init = len(c.args) > 2
        if init:
            rule.on_call = cut_repo(rule, c)
        try:
            ex = eng.run(c, State(), a)
        except Budget as e:
            cx.undecided(c.dem, str(e)); continue
        cx.fn(c)
        for e in ex:
            if e.kind != 'ret':
                continue
            b, o = eng.addr(e.st, a[0])
            dv = e.st.res(eng.tolin(e.st, eng.load(e.st, b, dum[0].off, 1, 8)))
            pv = e.st.res(eng.tolin(e.st, eng.load(e.st, b, pri[0].off, 4, 32)))
            if dv.is_const() and bool(dv.c) != init:
                rule.report(e.st, 'C22/ctor', c.where(), '%s marks the record as %s' % (c.dem, 'one that only initialises logging' if dv.c else 'one to be logged'))
            if not init and pv != eng.tolin(e.st, a[1]) and precise(pv):
                rule.report(e.st, 'C22/ctor priority', c.where(), '%s keeps priority %s instead of the given one' % (c.dem, pv))
        rule.met('%s marks the record' % c.dem, not rule.rep)
        drain(cx, rule)


def cut_repo(rule, top):
    """calls to other library functions have no effect on the members looked at"""
    def f(eng, st, i, fn, base, args, ctx):
        if fn is not None and fn.repo and base != 'Log::get' and fn.cls != top.cls:
            return [(st, eng.retval(i, fn))] if i.ty != 'void' else [(st, ZERO)]
        return DtorRule.on_call(rule, eng, st, i, fn, base, args, ctx)
    return f


# ---------------------------------------------------------------- C23
class TabRule(LockRule):
    explicit = True
    concrete = True

    def __init__(self, name, bounds):
        super().__init__()
        self.name = name; self.sh = Shapes(on_null=self.nul); self.bounds = bounds; self.levels = {}; self.seen = 0

    def nul(self, eng, st, i, ctx):
        self.report(st, 'C23/%s/null' % self.name, i.where(), '%s compares the closing null entry of the table as a name' % self.name)

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items() if k[0] in ('L', 'S', 'E', 'out'))

    def changed_by_others(self, eng, st):
        pass

    def on_access(self, eng, st, i, kind, base, off, size, val, ctx):
        n = self.bounds.get(base.key[1]) if base is not None and base.kind == 'g' else None
        if n is None:
            return
        lo, hi, what = 0, n, base.name
        self.seen += 1
        o = st.res(off) if isinstance(off, Lin) else const(off)
        key = 'C23/%s/index %s' % (self.name, what)
        if st.prove_ge0(o - lo) and st.prove_ge0(const(hi) - o - size):
            self.met(key); return
        if precise(o) and not any(a.kind == 'K' for a in o.t):
            self.met(key, False)
            self.report(st, key, i.where(), '%s reads %s outside its %d bytes (at %s)' % (self.name, what, hi, o))

    def on_other(self, eng, st, i, fn, base, args, ctx):
        if base is not None and base.endswith('operator<<') and len(args) == 2:
            s = self.sh.cptr(eng, st, args[1])
            st.ts[('out',)] = st.ts.get(('out',), ()) + (s,)
            return [(st, args[0])]
        return self.sh.call(eng, st, i, fn, base, args, ctx)


class SetRule(TabRule):
    """levels come from the named configuration keys"""

    def on_other(self, eng, st, i, fn, base, args, ctx):
        if fn is not None and fn.repo:
            if base == 'ConfigurationTable::defines':
                return [(st, T)]
            if base == 'ConfigurationTable::getStr':
                rb, ro = eng.addr(st, args[0])
                k = self.sh.sref(eng, st, args[2])
                eng.havoc_obj(st, rb)
                self.sh.sset(st, rb, ro, ('cfg', k))
                return [(st, ZERO)]
            if base == 'levelStringToInt':
                k = self.sh.sref(eng, st, args[0])
                a = eng.fresh('level', 32); a.lo = 0; a.hi = 7
                self.levels[a] = k
                return [(st, lin(a))]
            if base in ('ConfigurationTable::set', 'gGetLoggingLevel', 'Log::~Log', 'Log::get', 'Log::Log', 'ConfigurationKey::getDefaultValue', 'gCheckGroupLogLevel'):
                if fn.args and fn.args[0].get('sret'):
                    rb, ro = eng.addr(st, args[0]); eng.havoc_obj(st, rb); self.sh.sset(st, rb, ro, ('default',))
                return [(st, eng.retval(i, fn))] if i.ty != 'void' else [(st, ZERO)]
        if base in ('std::__cxx11::basic_string::size', 'std::__cxx11::basic_string::length', 'std::__cxx11::basic_string::empty', 'std::basic_string::size', 'std::basic_string::empty', 'std::basic_string::length'):
            v = self.sh.sref(eng, st, args[0])
            if v[0] == 'cfg':
                a = eng.fresh('length', 64); a.lo = 1; a.hi = 1 << 30
                return [(st, F if base.endswith('empty') else lin(a))]
        return super().on_other(eng, st, i, fn, base, args, ctx)


def table(m, name):
    """[string] of a table of string constants (None for a null entry), or None"""
    g = m.globals.get(name)
    if g is None or 'init' not in g:
        return None
    out = []
    n = g['size'] // 8
    ini = {o: v for o, sz, v in g['init']}
    for k in range(n):
        v = ini.get(8 * k)
        out.append(m.cstr(v[1], v[2]) if v is not None and v[0] == 'g' else None)
    return out


def c23(cx):
    m = cx.m
    cx.rule('Level table: the names and their order are those of syslog.h; levelStringToInt, run on every name, gives its number, gives a number 0..7 only for documented names and -1 for any other text; Log::get prints the name of the priority; '
            'the choices of Log.Level in the schema are exactly the names. Group table: entry k is the name of enumerator k, closed by a null entry, groupNameToIndex gives the number of every name and the invalid number for any other; '
            'setAll gives group k the level configured under its own name. All table indexes are inside the tables.')
    lt = gname(m, 'levelNames'); gt = gname(m, 'LogGroup::mGroupNames')
    if lt is None or gt is None:
        raise core.Broken('level or group table not found')
    names = table(m, lt)
    where = 'Logger.cpp:%d' % m.globals[lt]['line']
    cx.obligation('C23/level names are the syslog names in order', names == LEVELS, where, 'the level table is %s, the syslog levels are %s' % (names, LEVELS))
    nl = gname(m, 'numLevels')
    if nl is not None and 'init' in m.globals[nl]:
        v = m.globals[nl]['init'][0][2]
        cx.obligation('C23/number of levels', v[0] == 'c' and int(v[1]) == len(names), 'Logger.cpp:%d' % m.globals[nl]['line'], 'the number of levels is %s but the table has %d names' % (v[1], len(names)))
    fixed = [g for g in (lt, nl, gt) if g is not None]

    def fresh(rule):
        eng = Engine(m, rule, Models())
        st = State()
        for g in fixed:
            if not preset(eng, st, g):
                cx.undecided(g, 'the table may be changed at run time')
        return eng, st
    bounds = {lt: m.globals[lt]['size'], gt: m.globals[gt]['size']}
    f = cx.one('levelStringToInt')
    docs = {'INFORMATION': 6, 'WARN': 4, 'ERROR': 3, 'CRITICAL': 2, 'EMERGENCY': 0}
    for nm in LEVELS + [None]:
        rule = TabRule('levelStringToInt', bounds)
        eng, st = fresh(rule)
        S = eng.atom('heap', ('name',), 'name', 'p', 1)
        st.ts[('S', S, 0)] = ('c', nm) if nm is not None else ('k', 'other text')
        try:
            ex = eng.run(f, st, [lin(S)])
        except Budget as e:
            cx.undecided('levelStringToInt', str(e)); continue
        for g in eng.inlined:
            cx.fn(m.funcs[g])
        for e in ex:
            if e.kind != 'ret':
                continue
            v = e.st.res(eng.tolin(e.st, e.val))
            if nm is not None:
                if v.is_const() and v.c != LEVELS.index(nm):
                    rule.report(e.st, 'C23/levelStringToInt/number', f.where(), 'the name %s gives %s instead of %d' % (nm, v, LEVELS.index(nm)))
                elif not v.is_const():
                    cx.undecided('levelStringToInt', 'value for %s not followed' % nm)
                continue
            eqs = [k[1:] for k, b in e.st.ts.items() if k[0] == 'E' and b]
            txt = None
            for a, b in eqs:
                txt = a[1] if a[0] == 'c' else b[1] if b[0] == 'c' else None
            if not v.is_const():
                cx.undecided('levelStringToInt', 'value for other text not followed'); continue
            if txt is None and v.c != -1:
                rule.report(e.st, 'C23/levelStringToInt/unknown', f.where(), 'a text that is no level name gives %s instead of -1' % v)
            elif txt is not None:
                w = LEVELS.index(txt) if txt in LEVELS else docs.get(txt)
                if w is not None and v.c != w:
                    rule.report(e.st, 'C23/levelStringToInt/number', f.where(), 'the name %s gives %s instead of %d' % (txt, v, w))
                if not -1 <= v.c <= 7:
                    rule.report(e.st, 'C23/levelStringToInt/range', f.where(), 'the name %s gives %s, which is no level' % (txt, v))
        rule.met('levelStringToInt(%s)' % (nm or 'other text'), not rule.rep)
        drain(cx, rule)
    # printing
    rec = cx.record('Log')[0]
    pri = [x for x in rec.fields() if x.tag == 'member' and x.strip().tag == 'base_type' and x.strip().size == 4]
    f = cx.one('Log::get')
    for p in range(8):
        rule = TabRule('Log::get', bounds)
        eng, st = fresh(rule)
        P = eng.atom('heap', ('log',), 'this', 'p', 1); P.pt = rec
        eng.store(st, P, pri[0].off, 4, const(p))
        try:
            ex = eng.run(f, st, [lin(P)])
        except Budget as e:
            cx.undecided('Log::get', str(e)); continue
        cx.fn(f)
        rets = 0
        for e in ex:
            if e.kind != 'ret':
                continue
            rets += 1
            out = [x for x in e.st.ts.get(('out',), ()) if x[0] == 'c' and x[1].strip()]
            if out and LEVELS[p] not in [x[1].strip() for x in out]:
                rule.report(e.st, 'C23/Log::get/name', f.where(), 'a record with priority %d is headed %s instead of %s' % (p, [x[1] for x in out], LEVELS[p]))
        if not rets:
            rule.report(None, 'C23/Log::get/refused', f.where(), 'priority %d is refused' % p)
        rule.met('Log::get prints %s for %d' % (LEVELS[p], p), not rule.rep)
        drain(cx, rule)
    # any priority: the index stays inside (a larger one is stopped by the assertion)
    rule = TabRule('Log::get', bounds)
    eng, st = fresh(rule)
    P = eng.atom('heap', ('log',), 'this', 'p', 1); P.pt = rec
    q = eng.atom('param', ('priority',), 'priority', 32, 0, (1 << 31) - 1)
    eng.store(st, P, pri[0].off, 4, lin(q))
    try:
        eng.run(f, st, [lin(P)])
        drain(cx, rule)
    except Budget as e:
        cx.undecided('Log::get', str(e))
    # the schema of Log.Level
    ctor = [x for x in m.find('ConfigurationTable::ConfigurationTable')]
    choice = None
    for x in ctor:
        for g in globals_used(x):
            s = m.cstr(g)
            if s and '|' in s and s.split('|')[0].strip() in LEVELS and s.count('|') >= 3:
                choice = s
    if choice is None:
        cx.undecided('Log.Level schema', 'the list of choices was not found')
    else:
        acc = [c.split('|')[0] for c in choice.split(',') if '|' in c]
        cx.obligation('C23/Log.Level choices are the level names', sorted(acc) == sorted(LEVELS), 'Configuration.cpp:%s' % (ctor[0].line), 'the values accepted for Log.Level are %s, the level names are %s' % (acc, LEVELS))
    # groups
    gnames = table(m, gt)
    rec = cx.record('LogGroup')[0]
    enum = [t for t in m.types if t.tag == 'enumeration_type' and t.name == 'Group']
    gwhere = 'Logger.cpp:%d' % m.globals[gt]['line']
    if enum:
        vals = [(e[0], int(e[1])) for e in enum[0].d.get('enums', [])]
        body = sorted((v, n) for n, v in vals if not n.startswith('_'))
        cx.obligation('C23/group table ends with a null entry', gnames and gnames[-1] is None and None not in gnames[:-1], gwhere, 'the group table %s is not closed by exactly one null entry' % gnames)
        for v, n in body:
            cx.obligation('C23/group %d is named %s' % (v, n), v < len(gnames) and gnames[v] == n, gwhere, 'group %s has number %d but entry %d of the name table is %s' % (n, v, v, gnames[v] if v < len(gnames) else 'missing'))
        cx.obligation('C23/as many names as groups', len([x for x in gnames if x]) == len(body), gwhere, '%d names for %d groups' % (len([x for x in gnames if x]), len(body)))
        invalid = max(v for _, v in vals)
    else:
        raise core.Broken('LogGroup::Group not found')
    ng = len(body)
    for f in m.find('LogGroup::groupNameToIndex'):
        for nm in [n for v, n in body] + [None]:
            rule = TabRule('LogGroup::groupNameToIndex', bounds)
            eng, st = fresh(rule)
            a = eng.params(f)
            N = eng.atom('heap', ('text',), 'groupName', 'p', 1)
            st.ts[('B', N, 0)] = ('c', nm) if nm is not None else ('k', 'other text')
            try:
                ex = eng.run(f, st, [a[0], lin(N)])
            except Budget as e:
                cx.undecided(f.base, str(e)); continue
            cx.fn(f)
            for e in ex:
                if e.kind != 'ret':
                    continue
                v = e.st.res(eng.tolin(e.st, e.val))
                if not v.is_const():
                    cx.undecided(f.base, 'value not followed'); continue
                if nm is not None:
                    want = [x for x, n in body if n == nm][0]
                else:
                    eqs = [k[1:] for k, b in e.st.ts.items() if k[0] == 'E' and b]
                    want = invalid
                    for p, q in eqs:
                        t = p[1] if p[0] == 'c' else q[1] if q[0] == 'c' else None
                        want = ([x for x, n in body if n == t] or [invalid])[0]
                if v.c != want:
                    rule.report(e.st, 'C23/groupNameToIndex/number', f.where(), 'group name %s gives %d instead of %d' % (nm or 'other text', v.c, want))
            rule.met('groupNameToIndex(%s)' % (nm or 'other text'), not rule.rep)
            drain(cx, rule)
    arrs = [x for x in rec.fields() if x.tag == 'member' and x.strip().tag == 'array_type']
    for x in arrs:
        n = x.strip().size
        if n < ng:
            cx.fail('C23/%s size' % x.name, gwhere, 'LogGroup::%s has %d entries for %d groups' % (x.name, n, ng))
        else:
            cx.ok('LogGroup::%s has an entry per group' % x.name)
    levels_of(cx, rec, arrs, body, fresh, bounds)
    init_of(cx, rec, arrs, ng, fresh, bounds)
    checks(cx, arrs, ng, fresh, bounds)


def levels_of(cx, rec, arrs, body, fresh, bounds):
    m = cx.m
    want = {'mDebugLevel': 'Log.Group.', 'mWatchLevel': 'Log.Watch.'}
    for f in m.find('LogGroup::setAll'):
        rule = SetRule('LogGroup::setAll', bounds)
        eng, st = fresh(rule)
        P = eng.atom('heap', ('groups',), 'this', 'p', 1); P.pt = rec
        rule.max_states = 4000
        hits = {}

        def acc(eng, st, i, kind, base, off, size, val, ctx, rule=rule):
            TabRule.on_access(rule, eng, st, i, kind, base, off, size, val, ctx)
            if base is P and kind == 'store':
                if isinstance(off, Lin):
                    return
                if off < 0 or off + size > rec.size:
                    rule.report(st, 'C23/setAll/outside', i.where(), 'LogGroup::setAll writes outside its tables (at %d)' % off); return
                for x in arrs:
                    if x.off <= off < x.off + x.strip().size:
                        v = st.res(eng.tolin(st, val))
                        hits.setdefault((x.name, off - x.off), []).append((v, st, i))
        rule.on_access = acc
        try:
            eng.run(f, st, [lin(P)])
        except Budget as e:
            cx.undecided(f.base, str(e)); continue
        for g in eng.inlined:
            cx.fn(m.funcs[g])
        for x in arrs:
            for v, n in body:
                hs = hits.get((x.name, v))
                if not hs:
                    rule.report(None, 'C23/setAll/%s' % x.name, f.where(), 'LogGroup::setAll never sets %s of group %s' % (x.name, n)); continue
                src = set()
                for val, s, i in hs:
                    for a in val.t:
                        k = rule.levels.get(a)
                        if k is None and a.kind == 'op':
                            for y in a.key[2:]:
                                if isinstance(y, Lin):
                                    for b in y.t:
                                        k = k or rule.levels.get(b)
                        if k is not None and k[0] == 'cfg':
                            src.add(k[1])
                for k in src:
                    parts = flat(k)
                    if parts is None:
                        cx.undecided(f.base, 'key of %s not followed: %s' % (x.name, k)); continue
                    w = want.get(x.name)
                    if parts.split('.')[-1] != n or (w is not None and parts != w + n):
                        rule.report(None, 'C23/setAll/source', f.where(), 'LogGroup::setAll sets %s of group %s from "%s"' % (x.name, n, parts))
                rule.met('setAll %s %s' % (x.name, n), not rule.rep)
        drain(cx, rule)


def flat(k):
    if k[0] == 'c':
        return k[1]
    if k[0] == 'cat':
        a, b = flat(k[1]), flat(k[2])
        return a + b if a is not None and b is not None else None
    return None


def init_of(cx, rec, arrs, ng, fresh, bounds):
    """the constructor sets every level of every group and nothing else"""
    m = cx.m
    for f in m.find('LogGroup::LogGroup'):
        if 'C2E' in f.name and len(m.find('LogGroup::LogGroup')) > 1:
            continue
        rule = TabRule(f.base, bounds)
        eng, st = fresh(rule)
        P = eng.atom('heap', ('groups',), 'this', 'p', 1); P.pt = rec

        def acc(eng, st, i, kind, base, off, size, val, ctx, rule=rule):
            TabRule.on_access(rule, eng, st, i, kind, base, off, size, val, ctx)
            if base is P and kind == 'store' and isinstance(off, int):
                if off < 0 or off + size > rec.size:
                    rule.report(st, 'C23/LogGroup/outside', i.where(), 'the LogGroup constructor writes outside its tables (byte %d of %d)' % (off, rec.size))
                else:
                    st.ts[('set', off)] = True
        rule.on_access = acc
        try:
            ex = eng.run(f, st, [lin(P)])
        except Budget as e:
            cx.undecided(f.base, str(e)); continue
        for g in eng.inlined:
            cx.fn(m.funcs[g])
        for e in ex:
            if e.kind != 'ret':
                continue
            for x in arrs:
                es = x.strip().elem().strip().size
                for k in range(ng):
                    if not e.st.ts.get(('set', x.off + k * es)) and eng._fillat(e.st, P, x.off + k * es, es) is None:
                        rule.report(e.st, 'C23/LogGroup/unset', f.where(), 'the LogGroup constructor leaves %s of group %d unset' % (x.name, k))
        rule.met('LogGroup sets every level', not rule.rep)
        drain(cx, rule)


def checks(cx, arrs, ng, fresh, bounds):
    """gCheckGroup...Level: the index is inside the table, or the assertion stops"""
    m = cx.m
    gg = gname(m, 'gLogGroup')
    if gg is None:
        raise core.Broken('gLogGroup not found')
    done = set()
    for f in m.repo_funcs():
        if f.base not in ('gCheckGroupLogLevel', 'gCheckGroupWatchLevel') or f.base in done:
            continue
        done.add(f.base)
        rule = TabRule(f.base, bounds)
        eng, st = fresh(rule)
        a = eng.params(f)
        tabs = [(x.off, x.off + x.strip().size, x.name) for x in arrs]
        G = eng.glob(gg)

        def acc(eng, st, i, kind, base, off, size, val, ctx, rule=rule):
            if base is not G:
                return
            o = off if isinstance(off, Lin) else const(off)
            mine = [x for x in tabs if x[0] <= o.c < x[1]] if o.t else tabs
            inside = any(st.prove_ge0(o - lo) and st.prove_ge0(const(hi) - o - size) for lo, hi, n in mine)
            k = 'C23/%s/index' % f.base
            if inside:
                rule.met(k)
            elif precise(o):
                rule.met(k, False)
                rule.report(st, k, i.where(), '%s reads outside the table of its groups' % f.base)
        rule.on_access = acc
        try:
            eng.run(f, st, a)
        except Budget as e:
            cx.undecided(f.base, str(e)); continue
        cx.fn(f)
        drain(cx, rule)
