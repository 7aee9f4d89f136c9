"""C30: report counters.  commit() is analysed on a batch of two counters with arbitrary counts; whenever the batch lock is taken
other threads have added arbitrary amounts.  Counts in the batch plus counts written to the database must stay what was counted."""
import re
from .common import *
from ..shapes import Shapes, sname

SPEC = re.compile(r'%%|%[-+ #0]*[\d*]*(?:\.[\d*]+)?(?:hh|h|ll|l|z|j|t|L)?[a-zA-Z]')
ADD = re.compile(r'\bVALUE\s*=\s*(?:REPORTING\.)?VALUE\s*\+\s*(?=%)', re.I)
SET = re.compile(r'\bSET\s+VALUE\s*=\s*(?=%)', re.I)
NAME = re.compile(r"\bNAME\s*=\s*'?(?=%)", re.I)


def specs(fmt):
    """[(position, conversion)] of the conversions that take an argument"""
    return [(x.start(), x.group()) for x in SPEC.finditer(fmt) if x.group() != '%%']


class RepRule(LockRule):
    explicit = True
    concrete = True

    def __init__(self, name, batch, keys):
        super().__init__()
        self.name = name; self.batch = batch; self.keys = keys; self.sh = Shapes(); self.und = set()

    def changed_by_others(self, eng, st):
        mv = self.sh.mget(st, *self.batch)
        if mv is None:
            return
        for key, nd in mv[0]:
            v = eng.tolin(st, eng.load(st, nd, 64, 4, 32))
            d = eng.fresh('added', 32); d.lo = 0; d.hi = 1 << 16
            eng.store(st, nd, 64, 4, st.res(v) + lin(d))
            st.ts[('D', key)] = st.ts.get(('D', key), ZERO) + lin(d)

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items() if k[0] in ('L', 'W', 'D', 'M', 'S', 'A', 'E', 'Q', 'B', 'calls'))

    def on_other(self, eng, st, i, fn, base, args, ctx):
        if fn is not None and fn.repo and base == 'sqlite_format':
            sret = bool(fn.args and fn.args[0].get('sret'))
            a = args[1:] if sret else args
            fmt = self.sh.cptr(eng, st, a[0])
            rb, ro = eng.addr(st, args[0])
            vals = []
            for x in a[1:]:
                v = st.res(eng.tolin(st, x)) if not isinstance(x, Tup) else None
                vals.append((v, self.sh.cptr(eng, st, x) if v is not None else None))
            n = ('q', id(i), ctx.path, tuple(vals))
            eng.havoc_obj(st, rb)
            self.sh.sset(st, rb, ro, ('f', n))
            st.ts[('Q', n)] = (fmt[1] if fmt[0] == 'c' else None, tuple(vals))
            return [(st, ZERO)]
        if base in ('sqlite_command', 'sqlite3_command'):
            return self.command(eng, st, i, args)
        r = self.sh.call(eng, st, i, fn, base, args, ctx)
        if r is not None:
            return r
        if base in ('sprintf', 'snprintf'):
            a = args[2:] if base == 'snprintf' else args[1:]
            b, o = eng.addr(st, args[0])
            fmt = self.sh.cptr(eng, st, a[0])
            if b is not None and not isinstance(o, Lin):
                st.ts[('B', b, o)] = ('fmt', fmt, tuple(st.res(eng.tolin(st, x)) for x in a[1:]))
            r = eng.fresh('len', 32); r.lo = 0; r.hi = 5000
            return [(st, lin(r))]
        return None

    def command(self, eng, st, i, args):
        sv = self.sh.cptr(eng, st, args[1])
        q = st.ts.get(('Q', sv[1])) if sv[0] == 'f' else None
        ok = st; bad = st.copy()
        ok.note((i.where(), 'the database command succeeds')); bad.note((i.where(), 'the database command fails'))
        kind = None
        if q is not None and q[0] is not None:
            fmt, vals = q
            sp = specs(fmt)
            a = ADD.search(fmt); n = NAME.search(fmt); s = SET.search(fmt)
            pos = {p: k for k, (p, _) in enumerate(sp)}
            if (a or s) and n and (a or s).end() in pos and n.end() in pos and len(sp) == len(vals):
                amount = vals[pos[(a or s).end()]][0]; key = vals[pos[n.end()]][1]
                if a:
                    kind = 'add'
                    st.ts[('W', key)] = st.ts.get(('W', key), ZERO) + amount
                elif 'MAX(' not in fmt.upper():
                    kind = 'set'
                    self.report(st, 'C30/%s/set' % self.name, i.where(), '%s overwrites the stored count of a counter instead of adding to it' % self.name)
        if kind is None:
            ok.ts[('W?',)] = True; bad.ts[('W?',)] = True
        return [(ok, T), (bad, F)]


def batch_of(cx):
    rt = cx.record('ReportingTable')[0]
    maps = [f for f in rt.fields() if f.tag == 'member' and f.strip().name.startswith('map<')]
    if len(maps) != 1:
        raise core.Broken('ReportingTable: batch member not recognised')
    return rt, maps[0].off


def mk(cx, eng, rule, n):
    rt, off = batch_of(cx)
    P = eng.atom('heap', ('table',), 'this', 'p', 1); P.pt = rt
    st = State()
    ents = []; vals = {}
    for k in range(n):
        key = ('k', 'counter %s' % 'ABC'[k])
        nd = eng.atom('heap', ('node', k), 'entry %s' % 'ABC'[k], 'p', 1)
        c = eng.atom('param', ('count', k), 'count %s' % 'ABC'[k], 32, 0, 1 << 20)
        eng.store(st, nd, 64, 4, lin(c))
        st.ts[('S', nd, 32)] = key
        ents.append((key, nd)); vals[key] = lin(c)
    rule.batch = (P, off)
    rule.sh.mset(st, P, off, ents, False)
    return st, P, off, vals


def values(eng, s, rule):
    mv = rule.sh.mget(s, *rule.batch)
    if mv is None or mv[1]:
        return None
    return {k: s.res(eng.tolin(s, eng.load(s, nd, 64, 4, 32))) for k, nd in mv[0]}


def c30(cx):
    m = cx.m
    cx.rule('ReportingTable::commit on a batch of 0 to 2 counters with arbitrary counts, other threads adding at every unlocked moment, every database command succeeding or failing: on every path, count left in the batch + '
            'count added in the database = count before + count added meanwhile, per counter. incr adds exactly one to the named counter and no other; create never changes an existing count; indexed forms use the name base.index.')
    n = 0
    names = lambda b, k: [f for f in m.find('ReportingTable::' + b) if len(f.args) == k]
    for f in cx.need('ReportingTable::commit'):
        for cnt in (0, 1, 2):
            rule = RepRule(f.base, None, None)
            eng = Engine(m, rule, Models())
            st, P, off, vals = mk(cx, eng, rule, cnt)
            try:
                ex = eng.run(f, st, [lin(P)])
            except Budget as e:
                cx.undecided('%s with %d counters' % (f.base, cnt), str(e)); continue
            for g in eng.inlined:
                cx.fn(m.funcs[g])
            for e in ex:
                if e.kind != 'ret':
                    continue
                now = values(eng, e.st, rule)
                odd = [k for k in e.st.ts if k[0] == 'W' and len(k) > 1 and k[1] not in vals] or [k for k in (now or {}) if k not in vals]
                if now is None or odd or e.st.ts.get(('W?',)):
                    cx.undecided('%s with %d counters' % (f.base, cnt), 'a database command or the batch is not followed'); continue
                for key, c in vals.items():
                    have = now.get(key, ZERO) + e.st.ts.get(('W', key), ZERO)
                    want = c + e.st.ts.get(('D', key), ZERO)
                    d = e.st.res(have - want)
                    n += 1
                    if d == ZERO:
                        continue
                    if not all(precise_atom(a) or a.name.startswith('added') for a in d.t):
                        cx.undecided('%s %s' % (f.base, key[1]), 'count not followed: %s' % d); continue
                    if e.st.prove_eq0(d):
                        continue
                    lost = e.st.prove_ge0(-d)
                    rule.report(e.st, 'C30/%s/%s' % (f.base, 'lost' if lost else 'twice'), f.where(),
                                '%s: a counter ends with %s in the batch and %s written instead of %s in total' % (f.base, now.get(key, ZERO), e.st.ts.get(('W', key), ZERO), want))
            for w in ('none lost', 'none counted twice'):
                rule.met('%s, %d counters: %s' % (f.base, cnt, w), not rule.rep)
            drain(cx, rule)
    cx.atleast('commit outcomes', n, 6)
    # incr / create with a name
    for b, k in (('incr', 2), ('create', 2)):
        fns = names(b, k)
        if not fns:
            raise core.Broken('ReportingTable::%s(name) not found' % b)
        for f in fns:
            rule = RepRule(f.base, None, None)
            eng = Engine(m, rule, Models())
            st, P, off, vals = mk(cx, eng, rule, 2)
            a = eng.params(f)
            pkey = ('p', eng.tolin(st, a[1]))
            try:
                ex = eng.run(f, st, [lin(P), a[1]])
            except Budget as e:
                cx.undecided(f.base, str(e)); continue
            for g in eng.inlined:
                cx.fn(m.funcs[g])
            for e in ex:
                if e.kind != 'ret':
                    continue
                now = values(eng, e.st, rule)
                if now is None:
                    cx.undecided(f.base, 'batch not followed'); continue
                hit = False
                for key, v in list(now.items()):
                    same = rule.sh.eq(e.st, key, pkey)
                    hit = hit or bool(same)
                    before = vals.get(key, ZERO) + e.st.ts.get(('D', key), ZERO)
                    d = e.st.res(v - before)
                    want = const(1) if b == 'incr' and same else ZERO
                    if same is None and key not in vals:
                        rule.report(e.st, 'C30/%s/other' % f.base, f.where(), '%s creates an entry for a different name' % f.base); continue
                    if d != want:
                        if not all(precise_atom(x) or x.name.startswith('added') for x in d.t):
                            cx.undecided(f.base, 'count not followed'); continue
                        rule.report(e.st, 'C30/%s/by' % f.base, f.where(), '%s changes the count of %s counter by %s instead of %s' % (f.base, 'the' if same else 'another', d, want))
                for key in vals:
                    if key not in now:
                        rule.report(e.st, 'C30/%s/gone' % f.base, f.where(), '%s removes a counter that may hold counts' % f.base)
                if b == 'incr' and not hit:
                    rule.report(e.st, 'C30/%s/none' % f.base, f.where(), '%s returns without counting' % f.base)
            rule.met('%s changes only the named counter, by the right amount' % f.base, not rule.rep)
            drain(cx, rule)
    # indexed forms
    for b, k in (('incr', 3), ('max', 4), ('clear', 3), ('create', 4)):
        for f in names(b, k):
            indexed(cx, f, b)
    # the committing thread commits in its loop
    for f in cx.need('reportingBatchCommitter'):
        sites = [i for i in calls(f) if i.d.get('callee') and i.d['callee'][0] == 'g' and m.funcs.get(i.d['callee'][1]) is not None and m.funcs[i.d['callee'][1]].base == 'ReportingTable::commit']
        direct = bool(sites) or f.name in reaches(m, {'ReportingTable::commit'})
        cx.obligation('C30/the batch thread commits', direct, f.where(), 'the batch thread never commits')
        cx.fn(f)


class IdxRule(RepRule):
    def __init__(self, name, b):
        super().__init__(name, (None, 0), ()); self.b = b

    def on_other(self, eng, st, i, fn, base, args, ctx):
        if fn is not None and fn.repo and base == 'ReportingTable::' + self.b and ctx.depth == 0 and len(args) < len(ctx.fn.args):
            st.ts[('calls',)] = st.ts.get(('calls',), ()) + (self.sh.cptr(eng, st, args[1]),) + tuple(st.res(eng.tolin(st, x)) for x in args[2:])
            return [(st, eng.retval(i, fn))]
        return super().on_other(eng, st, i, fn, base, args, ctx)


def indexed(cx, f, b):
    m = cx.m
    rule = IdxRule(f.base, b)
    if b == 'create':
        return
    eng = Engine(m, rule, Models())
    a = eng.params(f)
    try:
        ex = eng.run(f, State(), a)
    except Budget as e:
        cx.undecided(f.dem, str(e)); return
    for g in eng.inlined:
        cx.fn(m.funcs[g])
    for e in ex:
        if e.kind != 'ret':
            continue
        c = e.st.ts.get(('calls',), ())
        nm = '%s(base, index)' % f.base
        if not c:
            rule.report(e.st, 'C30/%s/indexed' % f.base, f.where(), '%s does nothing' % nm); continue
        ident = c[0]
        base = eng.tolin(e.st, a[1]); idx = eng.tolin(e.st, a[2])
        if ident[0] != 'fmt' or ident[1][0] != 'c':
            cx.undecided(f.dem, 'name not followed'); continue
        if ident[1][1] not in ('%s.%u', '%s.%d', '%s.%lu') or len(ident[2]) < 2 or ident[2][0] != base or not (ident[2][1] == idx):
            rule.report(e.st, 'C30/%s/name' % f.base, f.where(), '%s does not use the counter named base.index' % nm)
        if len(c) > (2 if b == 'max' else 1):
            rule.report(e.st, 'C30/%s/repeat' % f.base, f.where(), '%s acts more than once' % nm)
    rule.met('%s(base, index) acts once on base.index' % f.base, not rule.rep)
    drain(cx, rule)
