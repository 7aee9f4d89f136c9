"""C16: SQL statements - prepared, stepped, read, finalised."""
from .common import *
from ..models import LOGGING

OK, ERR, BUSY, LOCKED, ROW, DONE = 0, 1, 5, 6, 100, 101
ANS = {OK: 'OK', ERR: 'ERROR', BUSY: 'BUSY', LOCKED: 'LOCKED', ROW: 'ROW', DONE: 'DONE'}
MAXROWS = 2
STMT = ('sqlite3_prepare_v2', 'sqlite3_prepare', 'sqlite3_prepare_v3', 'sqlite3_step', 'sqlite3_reset', 'sqlite3_finalize', 'sqlite3_column_text', 'sqlite3_column_bytes',
        'sqlite3_column_int', 'sqlite3_column_int64', 'sqlite3_column_double', 'sqlite3_column_blob', 'sqlite3_column_count', 'sqlite3_column_type', 'sqlite3_sql',
        'sqlite3_bind_text', 'sqlite3_bind_int', 'sqlite3_bind_int64', 'sqlite3_data_count', 'sqlite3_clear_bindings')
WRAP = ('sqlite3_prepare_statement', 'sqlite3_run_query')


class StmtRule(RuleBase):
    concrete = True
    explicit = True
    max_states = 60

    def __init__(self, name, entry, summaries=True):
        super().__init__(); self.name = name; self.entry = entry; self.summ = summaries

    retries = None

    def toomany(self, st, i):
        n = st.ts[('tries',)]
        if self.retries is not None and n > max(1, self.retries):
            self.report(st, self.k('many'), i.where(), '%s: attempt %d although %d are allowed' % (self.name, n, self.retries))
            return True
        return False

    def k(self, x):
        return 'C16/%s/%s' % (self.name, x)

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items() if k[0] in ('stmt', 'row', 'fin', 'text', 'gen', 'last', 'n', 'tries', 'rows', 'und', 'more'))

    def open_(self, st):
        return [k[1] for k in st.ts if k[0] == 'stmt' and not st.ts.get(('fin', k[1]))]

    def handle(self, eng, st, v):
        """statement atom, None for the null pointer, False if not followed"""
        v = st.res(eng.tolin(st, v))
        if not v.t:
            return None
        a = v.single()
        if a is not None and ('stmt', a) in st.ts:
            return a
        return False

    def use(self, eng, st, i, v, what, row=False):
        h = self.handle(eng, st, v)
        if h is False:
            a = st.res(eng.tolin(st, v)).single()
            if a is not None and a.kind == 'ld' and a.key[1].kind == 'alloca' or a is None or not precise_atom(a):
                st.ts[('und',)] = 'statement value not followed'
            return None
        if h is None:
            self.report(st, self.k('null'), i.where(), '%s: %s although no statement was prepared' % (self.name, what)); return None
        if st.ts.get(('fin', h)):
            self.report(st, self.k('after'), i.where(), '%s: %s after the statement was finalised' % (self.name, what)); return None
        if row and not st.ts.get(('row', h)):
            self.report(st, self.k('norow'), i.where(), '%s: %s although the last answer for the statement was not a row (%s)' % (self.name, what, ANS.get(st.ts.get(('last', h)), 'never stepped')))
        return h

    def prepared(self, eng, st, i, pp, n):
        s = eng.atom('heap', ('stmt', n), 'statement %d' % n, 'p', 1)
        b, o = eng.addr(st, pp)
        st.ts[('stmt', s)] = True; st.ts[('gen', s)] = 0; st.ts[('n',)] = n + 1
        eng.store(st, b, o, 8, lin(s))
        return s

    def answers(self, eng, st, i, h, opts):
        out = []
        rows = st.ts.get(('rows', h), 0)
        for a in opts:
            if a == ROW and rows >= MAXROWS:
                continue
            s = st.copy()
            s.ts[('gen', h)] = st.ts.get(('gen', h), 0) + 1
            s.ts[('last', h)] = a; s.ts[('lastany',)] = a
            s.ts[('row', h)] = a == ROW
            if a == ROW:
                s.ts[('rows', h)] = rows + 1
            s.note((i.where(), 'the statement answers %s' % ANS[a]))
            out.append((s, const(a)))
        return out

    def check_text(self, eng, st, i, v, what):
        b, o = split_ptr(st.res(v))
        t = st.ts.get(('text', b)) if b is not None else None
        if t is None:
            return
        h, g = t
        if st.ts.get(('fin', h)):
            self.report(st, self.k('text'), i.where(), '%s: text of a column is used (%s) after the statement was finalised' % (self.name, what))
        elif st.ts.get(('gen', h)) != g:
            self.report(st, self.k('text'), i.where(), '%s: text of a column is used (%s) after the statement moved on' % (self.name, what))

    def on_access(self, eng, st, i, kind, base, off, size, val, ctx):
        if base is not None and ('text', base) in st.ts:
            self.check_text(eng, st, i, lin(base), kind)

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if base is None:
            return None
        if not (fn is not None and fn.repo):
            for v in args:
                if isinstance(v, Lin):
                    self.check_text(eng, st, i, v, base)
        if base in ('sqlite3_prepare_v2', 'sqlite3_prepare', 'sqlite3_prepare_v3'):
            pp = args[4] if base.endswith('v3') else args[3]
            b, o = eng.addr(st, pp)
            out = []
            st.ts[('tries',)] = st.ts.get(('tries',), 0) + 1
            if self.toomany(st, i):
                return []
            for a in (OK, ERR, BUSY, LOCKED):
                s = st.copy()
                s.ts[('last',)] = a; s.ts[('lastany',)] = a
                s.note((i.where(), 'preparing the statement answers %s' % ANS[a]))
                if a == OK:
                    self.prepared(eng, s, i, pp, s.ts.get(('n',), 0))
                else:
                    eng.store(s, b, o, 8, ZERO)
                out.append((s, const(a)))
            return out
        if base == 'sqlite3_step':
            h = self.use(eng, st, i, args[0], 'the statement is stepped')
            st.ts[('tries',)] = st.ts.get(('tries',), 0) + 1
            if self.toomany(st, i):
                return []
            if h is None:
                return [(st, const(ERR))]
            return self.answers(eng, st, i, h, (ROW, DONE, ERR, BUSY, LOCKED))
        if base == 'sqlite3_reset':
            h = self.use(eng, st, i, args[0], 'the statement is reset')
            if h is not None:
                st.ts[('row', h)] = False; st.ts[('gen', h)] = st.ts.get(('gen', h), 0) + 1
            return [(st, eng.retval(i, fn))]
        if base == 'sqlite3_finalize':
            h = self.handle(eng, st, args[0])
            if h is False:
                self.use(eng, st, i, args[0], 'it is finalised')
            elif h is not None:
                if st.ts.get(('fin', h)):
                    self.report(st, self.k('twice'), i.where(), '%s: the statement is finalised twice' % self.name)
                st.ts[('fin', h)] = True
                st.note((i.where(), '%s is finalised' % h.name))
            return [(st, eng.retval(i, fn))]
        if base in STMT and base.startswith('sqlite3_column') and base != 'sqlite3_column_count':
            h = self.use(eng, st, i, args[0], 'a column is read (%s)' % base, row=True)
            if base in ('sqlite3_column_text', 'sqlite3_column_blob'):
                s2 = st.copy(); s2.note((i.where(), 'the column is NULL'))
                t = eng.atom('heap', ('ctext', i.id, ctx.path, st.ts.get(('gen', h)) if h is not None else None), 'column text', 'p', 1)
                if h is not None:
                    st.ts[('text', t)] = (h, st.ts.get(('gen', h)))
                return [(st, lin(t)), (s2, ZERO)]
            return [(st, eng.retval(i, fn))]
        if base in STMT:
            self.use(eng, st, i, args[0], base)
            return [(st, eng.retval(i, fn))]
        if self.summ and base == 'sqlite3_prepare_statement' and ctx.depth < 60:
            b, o = eng.addr(st, args[1])
            if b is None or isinstance(o, Lin):
                st.ts[('und',)] = 'statement variable not followed'
                return [(st, eng.retval(i, fn))]
            bad = st.copy(); bad.ts[('lastany',)] = ERR
            bad.note((i.where(), 'the statement cannot be prepared'))
            eng.store(bad, b, o, 8, ZERO)
            h = self.prepared(eng, st, i, args[1], st.ts.get(('n',), 0))
            st.ts[('lastany',)] = OK
            st.note((i.where(), 'the statement is prepared'))
            r = eng.fresh('error', 32); r.lo = 1; r.hi = 1000
            return [(st, ZERO), (bad, lin(r))]
        if self.summ and base == 'sqlite3_run_query':
            h = self.use(eng, st, i, args[1], 'the statement is run')
            if h is None:
                return [(st, const(ERR))]
            return self.answers(eng, st, i, h, (ROW, DONE, ERR, BUSY))
        if fn is not None and fn.repo and base in ('sqlite_format', 'format', 'Utils::format', 'HashString::computeHash'):
            sret = bool(fn.args and fn.args[0].get('sret'))
            if sret:
                b, o = eng.addr(st, args[0])
                if b is not None:
                    eng.havoc_obj(st, b)
                return [(st, ZERO)]
            return [(st, eng.retval(i, fn))]
        return None

    def inline(self, eng, fn, ctx):
        return True


def relevant(m):
    """functions that handle statements themselves"""
    wr = set(STMT) | set(WRAP)
    direct = {}
    for f in m.repo_funcs():
        s = set()
        for i in calls(f):
            c = i.d.get('callee')
            if c and c[0] == 'g' and c[1] in m.funcs:
                s.add(m.funcs[c[1]].base)
        direct[f.name] = s
    out = []
    for f in m.repo_funcs():
        if direct[f.name] & wr or any(b and b.startswith('sqlQuery::') for b in direct[f.name]):
            out.append(f)
    return out


def leftover(rule, eng, e, f, allowed=()):
    """statements still open at the end that nobody can finalise"""
    s = e.st
    for h in rule.open_(s):
        if h in allowed:
            continue
        rule.report(s, rule.k('open'), f.where(), '%s: a prepared statement is not finalised on this path' % rule.name)
    if e.val is not None and isinstance(e.val, Lin):
        rule.check_text(eng, s, e.inst if e.inst is not None else f.blocks[0].insts[0], e.val, 'returned')
    for (b, o), (sz, v) in s.mem.items():
        if b.kind in ('alloca',) or not isinstance(v, Lin):
            continue
        a = s.res(v).single()
        t = s.ts.get(('text', a)) if a is not None else None
        if t is not None and (s.ts.get(('fin', t[0])) or s.ts.get(('gen', t[0])) != t[1]):
            rule.report(s, rule.k('text'), f.where(), '%s: text of a column is kept although the statement has ended' % rule.name)


def wrappers(cx):
    """the two retrying functions, for small numbers of retries"""
    m = cx.m
    n = 0
    for base in WRAP:
        for f in m.find(base):
            for retries in (0, 1, 2, 3):
                rule = StmtRule(base, f, summaries=False)
                rule.retries = retries
                eng = Engine(m, rule, Models())
                st = State()
                a = eng.params(f, 'r%d ' % retries)
                a[-1] = const(retries)
                h = None; var = None
                if base == 'sqlite3_run_query':
                    h = eng.atom('heap', ('stmt', 'given'), 'the statement', 'p', 1)
                    st.ts[('stmt', h)] = True; st.ts[('gen', h)] = 0
                    a[1] = lin(h)
                else:
                    var = eng.atom('heap', ('var',), 'statement variable', 'p', 1)
                    a[1] = lin(var)
                try:
                    ex = eng.run(f, st, a)
                except Budget as x:
                    cx.undecided(base, str(x)); continue
                for g in eng.inlined:
                    cx.fn(m.funcs[g])
                for e in ex:
                    if e.kind != 'ret':
                        continue
                    s = e.st; n += 1
                    if s.ts.get(('und',)):
                        cx.undecided(base, s.ts[('und',)]); continue
                    last = s.ts.get(('last', h) if h is not None else ('last',))
                    tries = s.ts.get(('tries',), 0)
                    rc = s.res(eng.tolin(s, e.val))
                    if last in (BUSY, LOCKED) and tries < retries:
                        rule.report(s, rule.k('retry'), f.where(), '%s: a busy answer (%s) is not retried (attempt %d of %d)' % (base, ANS[last], tries, retries))
                    if last is not None and rc.t == {} and rc.c != last:
                        rule.report(s, rule.k('answer'), f.where(), '%s: answers %s after the database answered %s' % (base, ANS.get(rc.c, rc.c), ANS[last]))
                    if last is None and rc == ZERO or last is None and rc in (const(ROW), const(DONE)):
                        rule.report(s, rule.k('answer'), f.where(), '%s: answers %s without having asked the database' % (base, ANS.get(rc.c)))
                    if h is not None:
                        if s.ts.get(('fin', h)):
                            rule.report(s, rule.k('fin'), f.where(), '%s: finalises the statement of its caller' % base)
                    else:
                        cur = s.res(eng.tolin(s, eng.load(s, var, 0, 8, 'p'))).single()
                        good = rc == ZERO
                        live = rule.open_(s)
                        if good and (cur not in live):
                            rule.report(s, rule.k('handed'), f.where(), '%s: reports success without a usable statement' % base)
                        if good and len(live) > 1 or not good and live:
                            rule.report(s, rule.k('open'), f.where(), '%s: a prepared statement is not finalised on this path' % base)
                        if not good and cur is not None and s.ts.get(('fin', cur)) and False:
                            pass
                rule.met('%s with %d retries' % (base, retries), not rule.rep)
                drain(cx, rule)
    return n


def honest(cx):
    """C17: a statement that the database did not carry out is not reported as done"""
    from ..core import Check
    sub = Check('C16', cx.m, cx.units, cx.tier)
    summ = all(cx.m.find(b) for b in WRAP)
    if summ:
        wrappers(sub)
    for f in cx.m.find('sqlite_command'):
        command(sub, f, summ)
    for k, x in sub.findings.items():
        if k.endswith(('/answer', '/busy')):
            cx.fail(k.replace('C16/', 'C17/'), x['where'], x['message'] + '; a change that was not stored is reported as stored', x['path'])
    for f in sub.funcs:
        cx.fn(f)
    cx.oblig.append(('sqlite_command reports success only when the database answered so', not cx.findings))


def command(cx, f, summ):
    rule = StmtRule(f.base, f, summ)
    eng = Engine(cx.m, rule, Models())
    try:
        ex = eng.run(f, State(), None)
    except Budget as x:
        cx.undecided(f.base, str(x)); return
    truthful(rule, f, ex)
    for g in eng.inlined:
        cx.fn(cx.m.funcs[g])
    drain(cx, rule)


def truthful(rule, f, ex):
    for e in ex:
        last = e.st.ts.get(('lastany',))
        if e.kind == 'ret' and last in (ERR, BUSY, LOCKED) and e.val is not None:
            v = e.st.res(e.val) if isinstance(e.val, Lin) else e.val
            if v in (T, const(1)) or isinstance(v, tuple) and not isinstance(v, Lin) and e.st.decide(v) is True:
                rule.report(e.st, rule.k('busy'), f.where(), '%s returns true although the last answer of the database was %s' % (f.base, ANS[last]))


def c16(cx):
    m = cx.m
    cx.rule('Statement typestate on every path of every function that prepares, runs or reads a statement, with every answer of each database call: finalised exactly once, no use after finalising or after a failed prepare, columns read only after a row answer, '
            'column text not used after the statement moved on or ended; a function returning true has not last been told busy or error; the two retrying functions are checked for 0 to 3 retries: a busy answer is retried until the number is used up and the last answer is passed on.')
    if not m.find('sqlite3_run_query') and not relevant(m):
        raise core.Broken('no function handles SQL statements')
    summ = all(m.find(b) for b in WRAP)
    n = wrappers(cx) if summ else 0
    done = 0
    qcls = [t for t in m.types if t.is_record() and t.name == 'sqlQuery' and not t.d.get('fwd')]
    for f in relevant(m):
        if f.base in WRAP and summ:
            continue
        if f.base.startswith('sqlQuery::'):
            continue
        if not any(True for c in callers(m).get(f.name, ())) or is_public(m, f) or f.cls is None:
            pass
        rule = StmtRule(f.base, f, summ)
        eng = Engine(m, rule, Models())
        try:
            ex = eng.run(f, State(), None)
        except Budget as x:
            cx.undecided(f.base, str(x)); continue
        for g in eng.inlined:
            cx.fn(m.funcs[g])
        ret = m.type(f.d['ditypes'][0]) if f.d.get('ditypes') else None
        isbool = ret is not None and ret.strip() is not None and ret.strip().name == 'bool'
        for e in ex:
            if e.kind != 'ret':
                continue
            done += 1
            if e.st.ts.get(('und',)):
                cx.undecided(f.base, e.st.ts[('und',)]); continue
            given = handed(eng, e, f)
            leftover(rule, eng, e, f, given)
        if isbool:
            truthful(rule, f, [e for e in ex if not e.st.ts.get(('und',))])
        for w in ('finalised once on every path', 'columns are read only from rows', 'column text is used only while valid'):
            rule.met('%s %s: %s' % (f.base, f.dem[-60:], w), not rule.rep)
        drain(cx, rule)
    if qcls:
        done += query(cx, qcls[0], summ)
    cx.atleast('statement paths', done, 30)


def handed(eng, e, f):
    """statements handed to the caller through the result or a parameter"""
    r = set(); s = e.st
    if isinstance(e.val, Lin):
        a = s.res(e.val).single()
        if a is not None:
            r.add(a)
    for (b, o), (sz, v) in s.mem.items():
        if b.kind == 'param' and isinstance(v, Lin):
            a = s.res(v).single()
            if a is not None:
                r.add(a)
    return r


def query(cx, rec, summ):
    """objects of the query class: constructed, asked, destroyed"""
    m = cx.m
    fns = methods_of(m, ['sqlQuery'], ctors=True)
    ctors = [f for f in fns if is_ctor(f) and 'sqlQuery const&' not in f.dem and 'sqlQuery&&' not in f.dem]
    dtors = [f for f in fns if is_dtor(f)]
    pub = [f for f in fns if not is_ctor(f) and not is_dtor(f) and is_public(m, f) and not f.base.endswith('operator=')]
    if not ctors or not dtors:
        raise core.Broken('sqlQuery: constructors or destructor not found')
    n = 0
    for c in ctors:
        rule = StmtRule('sqlQuery', c, summ)
        eng = Engine(m, rule, Models())
        P = eng.atom('heap', ('query',), 'query object', 'p', 1); P.pt = rec
        def go(f, st, tag):
            a = eng.params(f, tag)
            k = 1 if f.args and f.args[0].get('sret') else 0
            a[k] = lin(P)
            return [e for e in eng.run(f, st, a) if e.kind == 'ret']
        try:
            level = [e.st for e in go(c, State(), 'c ')]
            allst = list(level)
            for step in (1, 2, 3):
                nxt = []
                for f in pub:
                    for s in level:
                        nxt += [e.st for e in go(f, s.copy(), 'm%d ' % step)]
                ded = {}
                for s in nxt:
                    ded.setdefault(rule.key(s), s)
                level = list(ded.values())
                allst += level
            for s in allst:
                for e in go(dtors[0], s, 'd '):
                    n += 1
                    if e.st.ts.get(('und',)):
                        cx.undecided('sqlQuery', e.st.ts[('und',)]); continue
                    leftover(rule, eng, e, dtors[0])
        except Budget as x:
            cx.undecided('sqlQuery', str(x)); continue
        for g in eng.inlined:
            cx.fn(m.funcs[g])
        for w in ('finalised once', 'columns are read only from rows'):
            rule.met('sqlQuery objects built by %s: %s' % (c.dem[-70:], w), not rule.rep)
        drain(cx, rule)
    return n
