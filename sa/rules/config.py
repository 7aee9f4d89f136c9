"""C17 changes visible to the next read; C18 queries change nothing."""
import re
from .common import *
from ..shapes import Shapes, sname
from .report import specs
from ..models import LOGGING

READS = re.compile(r'\s*(SELECT|PRAGMA|EXPLAIN)\b', re.I)


class CfgRule(LockRule):
    explicit = True
    concrete = True
    NAME = 'C17'

    def __init__(self, name):
        super().__init__()
        self.name = name
        self.sh = Shapes(on_insert=self.ins, on_erase=self.era)
        self.schema = None          # (object, offset)

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items() if k[0] in ('L', 'M', 'S', 'A', 'E', 'Q', 'B', 'DB', 'dbfail', 'W', 'num', 'und', 'chg', 'cmd'))

    def changed_by_others(self, eng, st):
        pass

    def ins(self, eng, st, i, b, o, key, nd, ctx):
        if (b, o) == self.schema:
            st.ts[('chg',)] = True
            self.report(st, '%s/%s/schema' % (self.NAME, self.name), i.where(), '%s adds a key to the schema' % self.name)

    def era(self, eng, st, i, b, o, key, nd, ctx):
        if (b, o) == self.schema:
            st.ts[('chg',)] = True
            self.report(st, '%s/%s/schema removes' % (self.NAME, self.name), i.where(), '%s removes a key from the schema' % self.name)

    # ---- the database: ('DB', key) -> text identity or ('absent',)
    def dbget(self, st, key):
        """[(state, value)]: value None when the row does not exist"""
        work = [(st, [k for k in st.ts if k[0] == 'DB'])]
        out = []
        while work:
            s, ks = work.pop()
            if not ks:
                s2 = s.copy()
                s.ts[('DB', key)] = ('dbval', key); s2.ts[('DB', key)] = ('absent',)
                s.note(('-', 'the database holds a value for %s' % sname(key))); s2.note(('-', 'the database holds no value for %s' % sname(key)))
                out.append((s, ('dbval', key))); out.append((s2, ('absent',)))
                continue
            for s2, e in self.sh.split(s, ks[0][1], key):
                if e:
                    out.append((s2, s2.ts[ks[0]]))
                else:
                    work.append((s2, ks[1:]))
        return out

    def dbset(self, st, key, v):
        out = []
        for s, old in self.dbget(st, key):
            for k in [k for k in s.ts if k[0] == 'DB' and self.sh.eq(s, k[1], key)]:
                s.ts[k] = v
            out.append(s)
        return out

    def sql(self, eng, st, text):
        """(kind, key, value) of a change of the configuration table"""
        q = st.ts.get(('Q', text[1])) if text[0] == 'f' else None
        if text[0] == 'c':
            return ('read',) if READS.match(text[1]) else None
        if q is None or q[0] is None:
            return None
        fmt, vals = q
        if READS.match(fmt):
            return ('read',)
        sp = specs(fmt)
        if len(sp) != len(vals) or not re.search(r'\bCONFIG\b', fmt, re.I):
            return None
        at = {p: k for k, (p, _) in enumerate(sp)}
        x = re.match(r'\s*(?:INSERT\s+OR\s+(?:REPLACE|IGNORE)|REPLACE)\s+INTO\s+"?CONFIG"?\s*\(([^)]*)\)\s*VALUES\s*\(', fmt, re.I)
        if x:
            cols = [c.strip().strip('"').upper() for c in x.group(1).split(',')]
            rest = fmt[x.end():]; p = x.end(); ops = []
            for part in re.split(r',', rest.rstrip().rstrip(';').rstrip(')')):
                ops.append((p, part)); p += len(part) + 1
            if len(ops) != len(cols):
                return None
            d = {}
            for c, (p, part) in zip(cols, ops):
                k = [n for pp, n in at.items() if p <= pp < p + len(part)]
                d[c] = vals[k[0]][1] if len(k) == 1 and re.match(r"\s*'?%[a-zA-Z]'?\s*$", part) else None
            if d.get('KEYSTRING') is None or 'VALUESTRING' in d and d['VALUESTRING'] is None or 'VALUESTRING' not in d:
                return None
            return ('new' if 'IGNORE' in x.group(0).upper() else 'set', d['KEYSTRING'], d['VALUESTRING'])
        x = re.match(r"\s*DELETE\s+FROM\s+\"?CONFIG\"?\s+WHERE\s+KEYSTRING\s*==?\s*'?(?=%)", fmt, re.I)
        if x and x.end() in at and len(sp) == 1:
            return ('del', vals[0][1])
        x = re.match(r"\s*UPDATE\s+\"?CONFIG\"?\s+SET\s+VALUESTRING\s*=\s*'?(?=%)", fmt, re.I)
        y = re.search(r"WHERE\s+KEYSTRING\s*==?\s*'?(?=%)", fmt, re.I)
        if x and y and x.end() in at and y.end() in at:
            return ('upd', vals[at[y.end()]][1], vals[at[x.end()]][1])
        return None

    def on_other(self, eng, st, i, fn, base, args, ctx):
        if fn is not None and fn.repo:
            if base == 'sqlite_format':
                sret = bool(fn.args and fn.args[0].get('sret'))
                a = args[1:] if sret else args
                fmt = self.sh.cptr(eng, st, a[0])
                rb, ro = eng.addr(st, args[0])
                vals = []
                for x in a[1:]:
                    v = st.res(eng.tolin(st, x)) if not isinstance(x, Tup) else None
                    vals.append((v, self.sh.cptr(eng, st, x) if v is not None else None))
                n = ('q', id(i), ctx.path, tuple(vals))
                eng.havoc_obj(st, rb)
                self.sh.sset(st, rb, ro, ('f', n))
                st.ts[('Q', n)] = (fmt[1] if fmt[0] == 'c' else None, tuple(vals))
                return [(st, ZERO)]
            if base == 'sqlite3_command':
                text = self.sh.cptr(eng, st, args[1])
                c = self.sql(eng, st, text)
                self.command(eng, st, i, c)
                bad = st.copy(); bad.note((i.where(), 'the database command fails'))
                st.note((i.where(), 'the database command succeeds'))
                if c is None:
                    st.ts[('und',)] = True
                    return [(st, T), (bad, F)]
                oks = [st]
                if c[0] == 'set':
                    oks = self.dbset(st, c[1], c[2])
                elif c[0] == 'del':
                    oks = self.dbset(st, c[1], ('absent',))
                elif c[0] in ('upd', 'new'):
                    oks = []
                    for s, v in self.dbget(st, c[1]):
                        if (v == ('absent',)) == (c[0] == 'upd'):
                            oks.append(s)
                        else:
                            oks += self.dbset(s, c[1], c[2])
                return [(s, T) for s in oks] + [(bad, F)]
            if base == 'sqlite3_single_lookup':
                return self.lookup(eng, st, i, fn, args)
            if base == 'ConfigurationTable::checkCacheAge' and ctx.depth:
                s2 = st.copy()
                b, o = eng.addr(st, args[0])
                for k in [k for k in st.ts if k[0] == 'M' and (k[1], k[2]) != self.schema and k[1] is b]:
                    self.sh.mset(s2, k[1], k[2], (), False)
                s2.note((i.where(), 'the cache is emptied because of its age'))
                return [(st, ZERO), (s2, ZERO)]
            if base == 'HashString::computeHash':
                return [(st, ZERO)]
            if base in ('Utils::timestr', 'format'):
                return cutcall(eng, st, i, fn, args)
        r = self.other2(eng, st, i, fn, base, args, ctx)
        if r is not None:
            return r
        return self.sh.call(eng, st, i, fn, base, args, ctx)

    def command(self, eng, st, i, c):
        pass

    def other2(self, eng, st, i, fn, base, args, ctx):
        if base in ('strtol', 'strtoll', 'strtof', 'strtod', 'strtoul', 'atol', 'atoi', '__isoc23_strtol', 'atof') or base in ('std::stol', 'std::stof', 'std::stoi', 'std::__cxx11::stol', 'std::__cxx11::stof', 'std::__cxx11::stoi'):
            v = self.sh.cptr(eng, st, args[0]) if not base.startswith('std::') else self.sh.sref(eng, st, args[0])
            r = eng.retval(i, fn)
            st.ts[('num', eng.tolin(st, r))] = v
            if len(args) > 1 and not base.startswith('std::'):
                b, o = eng.addr(st, args[1])
                if b is not None and not isinstance(o, Lin):
                    p = eng.fresh('end', 'p', kind='ret'); p.lo = 1
                    eng.store(st, b, o, 8, lin(p))
            return [(st, r)]
        if base in ('sprintf', 'snprintf'):
            a = args[2:] if base == 'snprintf' else args[1:]
            b, o = eng.addr(st, args[0])
            fmt = self.sh.cptr(eng, st, a[0])
            if b is not None and not isinstance(o, Lin):
                st.ts[('B', b, o)] = ('fmt', fmt, tuple(st.res(eng.tolin(st, x)) for x in a[1:]))
            return [(st, eng.retval(i, fn))]
        return None

    def lookup(self, eng, st, i, fn, args):
        cs = [self.sh.cptr(eng, st, a) for a in args[1:5]]
        ob, oo = eng.addr(st, args[5])
        if cs[0] != ('c', 'CONFIG') or cs[1] != ('c', 'KEYSTRING') or cs[3] != ('c', 'VALUESTRING') or ob is None or isinstance(oo, Lin):
            st.ts[('und',)] = True
            eng.havoc_obj(st, ob)
            return [(st, T), (st.copy(), F)]
        bad = st.copy()
        bad.ts[('dbfail',)] = True
        bad.note((i.where(), 'the database cannot be read'))
        eng.store(bad, ob, oo, 8, ZERO)
        out = [(bad, F)]
        for s, v in self.dbget(st, cs[2]):
            if v == ('absent',):
                eng.store(s, ob, oo, 8, ZERO)
                out.append((s, F))
            else:
                t = eng.fresh('text', 'p', kind='heap'); t.lo = 1
                s.ts[('B', t, 0)] = v
                eng.store(s, ob, oo, 8, lin(t))
                out.append((s, T))
        return out


class World:
    """a configuration table with one key A in the schema; the cache holds what `cached` says"""

    def __init__(self, cx, rule, cached=None, ingroup=True):
        m = cx.m
        self.cx = cx; self.rule = rule
        rec = cx.record('ConfigurationTable')[0]
        mem = [x for x in rec.fields() if x.tag == 'member']
        cache = [x for x in mem if x.strip().name.startswith('map<HashString')]
        schema = [x for x in mem if x.strip().name.startswith('map<std::__cxx11::basic_string') or x.strip().name.startswith('map<std::string')]
        db = [x for x in mem if x.strip().tag == 'pointer_type' and x.strip().pointee() is not None and 'sqlite3' in (x.strip().pointee().name or '')]
        key = cx.record('ConfigurationKey')[0]; crec = cx.record('ConfigurationRecord')[0]
        if len(cache) != 1 or len(schema) != 1 or len(db) != 1:
            raise core.Broken('ConfigurationTable: members not recognised')
        self.coff = cache[0].off; self.soff = schema[0].off; self.crec = crec; self.krec = key
        eng = self.eng = Engine(m, rule, Models())
        st = self.st = State()
        P = self.P = eng.atom('heap', ('table',), 'this', 'p', 1); P.pt = rec
        rule.schema = (P, self.soff)
        eng.store(st, P, db[0].off, 8, lin(eng.atom('heap', ('db',), 'db', 'p', 1)))
        sn = eng.atom('heap', ('schema', 'A'), 'schema entry A', 'p', 1)
        st.ts[('S', sn, 32)] = ('k', 'key A')
        for x in key.fields():
            if x.tag == 'member' and x.strip().name.startswith('basic_string'):
                st.ts[('S', sn, 64 + x.off)] = ('k', '%s of key A' % x.name)
        self.sn = sn
        rule.sh.mset(st, P, self.soff, [(('k', 'key A'), sn)], False)
        strs = [x for x in crec.fields() if x.tag == 'member' and x.strip().name.startswith('basic_string')]
        bools = [x for x in crec.fields() if x.tag == 'member' and x.strip().size == 1]
        self.ents = []
        for n, (k, v) in enumerate(cached or []):
            nd = eng.atom('heap', ('cached', n), 'cached entry %d' % n, 'p', 1)
            st.ts[('S', nd, 32)] = k
            for x in strs:
                st.ts[('S', nd, 72 + x.off)] = v
            for x in bools:
                eng.store(st, nd, 72 + x.off, 1, const(1 if 'efined' in x.name else 0))
            self.ents.append((k, nd))
        rule.sh.mset(st, P, self.coff, self.ents, False)
        self.n = 0

    def text(self, st, ident, name):
        b = self.eng.atom('heap', ('text', name), name, 'p', 1)
        st.ts[('S', b, 0)] = ident
        return lin(b)

    def call(self, f, st, args):
        """[exit]"""
        eng = self.eng
        a = eng.params(f, 'call%d ' % self.n)
        self.n += 1
        sret = f.args and f.args[0].get('sret')
        ar = ([a[0]] if sret else []) + [lin(self.P)] + args
        ex = eng.run(f, st, ar)
        for e in ex:
            e.ret = a[0] if sret else None
        for g in eng.inlined:
            self.cx.fn(self.cx.m.funcs[g])
        return ex

    def retstr(self, e):
        return self.rule.sh.sref(self.eng, e.st, e.ret)


def strform(cx, base, pick):
    r = [f for f in cx.need(base) if pick(f)]
    if not r:
        raise core.Broken('%s: expected form not found' % base)
    return r[0]


K = ('k', 'key A'); V = ('k', 'the new value'); OLD = ('k', 'the old value'); X = ('k', 'another key')


def c17(cx):
    m = cx.m
    cx.rule('Sequences of calls on a configuration table, database contents symbolic, every database command succeeding or failing, the cache possibly emptied because of its age at every lookup: '
            'get (optional), set(K,V), get(K): V after success; after a failure the answer false and never V from the cache. get (optional), remove(K), get(K): the default (or the not-found exception) after success, the answer false after failure. '
            'Entries of other keys stay as they are. Numbers are converted from the same text. purge and the age check leave no entry changed.')
    isstring = lambda f: 'basic_string' in f.dem.rsplit(',', 1)[-1] or f.dem.count('basic_string') > 1
    setf = strform(cx, 'ConfigurationTable::set', lambda f: len(f.args) == 3 and all(a['ty'] == 'ptr' for a in f.args))
    setn = [f for f in cx.need('ConfigurationTable::set') if len(f.args) == 3 and f.args[2]['ty'] == 'i64']
    rem = cx.one('ConfigurationTable::remove'); getf = cx.one('ConfigurationTable::getStr')
    n = 0
    for known in (True, False):
        key = ('k', 'key A') if known else ('k', 'key outside the schema')
        dflt = None
        for pre in ('nothing cached', 'cached value', 'other key cached', 'read before'):
            for op in ('set', 'remove'):
                rule = CfgRule(op)
                cached = []
                if pre == 'cached value':
                    cached = [(key, OLD)]
                if pre == 'other key cached':
                    cached = [(X, ('k', 'value of another key'))]
                w = World(cx, rule, cached)
                eng = w.eng; st = w.st
                if pre == 'cached value':
                    st.ts[('DB', key)] = OLD
                kt = w.text(st, key, 'key'); vt = w.text(st, V, 'value')
                cfg = '%s of a key %s the schema, %s' % (op, 'in' if known else 'outside', pre)
                try:
                    starts = [st]
                    if pre == 'read before':
                        starts = [e.st for e in w.call(getf, st, [kt]) if not e.st.ts.get(('dbfail',))]
                    mids = []
                    for s in starts:
                        mids += w.call(setf if op == 'set' else rem, s, [kt] + ([vt] if op == 'set' else []))
                    for e in mids:
                        if e.kind != 'ret':
                            continue
                        s = e.st
                        if s.ts.get(('und',)):
                            cx.undecided(cfg, 'the database command is not followed'); continue
                        r = s.res(eng.tolin(s, e.val))
                        dbv = [v for k, v in s.ts.items() if k[0] == 'DB' and k[1] == key]
                        done = bool(dbv) and dbv[0] == (V if op == 'set' else ('absent',))
                        oks = []
                        for s2, val in truth(s, e.val, eng):
                            if val is None:
                                cx.undecided(cfg, 'result not followed'); continue
                            failed = any('command fails' in str(x) for x in s2.path(2000))
                            if val and failed and not done:
                                rule.report(s2, 'C17/%s/success' % op, (setf if op == 'set' else rem).where(), '%s reports success although the database command failed' % cfg)
                            if not val and done and not failed:
                                rule.report(s2, 'C17/%s/failure' % op, (setf if op == 'set' else rem).where(), '%s reports failure although the database holds the change' % cfg)
                            if val and not done and not failed:
                                rule.report(s2, 'C17/%s/undone' % op, (setf if op == 'set' else rem).where(), '%s reports success although the database does not hold the change' % cfg)
                            # other keys
                            check_other(cx, rule, w, s2, cfg, op)
                            oks.append((s2, val))
                        for s2, val in oks:
                            for g in w.call(getf, s2.copy(), [kt]):
                                if g.st.ts.get(('dbfail',)) and val is False or g.st.ts.get(('und',)):
                                    pass
                                n += 1
                                got = w.retstr(g) if g.kind == 'ret' else ('not found',)
                                cur = [v for k, v in g.st.ts.items() if k[0] == 'DB' and k[1] == key]
                                want = cur[0] if cur else None
                                if got[0] not in ('k', 'c', 'dbval', 'not found'):
                                    cx.undecided(cfg, 'the value read is not followed'); continue
                                if want == ('absent',) or want is None:
                                    isdef = known and got[0] == 'k' and 'of key A' in got[1] and 'efault' in got[1]
                                    good = isdef if known else got == ('not found',)
                                    if known and got == ('not found',) or not known and got[0] == 'k' and got != V:
                                        good = False
                                else:
                                    good = got == want
                                if g.st.ts.get(('dbfail',)) and got not in (V, OLD):
                                    continue            # the database could not be read
                                if not good:
                                    what = 'success' if val else 'failure'
                                    rule.report(g.st, 'C17/%s/next read after %s' % (op, what), getf.where(), '%s reports %s; the next read gives %s instead of %s' % (
                                        cfg, what, 'the not-found exception' if got == ('not found',) else sname(got), 'the default' if want in (None, ('absent',)) and known else 'not found' if want in (None, ('absent',)) else sname(want)))
                except Budget as e:
                    cx.undecided(cfg, str(e))
                for x in ('result tells whether the database holds the change', 'next read agrees', 'other keys unchanged'):
                    rule.met('%s: %s' % (cfg, x), not rule.rep)
                drain(cx, rule)
    cx.atleast('reads after a change', n, 40)
    from .sqlstmt import honest
    honest(cx)
    # numbers
    for f in setn:
        rule = SetNum('set(number)')
        w = World(cx, rule)
        v = w.eng.atom('param', ('v',), 'value', 64, -(1 << 63), (1 << 63) - 1)
        kt = w.text(w.st, K, 'key')
        try:
            for e in w.call(f, w.st, [kt, lin(v)]):
                if e.kind != 'ret':
                    continue
                c = e.st.ts.get(('cmd',), ())
                if len(c) != 1:
                    rule.report(e.st, 'C17/set number/calls', f.where(), 'set(key, number) stores %d times' % len(c)); continue
                k, t = c[0]
                if k != K:
                    rule.report(e.st, 'C17/set number/key', f.where(), 'set(key, number) stores under another key')
                if t[0] == 'fmt' and t[1][0] == 'c':
                    if t[1][1] not in ('%ld', '%lld', '%li') or t[2][:1] != (lin(v),):
                        rule.report(e.st, 'C17/set number/text', f.where(), 'set(key, number) stores the text "%s" of %s' % (t[1][1], ', '.join(map(str, t[2]))))
                elif t[0] in ('c', 'k'):
                    rule.report(e.st, 'C17/set number/text', f.where(), 'set(key, number) does not store the number')
                else:
                    cx.undecided('set(number)', 'text not followed')
        except Budget as e:
            cx.undecided('set(number)', str(e))
        rule.met('set(key, number) stores the text of the number', not rule.rep)
        drain(cx, rule)
    for b in ('getNum', 'getFloat', 'getBool'):
        for f in m.find('ConfigurationTable::' + b):
            rule = CfgRule(b)
            w = World(cx, rule, [(K, OLD)])
            kt = w.text(w.st, K, 'key')
            w.st.ts[('DB', K)] = OLD
            try:
                for e in w.call(f, w.st, [kt]):
                    if e.kind != 'ret' or e.st.ts.get(('dbfail',)):
                        continue
                    nums = [(k[1], v) for k, v in e.st.ts.items() if k[0] == 'num']
                    for a, v in nums:
                        if v[0] in ('c', 'k', 'dbval') and v != OLD:
                            rule.report(e.st, 'C17/%s/text' % b, f.where(), '%s converts %s instead of the value' % (b, sname(v)))
            except Budget as e:
                cx.undecided(b, str(e))
            rule.met('%s converts the current text' % b, not rule.rep)
            drain(cx, rule)
    # emptying the cache
    for b in ('checkCacheAge', 'purge'):
        for f in m.find('ConfigurationTable::' + b):
            for cnt in (0, 1, 2):
                rule = CfgRule(b)
                w = World(cx, rule, [(('k', 'key %d' % k), ('k', 'value %d' % k)) for k in range(cnt)])
                try:
                    ex = w.call(f, w.st, [])
                except Budget as e:
                    cx.undecided(b, str(e)); continue
                kinds = set()
                for e in ex:
                    if e.kind != 'ret':
                        continue
                    mv = rule.sh.mget(e.st, w.P, w.coff)
                    if mv is None or mv[1]:
                        cx.undecided(b, 'cache not followed'); continue
                    kinds.add(len(mv[0]))
                    if b == 'purge' and mv[0]:
                        rule.report(e.st, 'C17/purge/keeps', f.where(), 'purge leaves %d of %d entries in the cache' % (len(mv[0]), cnt))
                    for k, nd in mv[0]:
                        v = rule.sh.sval(eng2(w), e.st, nd, 72 + valoff(w))
                        if v[0] in ('k', 'c') and v != ('k', 'value %s' % k[1][-1]):
                            rule.report(e.st, 'C17/%s/changes' % b, f.where(), '%s changes a cached value' % b)
                if b == 'checkCacheAge' and cnt and kinds and 0 not in kinds:
                    rule.report(None, 'C17/age/never', f.where(), 'the age check never empties the cache, so changes made by other programs are never seen')
                rule.met('%s, %d entries' % (b, cnt), not rule.rep)
                drain(cx, rule)


class SetNum(CfgRule):
    def on_other(self, eng, st, i, fn, base, args, ctx):
        if fn is not None and fn.repo and base == 'ConfigurationTable::set' and ctx.depth == 0 and fn.args[2]['ty'] == 'ptr':
            st.ts[('cmd',)] = st.ts.get(('cmd',), ()) + ((self.sh.sref(eng, st, args[1]), self.sh.sref(eng, st, args[2])),)
            return [(st, eng.retval(i, fn))]
        return super().on_other(eng, st, i, fn, base, args, ctx)


def eng2(w):
    return w.eng


def valoff(w):
    return [x.off for x in w.crec.fields() if x.tag == 'member' and x.strip().name.startswith('basic_string') and 'alue' in x.name][0]


def truth(st, val, eng):
    """[(state, True/False/None)] of a boolean result"""
    if isinstance(val, tuple):
        c = st.rescond(val)
    else:
        v = st.res(eng.tolin(st, val))
        if v.is_const():
            return [(st, bool(v.c))]
        c = st.rescond(ne0(v))
    d = st.decide(c)
    if d is not None:
        return [(st, d)]
    return [(st, None)]


def check_other(cx, rule, w, st, cfg, op):
    mv = rule.sh.mget(st, w.P, w.coff)
    if mv is None or mv[1]:
        return
    for k, nd in mv[0]:
        if k == X:
            v = rule.sh.sval(w.eng, st, nd, 72 + valoff(w))
            if v[0] in ('k', 'c', 'dbval') and v != ('k', 'value of another key'):
                rule.report(st, 'C17/%s/other' % op, '-', '%s changes the cached value of another key' % cfg)


# ---------------------------------------------------------------- C18
class QueryRule(CfgRule):
    NAME = 'C18'

    def command(self, eng, st, i, c):
        if c is None or c[0] != 'read':
            if c is not None:
                self.report(st, 'C18/%s/writes' % self.name, i.where(), '%s changes the stored configuration' % self.name)

    def inline(self, eng, fn, ctx):
        return True


QUERIES = {'defines': 'ret', 'keyDefinedInSchema': 'ret', 'isValidValue': 'ret', 'isStatic': 'ret', 'getStr': 'str', 'getNum': 'ret', 'getFloat': 'ret', 'getBool': 'ret', 'getSimilarKeys': 'map',
           'crossCheck': 'vec', 'getVector': 'vec', 'getVectorOfStrings': 'vec', 'find': 'void', 'getAllPairs': 'map', 'getDefaultSQL': 'str', 'getTeX': 'str', 'purge': 'void', 'checkCacheAge': 'void'}


def c18(cx):
    m = cx.m
    cx.rule('Every query of the configuration (existence, value in each form, validity, static, similar keys, cross check, listing) for a key in the schema and for an unknown key, database contents and outcome symbolic: '
            'no path adds or removes a schema entry or sends a changing statement to the database. Unknown keys: existence, validity and static answers are false, value reads end with the not-found exception; known keys: existence is true.')
    n = 0
    mutators = ('set', 'remove', 'setUpdateHook', 'setCrossCheckHook')
    rec = cx.record('ConfigurationTable')[0]
    for f in methods_of(m, ['ConfigurationTable']):
        b = f.base.split('::')[-1]
        if b in mutators:
            continue
        for known in (True, False):
            rule = QueryRule(b)
            key = K if known else ('k', 'unknown key')
            w = World(cx, rule)
            st = w.st
            eng = w.eng
            args = []
            a = eng.params(f, 'call%d ' % 0)
            sret = 1 if f.args and f.args[0].get('sret') else 0
            strs = 0
            for k, x in enumerate(f.args[sret + 1:]):
                ty = par(f, k)
                if ty and ty.startswith('std::__cxx11::basic_string'):
                    args.append(w.text(st, key if strs == 0 else ('k', 'text %d' % k), 'argument %d' % k)); strs += 1
                else:
                    args.append(a[sret + 1 + k])
            big = b in ('isValidValue', 'getDefaultSQL', 'getTeX', 'getVector', 'getVectorOfStrings', 'find', 'getAllPairs')
            if big:
                rule.explicit = rule.concrete = False
            if not strs and not known:
                continue
            try:
                st0 = st.copy()
                ex = w.call(f, st, args)
                if b in ('defines', 'getStr', 'getNum', 'getFloat', 'getBool', 'isStatic', 'keyDefinedInSchema') and not rule.rep:
                    # asked before
                    for e in w.call(cx.one('ConfigurationTable::defines'), st0, [w.text(st, key, 'argument 0')]):
                        if e.kind == 'ret' and not e.st.ts.get(('dbfail',)):
                            ex += w.call(f, e.st, args)
            except Budget as e:
                bad = body(m, f, w)
                if bad is None and rule.rep == {}:
                    cx.oblig.append(('%s changes the schema nowhere' % f.dem[:60], True)); cx.fn(f)
                    if not known and b in ('isValidValue',):
                        cx.undecided('%s of an unknown key' % b, str(e))
                else:
                    cx.undecided('%s of a key %s the schema' % (b, 'in' if known else 'outside'), str(e))
                drain(cx, rule); continue
            for e in ex:
                s = e.st
                if s.ts.get(('dbfail',)) or not strs:
                    continue
                n += 1
                db = [v for k, v in s.ts.items() if k[0] == 'DB' and k[1] == key]
                have = bool(db) and db[0] != ('absent',)
                what = '%s of %s key' % (b, 'a known' if known else 'an unknown')
                if b in ('keyDefinedInSchema', 'isValidValue', 'isStatic') and e.kind == 'ret':
                    for s2, v in truth(s, e.val, eng):
                        if not known and v:
                            rule.report(s2, 'C18/%s/unknown' % b, f.where(), '%s answers yes' % what)
                        if known and v is False and b == 'keyDefinedInSchema':
                            rule.report(s2, 'C18/%s/known' % b, f.where(), '%s answers no' % what)
                        if v is None and not known:
                            cx.undecided(what, 'answer not followed')
                elif b == 'defines':
                    if e.kind != 'ret':
                        rule.report(s, 'C18/defines/throws', f.where(), 'defines ends with an exception for %s key' % ('a known' if known else 'an unknown')); continue
                    for s2, v in truth(s, e.val, eng):
                        want = have or known
                        if v is not None and v != want:
                            rule.report(s2, 'C18/defines/%s' % want, f.where(), '%s the database %s a value for answers %s' % (what, 'holds' if have else 'does not hold', 'yes' if v else 'no'))
                elif b in ('getStr', 'getNum', 'getFloat', 'getBool', 'getVector', 'getVectorOfStrings') and not known:
                    if e.kind == 'ret' and db and not have:
                        rule.report(s, 'C18/%s/unknown' % b, f.where(), '%s returns a value instead of the not-found exception' % what)
            rule.met('%s, key %s the schema' % (f.dem[:60], 'in' if known else 'outside'), not rule.rep)
            drain(cx, rule)
    cx.atleast('query outcomes', n, 20)
    # similar keys: exactly those containing the snippet
    for f in m.find('ConfigurationTable::getSimilarKeys'):
        rule = Similar('getSimilarKeys')
        w = World(cx, rule)
        st = w.st
        n2 = w.eng.atom('heap', ('schema', 'B'), 'schema entry B', 'p', 1)
        st.ts[('S', n2, 32)] = ('k', 'key B')
        rule.sh.mset(st, w.P, w.soff, [(K, w.sn), (('k', 'key B'), n2)], False)
        try:
            for e in w.call(f, st, [w.text(st, ('k', 'snippet'), 'snippet')]):
                if e.kind != 'ret':
                    continue
                rb, ro = w.eng.addr(e.st, e.ret)
                mv = rule.sh.mget(e.st, rb, ro)
                hit = e.st.ts.get(('hit',), {})
                if mv is None or mv[1] or len(e.st.ts.get(('hit',), ())) != 2:
                    cx.undecided('getSimilarKeys', 'result not followed'); continue
                got = sorted(k[1] for k, nd in mv[0])
                want = sorted(k for k, h in e.st.ts[('hit',)] if h)
                if got != want:
                    rule.report(e.st, 'C18/getSimilarKeys/result', f.where(), 'getSimilarKeys returns %s where %s contain the text' % (got, want))
        except Budget as e:
            cx.undecided('getSimilarKeys', str(e))
        rule.met('getSimilarKeys returns exactly the keys containing the text', not rule.rep)
        drain(cx, rule)


def body(m, f, w):
    """a call in the function itself that may change the schema or the database (callees are analysed on their own), or None"""
    own = {x.name for x in methods_of(m, ['ConfigurationTable'])}
    seen = set(); work = [f]
    while work:
        g = work.pop()
        if g.name in seen:
            continue
        seen.add(g.name)
        for i in calls(g):
            c = i.d.get('callee')
            fn = m.funcs.get(c[1]) if c and c[0] == 'g' else None
            if fn is None:
                continue
            if fn.repo:
                if fn.base in ('sqlite3_command',):
                    return i
                if fn.name not in own and fn.blocks and fn.base not in LOGGING:
                    work.append(fn)
                continue
            if ('std::map<std::__cxx11::basic_string' in fn.dem and 'ConfigurationKey' in fn.dem and not fn.dem.endswith(' const')
                    and fn.base.split('::')[-1] not in ('find', 'begin', 'end', 'size', 'empty', 'count', 'lower_bound', 'upper_bound', 'at', 'map', '~map')):
                return i
    return None


class Similar(QueryRule):
    def key(self, st):
        return (super().key(st), st.ts.get(('hit',)))

    def other2(self, eng, st, i, fn, base, args, ctx):
        if base == 'std::__cxx11::basic_string::find':
            me = self.sh.sref(eng, st, args[0])
            if me[0] == 'k':
                s2 = st.copy()
                st.ts[('hit',)] = st.ts.get(('hit',), ()) + ((me[1], True),)
                s2.ts[('hit',)] = s2.ts.get(('hit',), ()) + ((me[1], False),)
                p = eng.fresh('position', 64, kind='ret'); p.lo = 0; p.hi = 1 << 30
                return [(st, lin(p)), (s2, const(-1))]
        return super().other2(eng, st, i, fn, base, args, ctx)


def par(f, k):
    from ..shapes import par as p
    ps = p(f)
    return ps[k] if k < len(ps) else ''
