"""C20: caller data in SQL text."""
import re
from .common import *
from ..shapes import Shapes, par, isstr, iscstr

SPEC = re.compile(r"%%|%[-+ #0!,]*(\*|\d+)?(\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([a-zA-Z])")
KEYWORD = re.compile(r'\b(INSERT|REPLACE|UPDATE|DELETE|SELECT)\b')
STMTTEXT = re.compile(r'\b(INSERT\b[\w ]*\bINTO|REPLACE\s+INTO|UPDATE\s+\w+\s+SET|DELETE\s+FROM|SELECT\b.*(\bFROM\b|~))\b')
VALUEPOS = re.compile(r"(==?|<>|!=|<|>|\bLIKE|\bVALUES\s*\(|\bVALUES\s*\([^()]*,|\bSET\s+\w+\s*=)\s*[\"`]?$", re.I)
NUM = set('diuxXofFeEgGpc')
PRINTERS = {'sprintf': (0, None, 1), 'snprintf': (0, 1, 2), 'sqlite3_snprintf': (1, 0, 2)}
MALLOCP = ('sqlite3_mprintf',)


def cutter(eng, sh, st, i, fn, base, args):
    """an operation that keeps at most a fixed number of bytes of a text: (where the text goes, text, bytes), or None"""
    if base == 'strnlen':
        return None
    bs = base.replace('__cxx11::', '')
    if not bs.startswith('std::basic_string::'):
        return None
    m = bs.split('::')[-1]
    ps = par(fn)
    sret = bool(fn.args and fn.args[0].get('sret'))

    def most(x):
        v = st.res(eng.tolin(st, x))
        if not v.t:
            return v.c if 0 <= v.c < (1 << 20) else None
        a = v.single()
        return a.hi if a is not None and a.kind in ('op', 'ret') and a.hi is not None and a.hi < (1 << 20) else None
    if m in ('basic_string', 'assign') and len(ps) >= 2 and iscstr(ps[0]) and ps[1] in ('unsigned long', 'size_t'):
        n = most(args[2]); t = sh.cptr(eng, st, args[1]); dst = args[0]
    elif m == 'substr' and sret:
        n = most(args[3]); t = sh.sref(eng, st, args[1]); dst = args[0]
    elif m in ('resize', 'erase') and len(args) >= 2 and ps[:1] in (['unsigned long'], ['size_t']):
        if m == 'erase' and (len(args) < 3 or st.res(eng.tolin(st, args[2])) not in (const(-1), const((1 << 64) - 1))):
            return None
        n = most(args[1]); t = sh.sref(eng, st, args[0]); dst = args[0]
    else:
        return None
    if n is None or t[0] == 'c':
        return None
    return dst, t, n


def strnlen(eng, i, fn, st, args):
    v = st.res(eng.tolin(st, args[1]))
    a = eng.fresh('length', 64, kind='op'); a.lo = 0
    if not v.t:
        a.hi = v.c
    return [(st, lin(a))]


class Eval:
    """problems of a text that is used as SQL"""

    def __init__(self, rule, st):
        self.rule = rule; self.st = st; self.bad = []; self.inq = False; self.com = False; self.txt = ''; self.unk = []; self.ident = []; self.cut = False

    def lit(self, s):
        for c in s:
            if self.com:
                self.com = c != '\n'
                continue
            if c == "'":
                self.inq = not self.inq
            self.txt += c
            if not self.inq and self.txt.endswith('--'):
                self.com = True
                self.txt = self.txt[:-2]

    def raw(self, t, how):
        if self.com:
            return
        origin = self.rule.origin(self.st, t)
        if origin is None:
            self.unk.append(how); self.lit('X'); return
        if self.inq:
            self.bad.append(('quoted', '%s stands between quotes without being escaped' % origin))
        elif not self.txt.strip():
            self.rule.through = True                # the whole statement comes from the caller
        elif VALUEPOS.search(self.txt) or not self.rule.util and not (t[0] == 's' and t[1].kind == 'gen'):
            self.bad.append(('raw', '%s becomes SQL text without quotes and escaping' % origin))
        else:
            self.ident.append(origin)
        self.lit('X')

    def text(self, t, depth=0):
        if depth > 12:
            self.unk.append('nesting'); return
        if t[0] == 'c':
            self.lit(t[1]); return
        if t[0] == 'null':
            return
        if t[0] == 'cat':
            self.text(t[1], depth + 1); self.text(t[2], depth + 1); return
        if t[0] == 'cutto':
            self.text(t[1], depth + 1)
            if t[1][0] != 'c' and KEYWORD.search(self.txt) and not self.com:
                self.bad.append(('cut', 'the text is cut off after %s bytes when the data is longer' % t[2]))
            return
        if t[0] == 'stream':
            if not t[1]:
                self.txt += 'X'; return
            self.unk.append('stream'); return
        q = None
        if t[0] == 'f':
            q = self.st.ts.get(('Q', t[1]))
        elif t[0] == 'fmt':
            q = t[1:]
        if q is not None:
            self.fmt(q, depth); return
        self.raw(t, 'text not followed')

    def fmt(self, q, depth):
        kind, fmt, vals, limit = q
        if fmt is None:
            self.unk.append('format not constant'); return
        pos = 0; k = 0; strings = False
        for x in SPEC.finditer(fmt):
            self.lit(fmt[pos:x.start()].replace('%%', '%')); pos = x.end()
            if x.group() == '%%':
                self.txt += '%'; continue
            if x.group(1) == '*':
                k += 1
            if x.group(3) == '*':
                k += 1
            v = vals[k] if k < len(vals) else None
            k += 1
            c = x.group(5)
            if c in 'qQwsz':
                if v is None:
                    self.unk.append('argument'); continue
                src = v[1]
                const_ = src is not None and src[0] == 'c'
                if x.group(2) and not const_:
                    self.bad.append(('cut', 'a precision (%s) cuts off the text' % x.group()))
                if not const_:
                    strings = True
                if kind != 'sqlite' and c != 's':
                    self.unk.append('conversion %s' % x.group()); continue
                if c == 'q':
                    if not self.inq:
                        if const_:
                            self.lit('X'); continue
                        self.bad.append(('unquoted', 'a value escaped with %%q is not between quotes (after "%s")' % self.txt[-30:]))
                    self.txt += 'X'
                elif c == 'Q':
                    if self.inq:
                        self.bad.append(('doubly', '%Q stands between quotes, its own quotes end the literal'))
                    self.txt += 'X'
                elif c == 'w':
                    if self.inq and not const_:
                        self.bad.append(('quoted', '%w doubles only double quotes: the value between single quotes is not escaped'))
                    elif not const_ and VALUEPOS.search(self.txt):
                        self.bad.append(('raw', 'a value stands between double quotes (a name of a column for SQL)' if self.txt.endswith('"') else 'a value escaped with %w stands without quotes'))
                    self.txt += 'X'
                elif src is None:
                    self.unk.append('argument')
                else:
                    self.text(src, depth + 1)
            else:
                self.txt += '0'
        self.lit(fmt[pos:])
        if limit is not None and strings:
            self.bad.append(('cut', 'the text is formatted into %s bytes and cut off when the data is longer' % limit))


class TextRule(RuleBase):
    max_states = 12

    def __init__(self, name, fn, util, keep, memo):
        super().__init__(); self.name = name; self.fn = fn; self.util = util; self.sh = Shapes(); self.sinks = 0; self.und = set(); self.through = False; self.keep = keep; self.memo = memo

    def key(self, st):
        r = set()
        for k, v in st.ts.items():
            if k[0] == 'OS':
                r.add((k, v))
            elif k[0] in ('S', 'B') and k[1].kind in ('alloca', 'heap'):
                n = self.norm(st, v)
                if n is not None:
                    r.add((k, n))
        return frozenset(r)

    def norm(self, st, t, depth=0):
        """what of a text matters for telling states apart: statement texts only"""
        p = self.parts(st, t, depth)
        if not any(KEYWORD.search(x) or "'" in x for x in p):
            return ('!',) if '!' in p else None
        return p if len(p) < 12 else ('long',)

    def parts(self, st, t, depth=0):
        if depth > 8:
            return ('?',)
        if t[0] == 'c':
            return (t[1],)
        if t[0] == 'cat':
            return self.parts(st, t[1], depth + 1) + self.parts(st, t[2], depth + 1)
        if t[0] == 'cutto':
            return ('cutto', str(t[2])) + self.parts(st, t[1], depth + 1)
        if t[0] == 'stream':
            return ('stream', str(t[1:]))
        q = st.ts.get(('Q', t[1])) if t[0] == 'f' else t[1:] if t[0] == 'fmt' else None
        if q is not None:
            r = ('fmt', q[0], q[1] or '', str(q[3]))
            for v in q[2]:
                r += self.parts(st, v[1], depth + 1) if v[1] is not None else ('num',)
            return r
        return ('?' if self.origin(st, t) is None else '!',)

    def relevant(self, eng, fn):
        r = self.memo.get(fn.name)
        if r is None:
            if fn.name in self.keep:
                r = True
            elif fn.name in self.memo['entries']:
                r = False
            else:
                ts = par(fn)
                r = len(fn.blocks) <= 25 and (any(isstr(x) or iscstr(x) or 'stream' in x for x in ts) or fn.args and fn.args[0].get('sret'))
            self.memo[fn.name] = r
        return r

    def origin(self, st, t):
        """what raw text this is, when that is known"""
        if t[0] == 's':
            b = t[1]
            if b.kind in ('param', 'obj', 'ld', 'op') or b.kind == 'ret':
                return 'the text of %s' % b.name
            if b.kind == 'g':
                return 'the text of %s' % b.name
            if b.kind == 'gen':
                return 'the text of an element'
            return None
        if t[0] == 'p' and isinstance(t[1], Lin):
            b, o = split_ptr(t[1])
            if b is not None and b.kind in ('param', 'ld', 'op') and precise_atom(b):
                return 'the text of %s' % b.name
        return None

    def newq(self, st, i, ctx, q):
        n = ('q', i.id, ctx.path, q)
        st.ts[('Q', n)] = q
        return ('f', n)

    def vals(self, eng, st, args):
        r = []
        for x in args:
            v = st.res(eng.tolin(st, x)) if not isinstance(x, Tup) else None
            r.append((None, self.sh.cptr(eng, st, x) if v is not None else None))
        return tuple(r)

    def sink(self, eng, st, i, arg, what, n=None, ctx=None):
        t = self.sh.cptr(eng, st, arg)
        self.sinks += 1
        ev = Eval(self, st); ev.text(t)
        self.met('%s: text passed to %s' % (self.name, what), not ev.bad)
        for kind, msg in ev.bad:
            self.report(st, 'C20/%s/%s' % (self.name, kind), i.where(), '%s: %s' % (self.name, msg))
        if ev.unk and not ev.bad:
            self.und.add('%s (%s)' % (what, ', '.join(sorted(set(ev.unk)))))
        if n is not None:
            v = st.res(eng.tolin(st, n))
            a = v.single()
            hi = v.c if not v.t else a.hi if a is not None and a.kind == 'op' else None
            if hi is not None and 0 <= hi < (1 << 20) and (t[0] != 'c' or hi < len(t[1])):
                self.report(st, 'C20/%s/cut' % self.name, i.where(), '%s: at most the first %d bytes of the statement are used' % (self.name, hi))

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if base is None:
            return None
        if base == 'strnlen':
            return strnlen(eng, i, fn, st, args)
        cut = cutter(eng, self.sh, st, i, fn, base, args) if fn is not None else None
        if cut is not None:
            b, o = eng.addr(st, cut[0])
            if b is not None and not isinstance(o, Lin):
                eng.havoc_obj(st, b, o, o + 32)
                self.sh.sset(st, b, o, ('cutto', cut[1], cut[2]))
                return [(st, cut[0] if i.ty == 'ptr' else ZERO)]
        if base in ('sqlite3_exec',):
            self.sink(eng, st, i, args[1], base); return [(st, eng.retval(i, fn))]
        if base in ('sqlite3_prepare_v2', 'sqlite3_prepare', 'sqlite3_prepare_v3'):
            self.sink(eng, st, i, args[1], base, args[2])
            b, o = eng.addr(st, args[4 if base.endswith('v3') else 3])
            if b is not None:
                eng.havoc_obj(st, b)
            return [(st, eng.retval(i, fn))]
        if base == 'sqlite3_prepare_statement' and ctx.depth:
            self.sink(eng, st, i, args[2], base)
            b, o = eng.addr(st, args[1])
            if b is not None:
                eng.havoc_obj(st, b)
            return [(st, eng.retval(i, fn))]
        if base == 'sqlite_format':
            sret = bool(fn.args and fn.args[0].get('sret'))
            a = args[1:] if sret else args
            fmt = self.sh.cptr(eng, st, a[0])
            rb, ro = eng.addr(st, args[0])
            q = ('sqlite', fmt[1] if fmt[0] == 'c' else None, self.vals(eng, st, a[1:]), None)
            eng.havoc_obj(st, rb)
            self.sh.sset(st, rb, ro, self.newq(st, i, ctx, q))
            return [(st, ZERO)]
        if base in ('format', 'Utils::format') and fn is not None and fn.args and fn.args[0].get('sret') and fn.d.get('vararg', True):
            fmt = self.sh.cptr(eng, st, args[1])
            rb, ro = eng.addr(st, args[0])
            q = ('printf', fmt[1] if fmt[0] == 'c' else None, self.vals(eng, st, args[2:]), None)
            eng.havoc_obj(st, rb)
            self.sh.sset(st, rb, ro, self.newq(st, i, ctx, q))
            return [(st, ZERO)]
        if base in PRINTERS:
            d, l, f = PRINTERS[base]
            b, o = eng.addr(st, args[d])
            fmt = self.sh.cptr(eng, st, args[f])
            lim = None
            if l is not None:
                v = st.res(eng.tolin(st, args[l])); lim = v.c if not v.t else None
            if b is not None and not isinstance(o, Lin):
                st.ts[('B', b, o)] = ('fmt', 'sqlite' if base.startswith('sqlite3') else 'printf', fmt[1] if fmt[0] == 'c' else None, self.vals(eng, st, args[f + 1:]), lim)
            return [(st, eng.retval(i, fn))]
        if base in MALLOCP:
            fmt = self.sh.cptr(eng, st, args[0])
            t = eng.fresh('sql text', 'p', kind='heap'); t.lo = 1
            st.ts[('B', t, 0)] = ('fmt', 'sqlite', fmt[1] if fmt[0] == 'c' else None, self.vals(eng, st, args[1:]), None)
            return [(st, lin(t))]
        if base in ('strcpy', 'strcat', 'strncpy', 'strncat', 'stpcpy') and len(args) >= 2:
            b, o = eng.addr(st, args[0])
            t = self.sh.cptr(eng, st, args[1])
            if b is not None and not isinstance(o, Lin):
                old = st.ts.get(('B', b, o), ('c', ''))
                st.ts[('B', b, o)] = ('cat', old, t) if 'cat' in base else t
            return [(st, args[0])]
        if base == 'sqlite3_free':
            return [(st, ZERO)]
        # streams
        if 'operator<<' in base and len(args) == 2:
            b, o = eng.addr(st, args[0])
            if b is not None and b.kind == 'alloca':
                cur = st.ts.get(('OS', b), (False, False, '', ()))
                com, inq, tail, bads = cur
                ev = Eval(self, st); ev.inq = inq; ev.txt = tail; ev.com = com
                ps = par(fn) if fn is not None else []
                last = ps[-1] if ps else ''
                if isstr(last):
                    t = self.sh.sref(eng, st, args[1])
                elif iscstr(last) or last in ('unsigned char const*', 'signed char const*'):
                    t = self.sh.cptr(eng, st, args[1])
                elif last == 'char':
                    v = st.res(eng.tolin(st, args[1]))
                    t = ('c', chr(v.c)) if not v.t and 0 < v.c < 256 else ('num',)
                else:
                    t = ('num',)
                if t == ('num',):
                    ev.lit('\n' if '(*)' in last else '0')
                elif t[0] != 'c' and not KEYWORD.search(tail) and not inq:
                    ev.txt += 'X'                       # not inside a statement
                else:
                    ev.text(t)
                tail = ev.txt.rsplit(';', 1)[-1]
                k = [x for x in KEYWORD.finditer(tail)]
                tail = tail[k[0].start():] if k else ''
                if len(tail) > 60:
                    tail = tail[:30] + '~' + tail[-25:]
                if ev.bad and STMTTEXT.search(cur[2]):
                    bads = tuple(sorted(set(bads) | {(kind, msg, i.where()) for kind, msg in ev.bad}))
                if t[0] == 'f' and not ev.bad and not ev.unk and STMTTEXT.search(cur[2]):
                    self.sinks += 1; self.met('%s: %s' % (self.name, 'value in generated SQL'), True)
                st.ts[('OS', b)] = (ev.com, ev.inq, tail, bads)
            return [(st, args[0])]
        if base.replace('__cxx11::', '').startswith(('std::basic_ostringstream::', 'std::basic_stringstream::')) and base.endswith('::str') and fn.args and fn.args[0].get('sret') and len(args) == 2:
            b, o = eng.addr(st, args[1]); rb, ro = eng.addr(st, args[0])
            eng.havoc_obj(st, rb)
            cur = st.ts.get(('OS', b))
            if cur is not None:
                for kind, msg, where in cur[3]:
                    self.report(st, 'C20/%s/%s' % (self.name, kind), where, '%s: %s' % (self.name, msg))
                self.sh.sset(st, rb, ro, ('stream', cur[1]))
                return [(st, ZERO)]
        bs = base.replace('__cxx11::', '')
        r = None
        if bs.startswith('std::basic_string::') or bs == 'std::operator+' or bs in ('std::make_pair', 'std::pair::pair'):
            r = self.sh.call(eng, st, i, fn, base, args, ctx)
        if r is None and fn is not None and fn.repo and fn.blocks and not self.relevant(eng, fn):
            return cutcall(eng, st, i, fn, args)
        return r


class FormatRule(RuleBase):
    """the body of sqlite_format: its result is the whole text made by sqlite3_vmprintf"""
    explicit = True
    concrete = True

    def __init__(self):
        super().__init__(); self.sh = Shapes(); self.bounded = False; self.texts = []

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items() if k[0] in ('S', 'B', 'vm'))

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if base in ('sqlite3_vmprintf', 'sqlite3_mprintf'):
            t = eng.atom('heap', ('vmtext', i.id), 'formatted text', 'p', 1)
            st.ts[('B', t, 0)] = ('k', 'the formatted text')
            st.ts[('vm',)] = self.sh.cptr(eng, st, args[0])
            bad = st.copy(); bad.note((i.where(), 'out of memory'))
            return [(st, lin(t)), (bad, ZERO)]
        if base in ('sqlite3_vsnprintf', 'sqlite3_snprintf', 'vsnprintf', 'snprintf'):
            lim = st.res(eng.tolin(st, args[0 if base.startswith('sqlite3') else 1]))
            if not lim.t:
                self.bounded = (i.where(), lim.c)
            return [(st, args[1] if base.startswith('sqlite3') else eng.retval(i, fn))]
        if base == 'strnlen':
            return strnlen(eng, i, fn, st, args)
        cut = cutter(eng, self.sh, st, i, fn, base, args) if fn is not None and base else None
        if cut is not None:
            self.bounded = (i.where(), cut[2])
        if base == 'sqlite3_free' or base and base.startswith('llvm.va'):
            return [(st, ZERO)]
        return self.sh.call(eng, st, i, fn, base, args, ctx)


def c20(cx):
    m = cx.m
    cx.rule('Every text that reaches a statement-preparing call is followed back to its parts: constants, numbers, %q conversions between quotes (or %Q outside them), or bound parameters. Text of a caller (parameters, stored keys and values) as plain text is a '
            'violation; only the SQL utility layer may take table, column and condition texts by parameter, in places where no value stands, and its callers must pass constants for them. No part may be cut off by a precision, a fixed buffer or a length argument; '
            'sqlite_format itself must return the whole text made by sqlite3_vmprintf.')
    sinks = {'sqlite3_exec', 'sqlite3_prepare_v2', 'sqlite3_prepare', 'sqlite3_prepare_v3'}
    reach = reaches(m, sinks, stop={'Log::~Log', 'Log::Log', 'Log::get', 'gGetLoggingLevel'})
    # functions through which a statement is made: its own text is formed there
    names = set()
    for f in m.repo_funcs():
        direct = {m.funcs[i.d['callee'][1]].base for i in calls(f) if i.d.get('callee') and i.d['callee'][0] == 'g' and i.d['callee'][1] in m.funcs}
        if f.name in reach and (direct & sinks or any(b and b.startswith(('sqlite', 'sqlQuery::')) for b in direct)) or 'sqlite_format' in direct:
            names.add(f.name)
    n = 0
    inutil = lambda f: (f.file or '').split('/')[-1] in ('sqlite3util.cpp', 'sqlite3util.h')
    keep = {x for x in reach if x in m.funcs and inutil(m.funcs[x])}
    memo = {'entries': {x for x in reach if x not in keep}}
    cal = callers(m)
    order = []; mark = set()

    def visit(x):
        if x in mark:
            return
        mark.add(x)
        for y in sorted(z for z in names if x in cal.get(z, ())):
            visit(y)
        order.append(m.funcs[x])
    for x in sorted(names):
        visit(x)
    for f in order:
        if f.base in ('sqlite_format',):
            continue
        util = inutil(f)
        for x in [x for x in memo if x != 'entries']:
            del memo[x]
        rule = TextRule(f.base, f, util, keep, memo)
        eng = Engine(m, rule, Models())
        try:
            eng.run(f, State(), None)
        except Budget as e:
            cx.undecided(f.base, str(e)); continue
        for g in eng.inlined:
            cx.fn(m.funcs[g])
        n += rule.sinks
        if rule.through:
            keep.add(f.name)
        for u in rule.und:
            cx.undecided(f.base, u)
        drain(cx, rule)
    for f in m.find('sqlite_format'):
        rule = FormatRule()
        eng = Engine(m, rule, Models())
        a = eng.params(f)
        try:
            ex = eng.run(f, State(), a)
        except Budget as e:
            cx.undecided('sqlite_format', str(e)); continue
        cx.fn(f)
        if rule.bounded:
            rule.report(None, 'C20/sqlite_format/cut', rule.bounded[0], 'sqlite_format: the text is formatted into %d bytes and cut off when it is longer' % rule.bounded[1])
        for e in ex:
            if e.kind != 'ret':
                continue
            v = rule.sh.sref(eng, e.st, a[0])
            if v == ('c', ''):
                continue
            vm = e.st.ts.get(('vm',))
            if v == ('k', 'the formatted text'):
                if vm is not None and vm[0] == 'p' and vm[1] != e.st.res(eng.tolin(e.st, a[1])):
                    rule.report(e.st, 'C20/sqlite_format/format', f.where(), 'sqlite_format: another text than its format is formatted')
            elif v[0] == 'c':
                rule.report(e.st, 'C20/sqlite_format/text', f.where(), 'sqlite_format: gives a constant instead of the text')
            else:
                cx.undecided('sqlite_format', 'result not followed')
        rule.met('sqlite_format returns the whole text', not rule.rep)
        drain(cx, rule)
    cx.atleast('SQL texts', n, 15)
