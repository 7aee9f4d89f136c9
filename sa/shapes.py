"""Contents of standard strings and maps, followed symbolically.

Strings are identities (constants, the unchanged text of a parameter, a named input, a formatted text); maps are lists of
(key identity, node) that are exactly known ("closed": every key is listed) or partly known ("open").  Looking up a key
whose identity may equal a listed key splits the path."""
import itertools
import re
from .lin import *
from .engine import split_ptr, Tup

_n = itertools.count(1)


def par(fn):
    """parameter types as written in the demangled name (without the object itself)"""
    r = getattr(fn, '_par', None)
    if r is None:
        d = fn.dem
        if d.endswith(' const'):
            d = d[:-6]
        r = []
        if d.endswith(')'):
            depth = 0; k = len(d) - 1
            while k >= 0:
                if d[k] == ')':
                    depth += 1
                elif d[k] == '(':
                    depth -= 1
                    if depth == 0:
                        break
                k -= 1
            depth = 0; cur = ''
            for c in d[k + 1:-1]:
                if c in '<(':
                    depth += 1
                elif c in '>)':
                    depth -= 1
                if c == ',' and depth == 0:
                    r.append(cur.strip()); cur = ''
                else:
                    cur += c
            if cur.strip():
                r.append(cur.strip())
        fn._par = r
    return r


def isstr(t):
    """a reference to (or value of) a string object"""
    return t.startswith(('std::__cxx11::basic_string<', 'std::basic_string<', 'std::string', 'HashString')) and not t.endswith('*')


def iscstr(t):
    return t in ('char const*', 'char*') or t.startswith('char const (&) [')


def pairstr(dem):
    """which members of the pair of a pair constructor are strings"""
    if not dem.startswith('std::pair<'):
        return [False, False]
    depth = 1; cur = ''; r = []
    for c in dem[len('std::pair<'):]:
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        if depth == 0:
            break
        if c == ',' and depth == 1:
            r.append(cur); cur = ''
        else:
            cur += c
    r.append(cur)
    return [x.strip().replace(' const', '').startswith(('std::__cxx11::basic_string<', 'std::string')) for x in r][:2] if len(r) >= 2 else [False, False]


COMPARES = {'strncmp', 'strncasecmp', 'memcmp', 'bcmp', 'strcoll', 'compare', 'find', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of',
            'find_last_not_of', 'starts_with', 'ends_with', 'contains', 'equal', 'mismatch', 'lexicographical_compare', 'regex_match', 'fnmatch'}


class Shapes:
    def __init__(self, on_insert=None, on_erase=None, on_null=None):
        self.on_null = on_null
        self.on_insert = on_insert; self.on_erase = on_erase

    # ---- strings
    def sval(self, eng, st, b, o):
        if b is None or isinstance(o, Lin):
            return ('f', next(_n))
        v = st.ts.get(('S', b, o))
        if v is None:
            v = ('s', b, o)
        return v

    def sset(self, st, b, o, v):
        if b is not None and not isinstance(o, Lin):
            st.ts[('S', b, o)] = v

    def sref(self, eng, st, arg):
        b, o = eng.addr(st, arg)
        return self.sval(eng, st, b, o)

    def cptr(self, eng, st, arg):
        p = eng.tolin(st, arg)
        a = p.single()
        if a is not None and a.kind == 'op' and a.key[1] == 'cstr' and isinstance(a.meta, tuple) and a.meta[0] == 'cstr':
            return self.sval(eng, st, a.meta[1], a.meta[2])
        b, o = split_ptr(p)
        if b is not None and b.kind == 'g' and not o.t:
            s = eng.m.cstr(b.key[1], o.c)
            if s is not None:
                return ('c', s)
        if not p.t:
            return ('null',)
        if b is not None and not o.t:
            f = st.ts.get(('B', b, o.c))
            if f is not None:
                return f
        return ('p', p)

    def eq(self, st, a, b):
        """True / False / None"""
        if a == b:
            return True
        if a[0] == 'c' and b[0] == 'c':
            return False
        if a[0] == 'k' and b[0] == 'k':
            return False
        if a[0] == 'i' and b[0] == 'i':
            d = a[1] - b[1]
            if not d.t:
                return d.c == 0
            if st.prove_ne0(d):
                return False
        k = (a, b) if repr(a) <= repr(b) else (b, a)
        return st.ts.get(('E',) + k)

    def split(self, st, a, b):
        """[(state, equal?)]"""
        e = self.eq(st, a, b)
        if e is not None:
            return [(st, e)]
        k = (a, b) if repr(a) <= repr(b) else (b, a)
        s2 = st.copy()
        st.ts[('E',) + k] = True; s2.ts[('E',) + k] = False
        st.note(('-', 'equal: %s and %s' % (sname(a), sname(b)))); s2.note(('-', 'different: %s and %s' % (sname(a), sname(b))))
        return [(st, True), (s2, False)]

    def copyobj(self, eng, st, sb, so, db, do, n):
        for (b, o), (sz, v) in list(st.mem.items()):
            if b is sb and isinstance(o, int) and so <= o < so + n:
                st.mem = dict(st.mem); st.mem[(db, do + o - so)] = (sz, v)
        for k, v in list(st.ts.items()):
            if k[0] == 'S' and k[1] is sb and so <= k[2] < so + n:
                st.ts[('S', db, do + k[2] - so)] = v

    # ---- maps
    def mget(self, st, b, o):
        return st.ts.get(('M', b, o))

    def mset(self, st, b, o, ents, opn):
        st.ts[('M', b, o)] = (tuple(ents), opn)

    def newnode(self, eng, key, name='entry'):
        a = eng.fresh(name, 'p', kind='heap'); a.lo = 1
        return a

    def find(self, eng, st, b, o, key):
        """[(state, node or None)]"""
        ents, opn = self.mget(st, b, o)
        work = [(st, 0)]; out = []
        while work:
            s, n = work.pop()
            ents, opn = self.mget(s, b, o)
            if n >= len(ents):
                if opn and not s.ts.get(('A', b, o, key)):
                    s2 = s.copy()
                    s2.ts[('A', b, o, key)] = True
                    s2.note(('-', '%s is not in the table' % sname(key)))
                    out.append((s2, None))
                    nd = self.newnode(eng, key)
                    self.mset(s, b, o, ents + ((key, nd),), True)
                    s.ts[('S', nd, 32)] = key
                    s.note(('-', '%s is in the table' % sname(key)))
                    out.append((s, nd))
                else:
                    out.append((s, None))
                continue
            for s2, e in self.split(s, ents[n][0], key):
                if e:
                    out.append((s2, ents[n][1]))
                else:
                    work.append((s2, n + 1))
        return out

    def insert(self, eng, st, i, b, o, key, ctx):
        ents, opn = self.mget(st, b, o)
        nd = self.newnode(eng, key)
        n = len(ents)
        if key[0] == 'i' and not key[1].t and all(k[0] == 'i' and not k[1].t for k, x in ents):
            n = sum(1 for k, x in ents if k[1].c < key[1].c)
        self.mset(st, b, o, ents[:n] + ((key, nd),) + ents[n:], opn)
        st.ts[('S', nd, 32)] = key
        if key[0] == 'i':
            eng.store(st, nd, 32, 4, key[1])
        st.ts.pop(('A', b, o, key), None)
        if self.on_insert is not None:
            self.on_insert(eng, st, i, b, o, key, nd, ctx)
        st.note((i.where(), 'entry for %s is created' % sname(key)))
        return nd

    def owner(self, st, node):
        for k, v in st.ts.items():
            if k[0] == 'M':
                for n, (key, nd) in enumerate(v[0]):
                    if nd is node:
                        return k[1], k[2], n
        return None

    def keyof(self, eng, st, arg, strings=True):
        b, o = eng.addr(st, arg)
        if strings:
            return self.sval(eng, st, b, o)
        return ('i', st.res(eng.tolin(st, eng.load(st, b, o, 4, 32))))

    # ---- lists: every element known, in order; element at node + 16
    def lget(self, st, b, o):
        return st.ts.get(('LS', b, o))

    def lset(self, st, b, o, nodes):
        st.ts[('LS', b, o)] = tuple(nodes)

    def lowner(self, st, node):
        for k, v in st.ts.items():
            if k[0] == 'LS':
                for n, nd in enumerate(v):
                    if nd is node:
                        return k[1], k[2], n
        return None

    def put(self, eng, st, fn, n, arg, db, do):
        """copy the element passed by reference as argument n to (db, do)"""
        ps = par(fn)
        t = ps[n - 1] if n - 1 < len(ps) else ''
        if isstr(t):
            sb, so = eng.addr(st, arg)
            self.sset(st, db, do, self.sval(eng, st, sb, so)); return
        if iscstr(t):
            self.sset(st, db, do, self.cptr(eng, st, arg)); return
        sb, so = eng.addr(st, arg)
        if sb is None or isinstance(so, Lin):
            return
        dts = fn.d.get('ditypes') or []
        ty = eng.m.type(dts[n + 1]) if n + 1 < len(dts) else None
        p = ty.pointee() if ty is not None else None
        if p is not None and p.is_record():
            self.copyobj(eng, st, sb, so, db, do, p.size or 8); return
        w = (p.size if p is not None else 0) or 8
        eng.store(st, db, do, w, st.res(eng.load(st, sb, so, w, 'p' if t.endswith('*&') or t.endswith('*&&') or t.endswith('* const&') else 8 * w)))

    def lst(self, eng, st, i, fn, m, args, ctx):
        sret = bool(fn.args and fn.args[0].get('sret'))
        if sret:
            return None
        b, o = eng.addr(st, args[0])
        if b is None or isinstance(o, Lin):
            return None
        if m == 'list' and len(args) == 1:
            self.lset(st, b, o, ()); return [(st, ZERO)]
        if m in ('list', 'operator=', 'swap') and len(args) == 2:
            sb, so = eng.addr(st, args[1])
            src = self.lget(st, sb, so) if sb is not None and not isinstance(so, Lin) else None
            if src is not None:
                if m == 'swap':
                    cur = self.lget(st, b, o)
                    if cur is None:
                        return None
                    self.lset(st, b, o, src); self.lset(st, sb, so, cur)
                    return [(st, ZERO)]
                out = []
                for nd in src:
                    n2 = self.newnode(eng, None, 'element'); self.copyobj(eng, st, nd, 16, n2, 16, 4096); out.append(n2)
                self.lset(st, b, o, out)
                return [(st, args[0] if i.ty == 'ptr' else ZERO)]
        cur = self.lget(st, b, o)
        if cur is None:
            return None
        end = lin(b) + o
        if m == 'size':
            return [(st, const(len(cur)))]
        if m == 'empty':
            return [(st, F if cur else T)]
        if m == 'begin' or m == 'cbegin':
            return [(st, lin(cur[0]) if cur else end)]
        if m == 'end' or m == 'cend':
            return [(st, end)]
        if m in ('front', 'back'):
            if not cur:
                return None
            return [(st, lin(cur[0 if m == 'front' else -1]) + 16)]
        if m in ('push_back', 'push_front', 'emplace_back', 'emplace_front'):
            nd = self.newnode(eng, None, 'element')
            if len(args) > 1:
                self.put(eng, st, fn, 1, args[1], nd, 16)
            self.lset(st, b, o, cur + (nd,) if m.endswith('back') else (nd,) + cur)
            return [(st, lin(nd) + 16 if i.ty == 'ptr' else ZERO)]
        if m in ('pop_front', 'pop_back'):
            if not cur:
                st.ts[('lbad', b, o)] = True
                return [(st, ZERO)]
            self.lset(st, b, o, cur[1:] if m == 'pop_front' else cur[:-1])
            return [(st, ZERO)]
        if m == 'clear':
            self.lset(st, b, o, ()); return [(st, ZERO)]
        if m == '~list':
            st.ts.pop(('LS', b, o), None); return [(st, ZERO)]

        def pos(arg):
            v = st.res(eng.tolin(st, arg)); nd = v.single()
            if nd is not None and nd.kind == 'alloca' or v == lin(b):
                if v == end:
                    return len(cur)
                v = st.res(eng.models.iterval(eng, st, arg)); nd = v.single()
            if v == end:
                return len(cur)
            w = self.lowner(st, nd) if nd is not None else None
            return w[2] if w is not None and w[:2] == (b, o) else None
        if m == 'erase':
            p = pos(args[1]); q = pos(args[2]) if len(args) > 2 else None
            if p is not None and (q is not None or len(args) == 2 and p < len(cur)):
                q = p + 1 if q is None else q
                self.lset(st, b, o, cur[:p] + cur[q:])
                return [(st, lin(cur[q]) if q < len(cur) else end)]
        if m in ('insert', 'emplace') and len(args) == 3:
            p = pos(args[1])
            if p is not None:
                nd = self.newnode(eng, None, 'element')
                self.put(eng, st, fn, 2, args[2], nd, 16)
                self.lset(st, b, o, cur[:p] + (nd,) + cur[p:])
                return [(st, lin(nd))]
        if m == 'assign' and len(args) == 3:
            n = st.res(eng.tolin(st, args[1]))
            if not n.t and n.c < 8:
                nodes = []
                for k in range(n.c):
                    nd = self.newnode(eng, None, 'element')
                    self.put(eng, st, fn, 2, args[2], nd, 16); nodes.append(nd)
                self.lset(st, b, o, nodes); return [(st, ZERO)]
        if m == 'resize' and len(args) == 2:
            n = st.res(eng.tolin(st, args[1]))
            if not n.t and n.c <= len(cur):
                self.lset(st, b, o, cur[:n.c]); return [(st, ZERO)]
        if not fn.dem.endswith(' const'):
            st.ts.pop(('LS', b, o), None)
        return None

    # ---- calls
    def call(self, eng, st, i, fn, base, args, ctx):
        if fn is None or fn.repo or base is None:
            return None
        r = self.call2(eng, st, i, fn, base, args, ctx)
        if r is None and i.ty in ('i1', 'i32', 'i64') and args and ('opaque',) not in st.ts:
            m = base.rsplit('::', 1)[-1]
            if m not in ('size', 'length', 'empty', 'capacity', 'max_size', 'strlen') and not base.startswith(('sqlite', 'pthread', '__')):
                ps = par(fn)
                for n, a in enumerate(args):
                    if isinstance(a, Tup):
                        continue
                    k = n - (len(args) - len(ps))
                    t = self.sref(eng, st, a) if n == 0 and '::basic_string::' in base or 0 <= k < len(ps) and isstr(ps[k]) else self.cptr(eng, st, a) if 0 <= k < len(ps) and iscstr(ps[k]) else None
                    if t is not None and (t[0] in ('k', 'cfg', 'dbval') or t[0] == 'c' and m in COMPARES):
                        st.ts[('opaque',)] = base
                        break
        return r

    def call2(self, eng, st, i, fn, base, args, ctx):
        bs = base.replace('__cxx11::', '')
        m = bs.rsplit('::', 1)[-1]
        if bs.startswith('std::basic_string::'):
            return self.string(eng, st, i, fn, m, args, ctx)
        if bs in ('std::make_pair', 'std::pair::pair'):
            return self.pair(eng, st, i, fn, m, args, ctx)
        if bs.startswith('std::map::'):
            return self.map(eng, st, i, fn, m, args, ctx)
        if bs.startswith('std::list::'):
            return self.lst(eng, st, i, fn, m, args, ctx)
        if '_List' in bs and 'iterator' in bs:
            return self.iter(eng, st, i, fn, m, args, ctx)
        if bs.startswith('std::basic_ostringstream::') or bs.startswith('std::basic_stringstream::'):
            if m == 'str' and fn.args and fn.args[0].get('sret') and len(args) == 2:
                b, o = eng.addr(st, args[1]); rb, ro = eng.addr(st, args[0])
                if b is not None and rb is not None and not isinstance(o, Lin):
                    eng.havoc_obj(st, rb)
                    self.sset(st, rb, ro, ('str', b, o))
                    return [(st, ZERO)]
            return None
        if '_Rb_tree' in bs and 'iterator' in bs:
            return self.iter(eng, st, i, fn, m, args, ctx)
        if bs in ('std::operator==', 'std::operator!=') and any(isstr(x) for x in par(fn)):
            a = self.anystr(eng, st, args[0], fn, 0); b = self.anystr(eng, st, args[1], fn, 1)
            return [(s, T if e == (m == 'operator==') else F) for s, e in self.split(st, a, b)]
        if bs == 'std::operator+' and fn.args and fn.args[0].get('sret'):
            a = self.anystr(eng, st, args[1], fn, 0); b = self.anystr(eng, st, args[2], fn, 1)
            rb, ro = eng.addr(st, args[0])
            eng.havoc_obj(st, rb)
            self.sset(st, rb, ro, ('cat', a, b))
            return [(st, ZERO)]
        if bs in ('strncmp', 'strncasecmp', 'memcmp') and len(args) == 3:
            a = self.cptr(eng, st, args[0]); b = self.cptr(eng, st, args[1]); n = st.res(eng.tolin(st, args[2]))
            if a[0] == 'c' and b[0] == 'c' and not n.t and n.c >= 0:
                x, y = a[1] + '\0', b[1] + '\0'
                if bs != 'memcmp' or n.c <= min(len(x), len(y)):
                    x, y = x[:n.c], y[:n.c]
                    if bs == 'strncasecmp':
                        x, y = x.lower(), y.lower()
                    return [(st, const(0 if x == y else 1 if x > y else -1))]
        if bs in ('strcmp', 'strcasecmp') and len(args) == 2:
            a = self.cptr(eng, st, args[0]); b = self.cptr(eng, st, args[1])
            if ('null',) in (a, b) and self.on_null is not None:
                self.on_null(eng, st, i, ctx)
            e = self.eq(st, a, b)
            if a[0] != 'p' and b[0] != 'p' or e is not None:
                out = []
                for s, e in self.split(st, a, b):
                    if e:
                        out.append((s, ZERO))
                    else:
                        r = eng.fresh('cmp', 32); s.ne = s.ne | {lin(r)}
                        out.append((s, lin(r)))
                return out
        # any other library function that is handed a string it may change
        return None

    def anystr(self, eng, st, arg, fn, n):
        """the text of argument n (counted without the object itself), a string or a C string"""
        ps = par(fn)
        if n < len(ps) and isstr(ps[n]):
            return self.sref(eng, st, arg)
        if n < len(ps) and iscstr(ps[n]):
            return self.cptr(eng, st, arg)
        return ('f', next(_n))

    def string(self, eng, st, i, fn, m, args, ctx):
        sret = bool(fn.args and fn.args[0].get('sret'))
        me = args[1] if sret else args[0]
        b, o = eng.addr(st, me)
        if b is None or isinstance(o, Lin):
            return None
        ps = par(fn)
        if m in ('basic_string', 'operator=', 'assign'):
            v = None
            if not ps or len(ps) == 1 and 'allocator<' in ps[0] and not isstr(ps[0]):
                v = ('c', '')
            elif len(ps) == 1 or len(ps) == 2 and m == 'basic_string' and ps[1].startswith('std::allocator<'):
                if isstr(ps[0]):
                    v = self.sref(eng, st, args[1])
                elif iscstr(ps[0]):
                    v = self.cptr(eng, st, args[1])
            eng.havoc_obj(st, b, o, o + 32)
            if v is not None and v[0] == 'c':
                eng.store(st, b, o + 8, 8, const(len(v[1])))
            self.sset(st, b, o, v if v is not None else ('f', next(_n)))
            return [(st, args[0] if i.ty == 'ptr' else ZERO)]
        if m == '~basic_string':
            st.ts.pop(('S', b, o), None)
            return None
        v = self.sval(eng, st, b, o)
        if m in ('size', 'length') and v[0] == 'c':
            return [(st, const(len(v[1])))]
        if m == 'compare' and len(args) == 2:
            out = []
            for s, e in self.split(st, v, self.anystr(eng, st, args[1], fn, 0)):
                if e:
                    out.append((s, ZERO))
                else:
                    r = eng.fresh('cmp', 32); s.ne = s.ne | {lin(r)}
                    out.append((s, lin(r)))
            return out
        if m == 'empty' and v[0] == 'c':
            return [(st, T if not v[1] else F)]
        if sret:
            rb, ro = eng.addr(st, args[0])
            if rb is not None:
                eng.havoc_obj(st, rb)
                self.sset(st, rb, ro, ('f', next(_n)))
            return [(st, ZERO)]
        if m == 'swap':
            b2, o2 = eng.addr(st, args[1])
            v2 = self.sval(eng, st, b2, o2)
            self.sset(st, b, o, v2); self.sset(st, b2, o2, v)
            return None
        if not fn.dem.endswith(' const') and m not in ('c_str', 'data', 'begin', 'end', 'size', 'length', 'empty'):
            if m in ('append', 'operator+=') and len(args) == 2:
                self.sset(st, b, o, ('cat', v, self.anystr(eng, st, args[1], fn, 0)))
            elif m == 'clear':
                self.sset(st, b, o, ('c', ''))
            elif m not in ('reserve', 'shrink_to_fit'):
                self.sset(st, b, o, ('f', next(_n)))
        return None

    def map(self, eng, st, i, fn, m, args, ctx):
        sret = bool(fn.args and fn.args[0].get('sret'))
        b, o = eng.addr(st, args[1] if sret else args[0])
        if b is None or isinstance(o, Lin):
            return None
        end = lin(b) + o + 8
        strk = any(x in fn.dem for x in ('std::map<std::__cxx11::basic_string', 'std::map<std::string', 'std::map<HashString'))
        intk = not strk and any(x in fn.dem for x in ('std::map<int, ', 'std::map<unsigned int, '))
        vo = 72 if 'std::map<HashString' in fn.dem else 40 if intk else 64
        kof = lambda arg: self.keyof(eng, st, arg, strk)
        if m == 'map' and len(args) == 1:
            self.mset(st, b, o, (), False)
            return [(st, ZERO)]
        if m in ('map', 'operator=') and len(args) == 2:
            sb, so = eng.addr(st, args[1])
            src = self.mget(st, sb, so) if sb is not None else None
            if src is not None:
                ents = []
                for k, nd in src[0]:
                    n2 = self.newnode(eng, k)
                    self.copyobj(eng, st, nd, 32, n2, 32, 4096)
                    ents.append((k, n2))
                self.mset(st, b, o, ents, src[1])
                return [(st, args[0] if i.ty == 'ptr' else ZERO)]
        cur = self.mget(st, b, o)
        if cur is None:
            return None
        if not (strk or intk):
            if not fn.dem.endswith(' const') and m not in ('begin', 'end', 'find', 'size', 'empty', 'count'):
                self.mset(st, b, o, (), True); self.forget(st, b, o)
            return None
        if m == '~map':
            st.ts.pop(('M', b, o), None)
            return [(st, ZERO)]
        if m == 'clear':
            for k, nd in cur[0]:
                if self.on_erase is not None:
                    self.on_erase(eng, st, i, b, o, k, nd, ctx)
            self.mset(st, b, o, (), False)
            self.forget(st, b, o)
            return [(st, ZERO)]
        if m == 'swap':
            sb, so = eng.addr(st, args[1])
            src = self.mget(st, sb, so) if sb is not None else None
            if src is not None:
                self.mset(st, b, o, *src); self.mset(st, sb, so, *cur)
                return [(st, ZERO)]
            return None
        if m in ('size', 'empty') and not cur[1]:
            n = len(cur[0])
            return [(st, const(n) if m == 'size' else (T if n == 0 else F))]
        if m == 'end':
            return [(st, end)]
        if m == 'begin' and not cur[1]:
            return [(st, lin(cur[0][0][1]) if cur[0] else end)]
        if m in ('find', 'count'):
            key = kof(args[1])
            r = self.find(eng, st, b, o, key)
            if m == 'count':
                return [(s, ZERO if nd is None else const(1)) for s, nd in r]
            return [(s, end if nd is None else lin(nd)) for s, nd in r]
        if m in ('operator[]', 'at'):
            key = kof(args[1])
            out = []
            for s, nd in self.find(eng, st, b, o, key):
                if nd is None:
                    if m == 'at':
                        out.append(('throw', s)); continue
                    nd = self.insert(eng, s, i, b, o, key, ctx)
                    t = eng.m.type(fn.d['ditypes'][0]) if fn.d.get('ditypes') else None
                    t = t.pointee() if t is not None else None
                    self.default(eng, s, nd, vo, t)
                t = eng.m.type(fn.d['ditypes'][0]) if fn.d.get('ditypes') else None
                t = t.pointee() if t is not None else None
                out.append((s, lin(nd) + vo))
            return out
        if m == 'erase' and len(args) == 2:
            if par(fn) and (isstr(par(fn)[0]) or intk and par(fn)[0] in ('int const&', 'unsigned int const&')):
                key = kof(args[1])
                out = []
                for s, nd in self.find(eng, st, b, o, key):
                    if nd is None:
                        out.append((s, ZERO)); continue
                    self.remove(eng, s, i, b, o, nd, ctx)
                    out.append((s, const(1)))
                return out
            v = st.res(eng.tolin(st, args[1])); nd = v.single()
            w = self.owner(st, nd) if nd is not None else None
            if w is None and nd is not None and nd.kind == 'alloca':
                v = st.res(eng.iterval(st, args[1])) if hasattr(eng, 'iterval') else eng.models.iterval(eng, st, args[1]); nd = v.single()
                w = self.owner(st, nd) if nd is not None else None
            if w is None or w[:2] != (b, o):
                self.mset(st, b, o, (), True); self.forget(st, b, o)
                return None
            k, n = cur[0][w[2]][0], w[2]
            nxt = lin(cur[0][n + 1][1]) if n + 1 < len(cur[0]) else end
            self.remove(eng, st, i, b, o, nd, ctx)
            return [(st, nxt if i.ty == 'ptr' else ZERO)]
        if m == 'erase' and len(args) == 3 and not cur[1]:
            ps = []
            for a in args[1:]:
                v = st.res(eng.models.iterval(eng, st, a)) if st.res(eng.tolin(st, a)).single() is not None and st.res(eng.tolin(st, a)).single().kind == 'alloca' else st.res(eng.tolin(st, a))
                if v == end:
                    ps.append(len(cur[0])); continue
                w = self.owner(st, v.single()) if v.single() is not None else None
                ps.append(w[2] if w is not None and w[:2] == (b, o) else None)
            if None not in ps and ps[0] <= ps[1]:
                for k, nd in cur[0][ps[0]:ps[1]]:
                    self.remove(eng, st, i, b, o, nd, ctx)
                return [(st, lin(cur[0][ps[1]][1]) if ps[1] < len(cur[0]) else end)]
        if m in ('insert', 'emplace', 'insert_or_assign') and len(args) == 2 and i.ty.startswith('{'):
            pb, po = eng.addr(st, args[1])
            if pb is None or isinstance(po, Lin):
                return None
            key = self.sval(eng, st, pb, po) if strk else ('i', st.res(eng.tolin(st, eng.load(st, pb, po, 4, 32))))
            out = []
            for s, nd in self.find(eng, st, b, o, key):
                if nd is None:
                    nd = self.insert(eng, s, i, b, o, key, ctx)
                    p0 = re.sub(r'^(std::)?pair<(const )?', '', par(fn)[0]) if par(fn) else ''
                    ks = 32 if strk and p0.replace('__cxx11::', '').startswith(('std::basic_string', 'std::string')) else vo - 32
                    self.copyobj(eng, s, pb, po + ks, nd, vo, 4096)
                    out.append((s, Tup([lin(nd), T])))
                else:
                    out.append((s, Tup([lin(nd), F])))
            return out
        if not fn.dem.endswith(' const'):
            self.mset(st, b, o, (), True); self.forget(st, b, o)
        return None

    def pair(self, eng, st, i, fn, m, args, ctx):
        """a pair whose first member is a string (value at 32) or an 8 byte object"""
        sret = bool(fn.args and fn.args[0].get('sret'))
        dts = [eng.m.type(t) for t in (fn.d.get('ditypes') or [])]
        if m == 'make_pair' and not sret and len(args) == 2 and len(dts) == 3 and i.ty.startswith('{'):
            vals = []
            for t, a in zip(dts[1:], args):
                p = t.pointee() if t is not None else None
                b, o = eng.addr(st, a)
                if p is None or p.is_record() or b is None or p.size not in (1, 2, 4, 8):
                    return None
                vals.append(st.res(eng.load(st, b, o, p.size, 'p' if p.is_ptr() else 8 * p.size)))
            return [(st, Tup(vals))]
        if not (sret or m == 'pair') or not args:
            return None
        db, do = eng.addr(st, args[0])
        if db is None or isinstance(do, Lin):
            return None
        pars = dts[1:] if m == 'make_pair' else dts[2:]
        vals = args[1:]
        if len(pars) != len(vals) or not pars:
            return None
        ps = [p.pointee() if p is not None else None for p in pars]
        if any(p is None for p in ps):
            return None
        eng.havoc_obj(st, db, do, do + 40)
        if len(ps) == 1 and ps[0].name.startswith('pair<'):
            sb, so = eng.addr(st, vals[0])
            if sb is None or isinstance(so, Lin):
                return None
            self.copyobj(eng, st, sb, so, db, do, ps[0].size or 40)
            return [(st, ZERO)]
        if len(ps) != 2:
            return None
        off = do
        strs = pairstr(fn.dem)
        for p, v, isst in zip(ps, vals, strs):
            sb, so = eng.addr(st, v)
            if isst and not p.name.startswith(('basic_string', 'HashString')):
                # built from a C string
                n = p.name.strip()
                if p.is_ptr():
                    self.sset(st, db, off, self.cptr(eng, st, eng.load(st, sb, so, 8, 'p')))
                elif p.size == 1 or n.startswith('char') or p.d.get('elem') is not None:
                    self.sset(st, db, off, self.cptr(eng, st, v))
                else:
                    return None
                off += 32
            elif p.name.startswith(('basic_string', 'HashString')):
                self.sset(st, db, off, self.sval(eng, st, sb, so)); off += p.size or 32
            elif p.size in (1, 2, 4, 8) and not p.is_record():
                if off % p.size:
                    off += p.size - off % p.size
                eng.store(st, db, off, p.size, st.res(eng.load(st, sb, so, p.size, 8 * p.size) if p.pointee() is None else eng.load(st, sb, so, 8, 'p')))
                off += p.size
            elif sb is not None and not isinstance(so, Lin) and p.size:
                self.copyobj(eng, st, sb, so, db, off, p.size); off += p.size
            else:
                return None
        return [(st, ZERO)]

    def default(self, eng, st, nd, off, t):
        """value-initialised mapped value"""
        if t is None:
            return
        t = t.strip()
        if t.is_record():
            if t.name.startswith('basic_string'):
                st.ts[('S', nd, off)] = ('c', '')
            return
        if t.size in (1, 2, 4, 8):
            eng.store(st, nd, off, t.size, ZERO)

    def forget(self, st, b, o):
        for k in [k for k in st.ts if k[0] == 'A' and k[1] is b and k[2] == o]:
            del st.ts[k]

    def remove(self, eng, st, i, b, o, nd, ctx):
        ents, opn = self.mget(st, b, o)
        key = [k for k, x in ents if x is nd][0]
        self.mset(st, b, o, [(k, x) for k, x in ents if x is not nd], opn)
        if opn:
            st.ts[('A', b, o, key)] = True
        if self.on_erase is not None:
            self.on_erase(eng, st, i, b, o, key, nd, ctx)
        st.note((i.where(), 'entry for %s is removed' % sname(key)))

    def iter(self, eng, st, i, fn, m, args, ctx):
        sret = bool(fn.args and fn.args[0].get('sret'))
        if m in ('operator++', 'operator--'):
            b, o = eng.addr(st, args[0])
            if b is None or isinstance(o, Lin):
                return None
            old = st.res(eng.tolin(st, eng.load(st, b, o, 8, 'p')))
            nd = old.single()
            w = self.lowner(st, nd) if nd is not None else None
            if w is not None:
                lb, lo, n = w
                cur = self.lget(st, lb, lo)
                n += 1 if m.endswith('++') else -1
                eng.store(st, b, o, 8, lin(cur[n]) if 0 <= n < len(cur) else lin(lb) + lo)
                return [(st, args[0] if len(args) == 1 else old)]
            w = self.owner(st, nd) if nd is not None else None
            if w is None:
                return None
            mb, mo, n = w
            ents, opn = self.mget(st, mb, mo)
            if opn:
                return None
            n += 1 if m.endswith('++') else -1
            new = lin(ents[n][1]) if 0 <= n < len(ents) else lin(mb) + mo + 8
            eng.store(st, b, o, 8, new)
            return [(st, args[0] if len(args) == 1 else old)]
        return None


def sname(v):
    if v[0] == 'c':
        return '"%s"' % v[1]
    if v[0] == 'k':
        return v[1]
    if v[0] == 's':
        return str(v[1].name)
    if v[0] == 'p':
        return 'text of %s' % v[1]
    return v[0]
