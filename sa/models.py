"""Models of the library functions the repository calls (libc, libstdc++, pthreads, sqlite) and the layer cuts
(logging, mutexes) used by rules that do not analyse those layers themselves."""
import re
from .lin import *
from .engine import split_ptr, Tup, Exit

LOGGING = {
    'Log::Log', 'Log::~Log', 'Log::get', 'gGetLoggingLevel', 'Utils::rn_backtrace', 'Utils::timestr',
    'syslog', 'vsyslog', 'openlog', 'gLogInit', 'gLogEarly', 'operator<<', 'std::operator<<', 'std::ostream::operator<<',
    'gLogGroup', 'gCouldBeLogged', 'printf', 'fprintf', 'perror', 'puts', 'fputs', 'fputc', 'fflush', 'strerror', 'std::operator|',
}
LOCKS = {'Mutex::lock', 'Mutex::_lock', 'Mutex::unlock', 'Mutex::trylock', 'Mutex::timedlock', 'Mutex::Mutex', 'Mutex::~Mutex', 'Mutex::mutext'}
SIGNALS = {'Signal::wait', 'Signal::signal', 'Signal::broadcast', 'Signal::Signal', 'Signal::~Signal'}

PURE_FRESH = {'time', 'getpid', 'pthread_self', 'syscall', 'usleep', 'sleep', 'rand', 'random', 'isalnum', 'isspace', 'isdigit', 'isalpha', 'tolower', 'toupper',
              'atoi', 'atol', 'strcmp', 'strcasecmp', 'strncmp', 'memcmp', 'htons', 'ntohs', 'ntohl', 'htonl', 'std::round', 'round', 'hstrerror', 'exp', 'log', 'pow', 'floor', 'sqrt', 'fabs'}


class Models:
    def __init__(self, locks=True, logging=True, signals=True, extra=()):
        self.locks = locks; self.logging = logging; self.signals = signals; self.extra = set(extra)

    def ret(self, eng, st, i, fn, lo=None, hi=None, name=None):
        if i.ty == 'void':
            return ZERO
        v = eng.retval(i, fn, name)
        if isinstance(v, Lin):
            a = v.single()
            if lo is not None:
                a.lo = lo
            if hi is not None:
                a.hi = hi
        return v

    def call(self, eng, st, i, fn, base, args, ctx):
        if base is None:
            return None
        if self.logging and base in LOGGING and not (fn is not None and fn.repo and base == 'operator<<' and False):
            # logging: no effect on the analysed state; sret objects become unknown
            if fn.args and fn.args[0].get('sret') and args:
                b, o = eng.addr(st, args[0])
                if b is not None:
                    eng.havoc_obj(st, b)
            if base.endswith('operator<<'):
                return [(st, args[0])]
            return [(st, self.ret(eng, st, i, fn))]
        if self.locks and base in LOCKS:
            if fn.args and fn.args[0].get('sret'):
                b, o = eng.addr(st, args[0])
                if b is not None:
                    eng.havoc_obj(st, b)
            return [(st, self.ret(eng, st, i, fn))]
        if self.signals and base in SIGNALS:
            return [(st, self.ret(eng, st, i, fn))]
        if base in self.extra:
            if fn.args and fn.args[0].get('sret'):
                b, o = eng.addr(st, args[0])
                if b is not None:
                    eng.havoc_obj(st, b)
            return [(st, self.ret(eng, st, i, fn))]
        if fn is not None and fn.repo:
            return None
        h = TABLE.get(base)
        if h is not None:
            return h(self, eng, st, i, fn, args, ctx)
        if base in PURE_FRESH:
            return [(st, self.ret(eng, st, i, fn))]
        if base.startswith('std::'):
            return self.stl(eng, st, i, fn, base, args, ctx)
        return None

    # ---- libstdc++
    def stl(self, eng, st, i, fn, base, args, ctx):
        m = base.rsplit('::', 1)[-1]
        cls = base[:-len(m) - 2] if '::' in base else ''
        cls = cls.replace('__cxx11::', '')
        sret = bool(fn.args and fn.args[0].get('sret'))
        if base in ('std::operator==', 'std::operator!=', '__gnu_cxx::operator!=', '__gnu_cxx::operator=='):
            d = fn.dem
            if 'iterator' in d.split('(')[1] if '(' in d else False:
                a = self.iterval(eng, st, args[0]); b = self.iterval(eng, st, args[1])
                c = eq0(a - b)
                return [(st, c if m.endswith('==') else cnot(c))]
            return [(st, self.ret(eng, st, i, fn))]
        if 'iterator' in cls:
            if m == 'operator*':
                v = self.iterval(eng, st, args[0])
                return [(st, v + (16 if 'List' in cls else 32 if 'Rb_tree' in cls else 0))]
            if m == 'operator->':
                v = self.iterval(eng, st, args[0])
                return [(st, v + (16 if 'List' in cls else 32 if 'Rb_tree' in cls else 0))]
            if m in ('operator++', 'operator--'):
                b, o = eng.addr(st, args[1] if sret or (len(args) > 1 and 'const' not in fn.dem and args[1] is not None and False) else args[0])
                old = eng.load(st, b, o, 8, 'p')
                n = lin(eng.op('itnext' if m.endswith('++') else 'itprev', [st.res(old), const(st.gver)], 'p', 1))
                a = n.single()
                oa = st.res(old).single()
                if oa is not None and a.pt is None:
                    a.pt = oa.pt
                eng.store(st, b, o, 8, n)
                return [(st, args[0] if len(args) == 1 else old)]
            if m.startswith('_'):
                # converting constructor: copies the node pointer
                b, o = eng.addr(st, args[0])
                if len(args) > 1:
                    src = eng.tolin(st, args[1])
                    sb, so = split_ptr(src)
                    if sb is not None and sb.kind == 'alloca':
                        v = eng.load(st, sb, so.c, 8, 'p')
                    else:
                        v = src
                    eng.store(st, b, o, 8, v)
                return [(st, ZERO)]
            if m in ('operator==', 'operator!='):
                c = eq0(self.iterval(eng, st, args[0]) - self.iterval(eng, st, args[1]))
                return [(st, c if m.endswith('==') else cnot(c))]
        if cls == 'std::list':
            return self.lst(eng, st, i, fn, m, args, ctx)
        if cls == 'std::map':
            return self.map(eng, st, i, fn, m, args, ctx)
        if cls in ('std::basic_string', 'std::vector', 'std::priority_queue'):
            return self.seq(eng, st, i, fn, cls, m, args, ctx)
        if base == 'std::operator+' and sret:
            b, o = eng.addr(st, args[0])
            eng.havoc_obj(st, b)
            return [(st, ZERO)]
        if base in ('std::max', 'std::min'):
            return None
        if base in ('std::move', 'std::forward', 'std::addressof', 'std::as_const', 'std::launder'):
            return [(st, args[0])]
        if base in ('std::swap', 'std::exchange') and len(args) == 2:
            b1, o1 = eng.addr(st, args[0]); b2, o2 = eng.addr(st, args[1])
            t = None
            for d in (fn.d.get('ditypes') or [])[1:2]:
                t = eng.m.type(d)
                t = t.pointee() if t is not None else None
            if t is None or b1 is None or b2 is None or isinstance(o1, Lin) or isinstance(o2, Lin):
                return None
            parts = [(t.size, 0)] if not t.is_record() else leaf_fields_sizes(eng.m, t)
            if any(sz not in (1, 2, 4, 8) for sz, _ in parts):
                return None
            vals = [(sz, o, eng.load(st, b1, o1 + o, sz, sz * 8), eng.load(st, b2, o2 + o, sz, sz * 8)) for sz, o in parts]
            if base == 'std::exchange' and (len(parts) != 1 or t.is_record()):
                return None
            for sz, o, x, y in vals:
                eng.store(st, b1, o1 + o, sz, y)
                if base == 'std::swap':
                    eng.store(st, b2, o2 + o, sz, x)
            return [(st, vals[0][2] if base == 'std::exchange' else ZERO)]
        return None

    def iterval(self, eng, st, v):
        """iterators are passed by reference (address of a local holding the node pointer)"""
        p = eng.tolin(st, v)
        b, o = split_ptr(p)
        if b is not None and b.kind in ('alloca', 'param', 'obj') and not o.t:
            return st.res(eng.load(st, b, o.c, 8, 'p'))
        return p

    def lst(self, eng, st, i, fn, m, args, ctx):
        b, o = eng.addr(st, args[0])
        if b is None or isinstance(o, Lin):
            return None

        def size():
            v = eng.load(st, b, o + 16, 8, 64)
            a = v.single() if isinstance(v, Lin) else None
            if a is not None and a.lo is None:
                a.lo = 0
            if a is not None and a.kind == 'ld':
                a.lo = 0
            return v

        def first():
            v = eng.load(st, b, o, 8, 'p')
            a = v.single()
            if a is not None:
                a.lo = 1
            return v
        if m == 'size':
            return [(st, size())]
        if m == 'empty':
            return [(st, eq0(size()))]
        if m in ('front', 'back'):
            if m == 'front':
                return [(st, first() + 16)]
            v = eng.load(st, b, o + 8, 8, 'p')
            return [(st, v + 16)]
        if m == 'begin':
            return [(st, first())]
        if m == 'end':
            return [(st, lin(b) + o)]
        if m in ('pop_front', 'pop_back'):
            n = size()
            f = eng.fresh('node', 'p'); f.lo = 1
            k = o if m == 'pop_front' else o + 8
            eng.store(st, b, k, 8, lin(f))
            eng.store(st, b, o + 16, 8, n - 1)
            return [(st, ZERO)]
        if m in ('push_back', 'push_front'):
            n = size()
            f = eng.fresh('node', 'p', kind='heap'); f.lo = 1
            vb, vo = eng.addr(st, args[1])
            if vb is not None:
                v = eng.load(st, vb, vo, 8, 'p')
                eng.escape(st, v)
                st.mem = dict(st.mem); st.mem[(f, 16)] = (8, v)
            nz = st.decide(ne0(n))
            if m == 'push_front' or nz is False:
                eng.store(st, b, o, 8, lin(f))
            elif nz is None:
                g = eng.fresh('node', 'p'); g.lo = 1
                eng.store(st, b, o, 8, lin(g))
            if m == 'push_back' or nz is False:
                eng.store(st, b, o + 8, 8, lin(f))
            elif nz is None:
                g = eng.fresh('node', 'p'); g.lo = 1
                eng.store(st, b, o + 8, 8, lin(g))
            eng.store(st, b, o + 16, 8, n + 1)
            return [(st, ZERO)]
        if m in ('list', '~list', 'clear'):
            eng.havoc_obj(st, b, o, o + 24)
            if m == 'clear' or (m == 'list' and len(args) == 1):
                eng.store(st, b, o + 16, 8, ZERO)
            return [(st, ZERO)]
        if m == 'erase' or m == 'insert':
            eng.havoc_obj(st, b, o, o + 24)
            return [(st, self.ret(eng, st, i, fn))]
        return None

    def keyid(self, eng, st, v):
        """identity of the key object passed by reference"""
        p = eng.tolin(st, v)
        b, o = split_ptr(p)
        if b is None:
            return (p,)
        t = b.pt
        if t is not None and t.is_record():
            # string keys: address plus version of the object
            return (p, const(st.ver.get(b, 0)))
        off = o.c if not o.t else o
        tt = eng.typeat(b, off)
        n = tt.strip().size if tt is not None and tt.strip() is not None else 0
        if n in (1, 2, 4, 8):
            return (st.res(eng.load(st, b, off, n, n * 8)),)
        return (p, const(st.ver.get(b, 0)))

    def map(self, eng, st, i, fn, m, args, ctx):
        sret = bool(fn.args and fn.args[0].get('sret'))
        b, o = eng.addr(st, args[0])
        if b is None or isinstance(o, Lin):
            return None

        def root():
            return st.res(eng.load(st, b, o + 16, 8, 'p'))

        def size():
            v = eng.load(st, b, o + 40, 8, 64)
            a = v.single() if isinstance(v, Lin) else None
            if a is not None and a.kind == 'ld':
                a.lo = 0
            return v
        if m == 'size':
            return [(st, size())]
        if m == 'empty':
            return [(st, eq0(size()))]
        if m == 'end':
            return [(st, lin(b) + o + 8)]
        if m == 'begin':
            a = eng.op('mapbegin', [lin(b) + o, root()], 'p', 1)
            return [(st, lin(a))]
        if m in ('find', 'count'):
            k = self.keyid(eng, st, args[1])
            a = eng.op('mapfind', (lin(b) + o, root()) + k, 'p', 1)
            if m == 'count':
                c = ne0(lin(a) - lin(b) - o - 8)
                return [(st, eng.tolin(st, c))]
            return [(st, lin(a))]
        if m in ('operator[]', 'at'):
            k = self.keyid(eng, st, args[1])
            r = root()
            a = eng.op('mapslot', (lin(b) + o, r) + k, 'p', 1)
            if a.pt is None and fn.d.get('ditypes'):
                t = eng.m.type(fn.d['ditypes'][0])
                a.pt = t.pointee() if t is not None else None
            return [(st, lin(a))]
        if m in ('erase', 'insert', 'clear', 'map', '~map', 'emplace', 'swap', 'operator='):
            eng.havoc_obj(st, b, o, o + 48)
            if m == 'clear' or (m == 'map' and len(args) == 1):
                eng.store(st, b, o + 40, 8, ZERO)
            if i.ty.startswith('{'):
                return [(st, Tup([lin(eng.fresh('it', 'p')), ne0(lin(eng.fresh('ins', 1)))]))]
            return [(st, self.ret(eng, st, i, fn))]
        return None

    def seq(self, eng, st, i, fn, cls, m, args, ctx):
        sret = bool(fn.args and fn.args[0].get('sret'))
        me = args[1] if sret else args[0]
        b, o = eng.addr(st, me)
        if b is None or isinstance(o, Lin):
            return None
        if cls == 'std::basic_string':
            def ln():
                v = eng.load(st, b, o + 8, 8, 64)
                a = v.single() if isinstance(v, Lin) else None
                if a is not None and a.kind in ('ld', 'uninit'):
                    a.lo = 0
                return v
            if m in ('size', 'length'):
                return [(st, ln())]
            if m == 'empty':
                return [(st, eq0(ln()))]
            if m in ('c_str', 'data'):
                p = st.res(eng.load(st, b, o, 8, 'p'))
                a = eng.op('cstr', [p, st.res(ln()), lin(b) + o], 'p', 1)
                a.meta = ('cstr', b, o)
                return [(st, lin(a))]
            if m in ('operator[]', 'at'):
                p = st.res(eng.load(st, b, o, 8, 'p'))
                a = eng.op('cstr', [p, st.res(ln()), lin(b) + o], 'p', 1)
                a.meta = ('cstr', b, o)
                return [(st, lin(a) + eng.tolin(st, args[1]))]
            if m == '~basic_string':
                eng.havoc_obj(st, b, o, o + 32)
                return [(st, ZERO)]
            if m == 'basic_string' and len(args) == 1:
                eng.havoc_obj(st, b, o, o + 32)
                eng.store(st, b, o + 8, 8, ZERO)
                return [(st, ZERO)]
            if m == 'basic_string':
                d = fn.dem
                if len(args) == 2 and 'basic_string const&' in strip(d):
                    sb, so = eng.addr(st, args[1])
                    if sb is not None and not isinstance(so, Lin):
                        n = eng.load(st, sb, so + 8, 8, 64)
                        a = n.single()
                        if a is not None and a.kind in ('ld', 'uninit'):
                            a.lo = 0
                        eng.havoc_obj(st, b, o, o + 32)
                        eng.store(st, b, o + 8, 8, n)
                        return [(st, ZERO)]
                eng.havoc_obj(st, b, o, o + 32)
                return [(st, ZERO)]
            if m in ('find', 'rfind', 'find_first_of', 'find_last_of', 'compare', 'find_first_not_of'):
                v = self.ret(eng, st, i, fn)
                if m != 'compare':
                    a = v.single(); a.lo = None; a.hi = None; a.lo = -1; a.hi = 1 << 62; a.meta = ('npos',)
                return [(st, v)]
            if sret:
                rb, ro = eng.addr(st, args[0])
                if rb is not None:
                    eng.havoc_obj(st, rb)
                return [(st, ZERO)]
            eng.havoc_obj(st, b, o, o + 32)
            return [(st, args[0] if i.ty == 'ptr' else self.ret(eng, st, i, fn))]
        if cls == 'std::priority_queue' or cls == 'std::vector':
            def bg():
                return st.res(eng.load(st, b, o, 8, 'p'))

            def size():
                v = eng.load(st, b, o + 8, 8, 64)       # element count kept in the place of _M_finish
                a = v.single() if isinstance(v, Lin) else None
                if a is not None and a.kind in ('ld', 'uninit'):
                    a.lo = 0; a.w = 64
                return v
            if m == 'size':
                return [(st, size())]
            if m == 'empty':
                return [(st, eq0(size()))]
            if m in ('top', 'front', 'begin'):
                p = eng.op('top', [bg(), lin(b) + o], 'p', 1)
                t = eng.m.type(fn.d['ditypes'][0]) if fn.d.get('ditypes') else None
                if p.pt is None and t is not None:
                    p.pt = t.pointee()
                return [(st, lin(p))]
            if m in ('pop', 'push', 'push_back', 'pop_back'):
                n = size()
                f = eng.fresh('elems', 'p'); f.lo = 1
                if len(args) > 1:
                    vb, vo = eng.addr(st, args[1])
                    if vb is not None and not isinstance(vo, Lin):
                        e = st.mem.get((vb, vo))
                        if e is not None:
                            eng.escape(st, e[1])
                eng.store(st, b, o, 8, lin(f))
                eng.store(st, b, o + 8, 8, n - 1 if m.startswith('pop') else n + 1)
                return [(st, ZERO)]
            if m == 'operator[]':
                p = eng.op('elem', [bg(), eng.tolin(st, args[1])], 'p', 1)
                t = eng.m.type(fn.d['ditypes'][0]) if fn.d.get('ditypes') else None
                if p.pt is None and t is not None:
                    p.pt = t.pointee()
                return [(st, lin(p))]
            if m in ('vector', 'priority_queue', 'clear'):
                eng.havoc_obj(st, b, o, o + 24)
                if len(args) == 1:
                    eng.store(st, b, o + 8, 8, ZERO)
                return [(st, ZERO)]
        return None


def leaf_fields_sizes(m, t):
    from .engine import leaf_fields
    return [(f[1] if isinstance(f, tuple) else f.size, f[0] if isinstance(f, tuple) else f.off) for f in leaf_fields(m, t)]


def strip(d):
    from .ir import strip_template
    return strip_template(d).replace('[abi:cxx11]', '').replace('std::__cxx11::', '')


# ---- libc
def m_new(self, eng, st, i, fn, args, ctx):
    st.nheap += 1
    a = eng.atom('heap', (ctx.path, i.id, st.nheap), 'new@%s' % i.where().split(':')[-1], 'p', 1)
    a.meta = {'size': eng.tolin(st, args[0]) if args else None, 'where': i.where(), 'kind': fn.base, 'fn': ctx.fn}
    return [(st, lin(a))]


def m_strdup(self, eng, st, i, fn, args, ctx):
    r = m_new(self, eng, st, i, fn, [], ctx)
    return r


def m_free(self, eng, st, i, fn, args, ctx):
    b, o = eng.addr(st, args[0])
    if b is not None:
        eng.havoc_obj(st, b)
    return [(st, ZERO)]


def m_strlen(self, eng, st, i, fn, args, ctx):
    p = eng.tolin(st, args[0])
    a0 = p.single()
    if a0 is not None and a0.kind == 'g':
        s = eng.m.cstr(a0.key[1])
        if s is not None:
            return [(st, const(len(s)))]
    b, o = split_ptr(p)
    a = eng.op('strlen', [p, const(st.ver.get(b, 0) if b is not None else 0)], 64, 0, 1 << 62)
    return [(st, lin(a))]


def m_chr(self, eng, st, i, fn, args, ctx):
    p = eng.tolin(st, args[0])
    b, o = split_ptr(p)
    a = eng.op(fn.base, [p, eng.tolin(st, args[1]) if len(args) > 1 else ZERO, const(st.ver.get(b, 0) if b is not None else 0)], 'p', 0)
    return [(st, lin(a))]


def m_errno(self, eng, st, i, fn, args, ctx):
    a = eng.atom('g', ('errno',), 'errno', 'p', 1)
    eng.havoc_obj(st, a)
    return [(st, lin(a))]


def m_zero(self, eng, st, i, fn, args, ctx):
    return [(st, ZERO if i.ty == 'void' else self.ret(eng, st, i, fn))]


def m_guard(self, eng, st, i, fn, args, ctx):
    return [(st, self.ret(eng, st, i, fn))]


def m_alloc_exc(self, eng, st, i, fn, args, ctx):
    return m_new(self, eng, st, i, fn, args, ctx)


def m_gettimeofday(self, eng, st, i, fn, args, ctx):
    b, o = eng.addr(st, args[0])
    if b is not None:
        s = eng.fresh('now_sec', 64); s.lo = 0; s.hi = 1 << 40
        u = eng.fresh('now_usec', 64); u.lo = 0; u.hi = 999999
        eng.store(st, b, o, 8, lin(s)); eng.store(st, b, o + 8, 8, lin(u))
    return [(st, ZERO)]


TABLE = {
    'operator new': m_new, 'operator new[]': m_new, 'malloc': m_new, 'calloc': m_new, 'strdup': m_strdup,
    'operator delete': m_free, 'operator delete[]': m_free, 'free': m_free,
    'strlen': m_strlen, 'strchr': m_chr, 'strrchr': m_chr, 'strpbrk': m_chr, 'strstr': m_chr,
    '__errno_location': m_errno, 'llvm.stacksave.p0': m_zero, 'llvm.stackrestore.p0': m_zero,
    '__cxa_allocate_exception': m_alloc_exc, '__cxa_guard_acquire': m_guard, '__cxa_atexit': m_zero,
    'gettimeofday': m_gettimeofday, 'pthread_cond_signal': m_zero, 'pthread_cond_broadcast': m_zero,
    '__cxa_begin_catch': m_guard, '__cxa_end_catch': m_zero, '__cxa_free_exception': m_zero, 'std::__new_allocator::~__new_allocator': m_zero,
    'std::__new_allocator::__new_allocator': m_zero,
}
