"""C24, C25, C26: storage that has ended, resources released once on every path, values defined before use.
One pass per repository function; callees that are handed the caller's own storage are followed into."""
from .common import *
from ..shapes import par
from ..models import LOGGING

ALLOC = {'strdup': 'malloc', 'malloc': 'malloc', 'calloc': 'malloc', 'strndup': 'malloc', 'backtrace_symbols': 'malloc', 'operator new': 'new', 'operator new[]': 'new[]',
         'fopen': 'file', 'fopen64': 'file', 'fdopen': 'file', 'popen': 'pipe', 'opendir': 'dir', 'sqlite3_mprintf': 'sqlite', 'sqlite3_vmprintf': 'sqlite'}
FREE = {'free': 'malloc', 'operator delete': 'new', 'operator delete[]': 'new[]', 'fclose': 'file', 'pclose': 'pipe', 'closedir': 'dir', 'sqlite3_free': 'sqlite'}
WORD = {'malloc': 'heap block', 'new': 'object', 'new[]': 'array', 'file': 'file', 'pipe': 'pipe', 'dir': 'directory', 'sqlite': 'sqlite string'}
RES = set(ALLOC) | set(FREE) | {'regcomp', 'regfree'}
# C functions that keep a pointer they are given
KEEP = {'pthread_create', 'putenv', 'setvbuf', 'sigaction', 'atexit', '__cxa_atexit', 'signal', 'pthread_setspecific', 'openlog', '__cxa_throw', 'sqlite3_bind_text', 'sqlite3_busy_handler',
        'sqlite3_trace', 'sqlite3_exec', 'sigaltstack', 'setbuf'}
# C functions that only read the text they are given: function -> argument numbers
READS = {'strlen': (0,), 'strcmp': (0, 1), 'strcasecmp': (0, 1), 'strncmp': (0, 1), 'strncasecmp': (0, 1), 'atoi': (0,), 'atol': (0,), 'atof': (0,), 'strtol': (0,), 'strtoul': (0,), 'strtod': (0,), 'strtof': (0,),
         'fputs': (0,), 'puts': (0,), 'strdup': (0,), 'strcpy': (1,), 'strncpy': (1,), 'strcat': (0, 1), 'strncat': (0, 1), 'strchr': (0,), 'strrchr': (0,), 'strstr': (0, 1), 'strpbrk': (0, 1), 'strspn': (0, 1),
         'strcspn': (0, 1), 'strtok': (0,), 'strtok_r': (0,), 'unlink': (0,), 'fopen': (0, 1), 'fopen64': (0, 1), 'open': (0,), 'inet_pton': (1,), 'regexec': (0, 1), 'sqlite3_open': (0,), 'system': (0,), 'remove': (0,),
         'perror': (0,), 'gethostbyname': (0,), 'std::operator<<': (1,)}
STR = {'c_str', 'data'}
STREAMTEST = {'operator bool', 'operator!', 'fail', 'good', 'eof', 'bad', 'rdstate', 'exceptions', 'peek', 'gcount'}
ELEM = {'operator[]', 'at', 'front', 'back', 'c_str', 'data'}
OWNERS = ('std::basic_string', 'std::vector', 'std::list', 'std::map', 'std::set', 'std::deque', 'std::array', 'std::optional', 'std::unique_ptr')
# functions that may fail without writing their outputs: name -> output argument numbers (None: all after the format)
OUTS = {'stat': (1,), 'fstat': (1,), 'lstat': (1,), 'sigaction': (2,), 'vasprintf': (0,), 'asprintf': (0,), 'getsockopt': (3,), 'gethostbyname_r': (4, ), 'clock_gettime': (1,), 'getrlimit': (1,)}


def leafname(a):
    b = a.key[1]
    n = a.name
    return n[1:] if n.startswith('*') else n


def uninit_of(v, depth=0):
    """never written storage this exact value depends on"""
    out = []
    if depth > 6:
        return out
    if isinstance(v, Tup):
        return out
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, (tuple, Lin)) or hasattr(x, 't'):
                out += uninit_of(x, depth + 1)
        return out
    if isinstance(v, Lin):
        for a in v.t:
            if a.kind in ('uninit', 'undef'):
                out.append(a)
            elif a.kind == 'op' and a.key[1] not in ('cstr',):
                for x in a.key[2:]:
                    if isinstance(x, Lin):
                        out += uninit_of(x, depth + 1)
    return out


class MemRule(RuleBase):
    max_states = 64
    max_depth = 6
    budget = 150000
    unroll = 12

    def __init__(self, m, fn, interesting, own=None):
        super().__init__(); self.m = m; self.name = fn.short or fn.base; self.fn = fn; self.interesting = interesting; self.own = own
        self.hits = {'C24': {}, 'C25': {}, 'C26': {}}
        self.count = {'C24': 0, 'C25': 0, 'C26': 0}
        self.sites = {'C24': set(), 'C25': set(), 'C26': set()}
        self.stored = set(); self.light = False; self.watch = (); self.threads = []

    def snapshot(self):
        return {k: dict(v) for k, v in self.hits.items()}

    def restore(self, s):
        self.hits = {k: dict(v) for k, v in s.items()}

    def since(self, s):
        return {k: {x: y for x, y in v.items() if x not in s[k]} for k, v in self.hits.items()}

    def merge(self, d):
        for k, v in (d or {}).items():
            for x, y in v.items():
                self.hits[k].setdefault(x, y)

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items() if k[0] in ('live', 'freed', 're', 'text', 'wrote'))

    def hit(self, prop, st, what, i, msg):
        k = '%s/%s/%s' % (prop, self.name, what)
        if k not in self.hits[prop]:
            self.hits[prop][k] = (i.where() if i is not None else self.fn.where(), msg, core.pathlist(st))

    # ---- what is followed into
    def inline(self, eng, fn, ctx):
        return True

    def follow(self, eng, st, fn, args, ctx):
        if not fn.blocks or ctx.depth >= self.max_depth:
            return False
        if self.light and (fn.loops or ctx.depth >= 1) and fn.name not in self.interesting:
            return False
        if fn.base in ('Log::Log', 'Log::~Log', 'Log::get') or fn.base.startswith(('Mutex::', 'Signal::', 'ScopedLock::')):
            return False
        for v in args:
            if isinstance(v, Lin):
                b, o = eng.addr(st, st.res(v))
                if b is None:
                    continue
                if b.kind in ('alloca', 'heap') or b == self.own or b in self.watch or st.ts.get(('live', b)):
                    return True
        return fn.name in self.interesting and bool(fn.args is not None) and retptr(self.m, fn)

    def at_header(self, eng, st, hb):
        """what no variable can reach any more: released blocks are forgotten, live ones are lost"""
        ks = [k for k in st.ts if k[0] in ('freed', 'gone', 'live', 'text')]
        if not ks:
            return
        ctx = eng.loopctx
        work = []
        for i, v in st.env.items():
            if isinstance(i, tuple) or i in hb.livein:
                if isinstance(v, Lin):
                    work += list(st.res(v).t)
        for p in hb.phis:
            v = st.env.get(p.id)
            if isinstance(v, Lin):
                work += list(st.res(v).t)
        seen = reach(st, work, lambda b: b.kind != 'heap' or b == self.own)
        known = reach(st, work, lambda b: b == self.own or b.kind in ('param', 'g', 'obj', 'alloca') or b.kind == 'ld' and precise_atom(b))
        for k in ks:
            a = k[1]
            if a in (seen if k[0] == 'live' else known) or a == self.own:
                continue
            s = st.ts[k]
            if k[0] == 'live' and s in FREE.values():
                if a.kind == 'heap' and a.key[0] != ctx.path:
                    continue
                self.hit('C25', st, 'lost/%s' % a.meta.get('kind'), hb.insts[-1], '%s goes round the loop without releasing %s' % (self.name, a.name))
            del st.ts[k]

    # ---- uses of values
    def use(self, eng, st, i, v, how, ctx):
        u = uninit_of(st.rescond(v) if isinstance(v, tuple) and not isinstance(v, Tup) else st.res(v) if isinstance(v, Lin) else v)
        self.count['C26'] += 1
        for a in u:
            base = a.key[1] if a.kind == 'uninit' else None
            if base is not None and isinstance(a.key[2], Lin) and base in self.stored:
                continue
            if base is not None and base.kind == 'alloca' and base.meta and not base.meta.get('var') and base.pt is None:
                # a compiler temporary (padding of an aggregate, a cleanup flag of the exception machinery)
                continue
            nm = leafname(a)
            where = 'the object' if base is not None and base == self.own else nm
            if base is not None and base == self.own:
                p = eng.fieldpath(base, a.key[2])
                nm = '%s::%s' % p[-1] if p else nm
            elif base is not None and base.kind == 'heap':
                p = eng.fieldpath(base, a.key[2])
                nm = '%s::%s' % p[-1] if p else 'an allocated block'
            self.hit('C26', st, 'unset/%s' % nm.split('[')[0], i, '%s is %s although nothing has set it on this path' % (nm, how))

    def on_branch(self, eng, st, i, cond, taken):
        self.use(eng, st, i, cond, 'tested', None)

    def on_access(self, eng, st, i, kind, base, off, size, val, ctx):
        if base is not None:
            d = st.ts.get(('freed', base))
            self.count['C24'] += 1
            if d:
                self.hit('C24', st, 'freed/%s' % base.name.split('@')[0], i, '%s is %s after %s' % (base.name, 'read' if kind == 'load' else 'written', d))
            d = st.ts.get(('gone', base))
            if d:
                self.hit('C24', st, 'gone/%s' % base.name.split('@')[0], i, '%s is %s after %s' % (base.name, 'read' if kind == 'load' else 'written', d))
            if base.kind == 'uninit':
                self.use(eng, st, i, lin(base), 'used as an address', ctx)
        if kind == 'store' and base is not None:
            self.stored.add(base)
            if base in self.watch:
                st.ts[('wrote', base)] = True
        if base is not None and base == self.own:
            self.virgin(eng, st, i, off, size if isinstance(size, int) else 1, kind == 'load')
        if isinstance(off, Lin):
            self.use(eng, st, i, off, 'used as an index', ctx)
        if kind == 'store' and base is not None and base.kind not in ('alloca', 'heap', 'obj') and isinstance(val, Lin):
            self.use(eng, st, i, val, 'stored in an object that outlives the function', ctx)

    def virgin(self, eng, st, i, off, size, read, by=None):
        """arrays of the object that nothing has written yet"""
        for k in [k for k in st.ts if k[0] == 'virgin']:
            if isinstance(off, int) and not (k[1] <= off < k[1] + k[2]):
                continue
            if read and isinstance(off, int):
                p = eng.fieldpath(self.own, k[1])
                self.hit('C26', st, 'unset/%s' % ('%s::%s' % p[-1] if p else 'array'), i, '%s is read%s although nothing has set it since the object was made' % ('%s::%s' % p[-1] if p else 'an array', ' by ' + by if by else ''))
            del st.ts[k]

    def dead(self, eng, st, i, v, how):
        """value v may not refer to storage that has ended"""
        if not isinstance(v, Lin):
            return
        for a in st.res(v).t:
            d = st.ts.get(('freed', a)) or st.ts.get(('gone', a))
            if d:
                self.hit('C24', st, 'dead/%s' % a.name.split('@')[0], i, 'a pointer to %s is %s after %s' % (a.name, how, d))

    # ---- calls
    def on_call(self, eng, st, i, fn, base, args, ctx):
        if fn is None or base is None:
            for v in args:
                self.use(eng, st, i, v, 'passed to a function', ctx)
                self.keep(eng, st, v)
            return None
        if fn.dem.startswith('llvm.'):
            if fn.dem.startswith(('llvm.va_start', 'llvm.va_copy')):
                b, o = eng.addr(st, args[0])
                if b is not None:
                    eng.havoc_obj(st, b)
                return [(st, ZERO)]
            if fn.dem.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                for k, v in enumerate(args[:2]):
                    b, o = eng.addr(st, v) if isinstance(v, Lin) else (None, 0)
                    if b is not None and b == self.own:
                        self.virgin(eng, st, i, o if isinstance(o, int) else None, 1, k == 1 and 'memset' not in fn.dem, 'a copy')
            if fn.dem.startswith(('llvm.memcpy', 'llvm.memmove')):
                for v in args[:2]:
                    b, o = eng.addr(st, v)
                    if b is not None and (st.ts.get(('freed', b)) or st.ts.get(('gone', b))):
                        self.hit('C24', st, 'freed/%s' % b.name.split('@')[0], i, '%s is copied after %s' % (b.name, st.ts.get(('freed', b)) or st.ts.get(('gone', b))))
            return None
        if base.startswith('__clang_call') or base in ('__cxa_begin_catch', '__cxa_end_catch', '__cxa_get_exception_ptr', '_Unwind_Resume', '__cxa_rethrow'):
            return None
        short = base.split('::')[-1]
        dtor = short.startswith('~')
        if self.watch:
            for v in args:
                b, o = eng.addr(st, v) if isinstance(v, Lin) else (None, 0)
                if b is not None and b in self.watch and not (fn.repo and self.follow(eng, st, fn, args, ctx)):
                    st.ts[('wrote', b)] = True
        # values handed over
        for k, v in enumerate(args):
            byref = False
            if i.ops[k][0] == 'x':
                continue
            self.use(eng, st, i, v, 'passed to %s' % (fn.short or base), ctx)
            if not (base in FREE or dtor):
                self.dead(eng, st, i, v, 'passed to %s' % (fn.short or base))
        for k in READS.get(base, ()):
            if k < len(args):
                b, o = eng.addr(st, args[k])
                if b is not None and b.kind == 'alloca' and not isinstance(o, Lin) and not st.ver.get(b) and not any(x[0] is b for x in st.mem) and not any(f[0] is b for f in st.fills) \
                        and b.meta and b.meta.get('size', 0) >= 1 and not st.ts.get(('_esc', b)) and not st.ts.get(('set', b)):
                    self.hit('C26', st, 'text/%s' % b.name, i, '%s reads the text in %s, which nothing has written on this path' % (base, b.name))
        if self.own is not None:
            for k, v in enumerate(args):
                b, o = eng.addr(st, v) if isinstance(v, Lin) else (None, 0)
                if b is not None and b == self.own and not (fn.repo and self.follow(eng, st, fn, args, ctx)) and not (base.startswith('std::') and k == 0):
                    self.virgin(eng, st, i, o if isinstance(o, int) and not fn.repo else None, 1, k in READS.get(base, ()) or (base, k) in (('sendto', 4), ('connect', 1), ('bind', 1), ('inet_ntop', 1), ('memcmp', 0), ('memcmp', 1)), base)
        # resources
        if base in ALLOC and not fn.repo:
            return self.alloc(eng, st, i, fn, base, args, ctx)
        if base in FREE and not fn.repo:
            return self.free(eng, st, i, fn, base, args, ctx)
        if base == 'regcomp':
            return self.regcomp(eng, st, i, fn, args)
        if base in ('regfree', 'regexec', 'regerror'):
            return self.regop(eng, st, i, fn, base, args)
        if base in ('strsep',):
            return self.strsep(eng, st, i, fn, args)
        if base in ('sscanf', 'fscanf', '__isoc99_sscanf', '__isoc23_sscanf', '__isoc99_fscanf'):
            return self.scanf(eng, st, i, fn, args)
        if base in OUTS and not fn.repo:
            return self.outs(eng, st, i, fn, base, args)
        if base in ('strtok', 'strtok_r', 'strchr', 'strrchr', 'strstr', 'strpbrk', 'strcpy', 'strncpy', 'strcat', 'index', 'rindex', 'memchr', 'stpcpy', 'strncat') and not fn.repo:
            b, o = eng.addr(st, args[0])
            if b is not None and b.kind in ('heap', 'alloca'):
                if base in ('strcpy', 'strncpy', 'strcat', 'strncat'):
                    self.wrote(eng, st, b)
                    return [(st, args[0])]
                a = eng.fresh('offset', 64); a.lo = 0; a.hi = 1 << 40
                if base in ('strtok_r',):
                    sb, so = eng.addr(st, args[2])
                    if sb is not None:
                        eng.havoc_obj(st, sb)
                s2 = st.copy()
                st.note((i.where(), '%s finds nothing' % base))
                return [(st, ZERO), (s2, lin(b) + lin(a))]
            return None
        if base.startswith('std::') or base.startswith('__gnu_cxx::'):
            return self.stl(eng, st, i, fn, base, short, args, ctx)
        if fn.repo:
            if fn.name in noreturn(self.m):
                return []
            if self.follow(eng, st, fn, args, ctx):
                return None
            s2 = None
            if fn.name in throwing(self.m) and any(s in FREE.values() for k, s in st.ts.items() if k[0] == 'live'):
                s2 = st.copy(); s2.note((i.where(), 'an exception leaves %s' % (fn.short or base)))
            for v in args:
                self.keep(eng, st, v, deep=True)
            r = cutcall(eng, st, i, fn, args)
            return r + ([('throw', s2)] if s2 is not None else [])
        # other C functions
        if base in KEEP:
            if base == 'pthread_create' and len(args) > 3:
                b, o = eng.addr(st, args[3]); t, to = eng.addr(st, args[2])
                if b is not None and st.ts.get(('live', b)) in FREE.values() and t is not None and t.kind == 'g' and t.key[1] in self.m.funcs:
                    self.threads.append((t.key[1], st.ts[('live', b)], i.where()))
            for v in args:
                self.keep(eng, st, v, deep=True)
        else:
            for v in args:
                if isinstance(v, Lin):
                    b, o = eng.addr(st, st.res(v))
                    if b is not None and b.kind in ('alloca', 'heap'):
                        # the address of a variable that holds a block: the block may be kept or replaced
                        if not st.ts.get(('live', b)):
                            self.keep(eng, st, v, deep=True)
                        self.wrote(eng, st, b, short if base in ('snprintf', 'sprintf', 'vsnprintf') else None)
            if i.ty == 'ptr' or i.ty == 'void' or i.w:
                return None
        return None

    def wrote(self, eng, st, b, why=None):
        st.ts[('set', b)] = True
        eng.havoc_obj(st, b)

    def keep(self, eng, st, v, deep=False):
        """unknown code may keep the block v points to"""
        if not isinstance(v, Lin):
            return
        for a in st.res(v).t:
            if ('live', a) in st.ts and st.ts[('live', a)] != 'kept':
                st.ts[('live', a)] = 'kept'
            if deep:
                for (b, o), (sz, x) in list(st.mem.items()):
                    if b is a and isinstance(x, Lin):
                        for y in st.res(x).t:
                            if ('live', y) in st.ts:
                                st.ts[('live', y)] = 'kept'
            if deep and ('re', a, 0) in st.ts:
                st.ts[('re', a, 0)] = 'kept'

    def alloc(self, eng, st, i, fn, base, args, ctx):
        fam = ALLOC[base]
        if base == 'operator new' and len(args) > 1 and 'void*' in fn.dem:
            return [(st, args[1])]                       # placement
        st.nheap += 1
        a = eng.atom('heap', (ctx.path, i.id, st.nheap), 'the %s of %s' % (WORD[fam], i.where()), 'p', 1)
        a.meta = {'size': None, 'where': i.where(), 'kind': base, 'fn': ctx.fn}
        self.sites['C25'].add(i.where())
        st.ts[('live', a)] = fam
        if base not in ('malloc', 'operator new', 'operator new[]'):
            eng.havoc_obj(st, a)                         # has content
        st.note((i.where(), '%s' % base))
        out = [(st, lin(a))]
        if fam in ('file', 'pipe', 'dir'):
            s2 = st.copy(); del s2.ts[('live', a)]
            s2.note((i.where(), '%s fails' % base))
            out.append((s2, ZERO))
        return out

    def free(self, eng, st, i, fn, base, args, ctx):
        fam = FREE[base]
        v = st.res(eng.tolin(st, args[0]))
        ret = [(st, ZERO if i.ty == 'void' else eng.retval(i, fn))]
        self.sites['C25'].add(i.where())
        if not v.t:
            if base == 'fclose':
                self.hit('C25', st, 'null', i, 'fclose is given no file')
            return ret
        b, o = eng.addr(st, v)
        if b is None:
            return ret
        if b.kind in ('alloca', 'g', 'obj') and b.key[1:] != ():
            if b.kind == 'alloca' or b.kind == 'g' and b.key[1] in self.m.globals:
                self.hit('C25', st, 'notheap/%s' % b.name, i, '%s is given %s, which was not allocated' % (base, b.name))
            return ret
        zero = o == 0 if not isinstance(o, Lin) else not st.res(o).t and st.res(o).c == 0
        live = st.ts.get(('live', b))
        if not zero:
            if live in FREE.values() and b.kind == 'heap':
                if not isinstance(o, Lin) or all(x.kind in ('fresh', 'ret') for x in o.t):
                    self.hit('C25', st, 'inside/%s' % base, i, '%s is given an address inside %s instead of its start' % (base, b.name))
                st.ts[('live', b)] = 'kept'
            return ret
        d = st.ts.get(('freed', b))
        if d:
            self.hit('C25', st, 'twice/%s' % base, i, '%s releases %s again after %s' % (base, b.name, d))
        elif live in set(FREE.values()) and live != fam:
            self.hit('C25', st, 'family/%s' % base, i, '%s releases %s, which came from %s' % (base, b.name, {v: k for k, v in ALLOC.items()}[live]))
        st.ts.pop(('live', b), None)
        # what the block itself held is lost with it
        for (x, oo), (sz, y) in list(st.mem.items()):
            if x is b and isinstance(y, Lin):
                for z in st.res(y).t:
                    if st.ts.get(('live', z)) in FREE.values():
                        pass
        st.ts[('freed', b)] = '%s at %s' % (base, i.where())
        st.note((i.where(), '%s releases %s' % (base, b.name)))
        return ret

    def rekey(self, eng, st, v):
        b, o = eng.addr(st, v)
        return (b, o if not isinstance(o, Lin) else None) if b is not None else (None, None)

    def regcomp(self, eng, st, i, fn, args):
        b, o = self.rekey(eng, st, args[0])
        self.sites['C25'].add(i.where())
        if b is None or o is None:
            return None
        if st.ts.get(('re', b, o)) == 'live':
            self.hit('C25', st, 'recompiled/%s' % b.name, i, 'a regular expression is compiled into %s while the previous one has not been released' % b.name)
        eng.havoc_obj(st, b, o, o + 64) if b.kind != 'alloca' else eng.havoc_obj(st, b)
        s2 = st.copy()
        st.ts[('re', b, o)] = 'live'; st.note((i.where(), 'regcomp succeeds'))
        s2.ts[('re', b, o)] = 'failed'; s2.note((i.where(), 'regcomp fails'))
        r = eng.fresh('regcomp_error', 32); r.lo = 1; r.hi = 20
        return [(st, ZERO), (s2, lin(r))]

    def regop(self, eng, st, i, fn, base, args):
        k = 0 if base != 'regerror' else 1
        b, o = self.rekey(eng, st, args[k])
        if b is None or o is None:
            return None
        s = st.ts.get(('re', b, o))
        self.sites['C25'].add(i.where())
        if base == 'regfree':
            if s == 'freed':
                self.hit('C25', st, 'retwice/%s' % b.name, i, 'the regular expression in %s is released twice' % b.name)
            elif s is None and b.kind == 'alloca':
                self.hit('C25', st, 'renever/%s' % b.name, i, 'a regular expression that was never compiled is released')
            if s != 'failed':
                st.ts[('re', b, o)] = 'freed'
            return [(st, ZERO)]
        if base == 'regexec':
            if s == 'freed':
                self.hit('C24', st, 'reused/%s' % b.name, i, 'the regular expression in %s is used after it was released' % b.name)
            elif s == 'failed' or s is None and b.kind == 'alloca' and not st.ver.get(b):
                self.hit('C26', st, 'reunset/%s' % b.name, i, 'the regular expression in %s is used although it was not compiled' % b.name)
            return [(st, eng.retval(i, fn))]
        for v in args[2:3]:
            bb, oo = eng.addr(st, v)
            if bb is not None:
                eng.havoc_obj(st, bb); st.ts[('set', bb)] = True
        return [(st, eng.retval(i, fn))]

    def strsep(self, eng, st, i, fn, args):
        b, o = eng.addr(st, args[0])
        if b is None or isinstance(o, Lin):
            return None
        p = st.res(eng.tolin(st, eng.load(st, b, o, 8, 'p')))
        if not p.t and p.c == 0:
            return [(st, ZERO)]
        s2 = st.copy()
        a = eng.fresh('token', 64); a.lo = 1; a.hi = 1 << 40
        blk, off = split_ptr(p)
        eng.store(st, b, o, 8, ZERO); st.note((i.where(), 'strsep returns the last field'))
        eng.store(s2, b, o, 8, p + lin(a)); s2.note((i.where(), 'strsep moves the pointer past a field'))
        return [(st, p), (s2, p)]

    def scanf(self, eng, st, i, fn, args):
        """each result: the first n conversions are stored, the rest keep what they had"""
        outs = []
        # string destinations (%s) and numbers alike become unknown when converted
        for n in range(0, len(args) - 2 + 1):
            s = st.copy()
            for k in range(n):
                b, o = eng.addr(s, args[2 + k])
                if b is None:
                    continue
                if isinstance(o, Lin) or b.kind != 'alloca' or b.meta.get('size', 0) > 8:
                    eng.havoc_obj(s, b)
                else:
                    sz = b.meta['size']
                    eng.store(s, b, 0, sz, lin(eng.fresh('scanned', 8 * sz)))
                s.ts[('set', b)] = True
            s.note((i.where(), 'converts %d' % n))
            outs.append((s, const(n)))
            if n == 0:
                s = st.copy(); s.note((i.where(), 'meets the end of the input'))
                outs.append((s, const(-1)))
        return outs

    def outs(self, eng, st, i, fn, base, args):
        s2 = st.copy()
        for k in OUTS[base]:
            if k >= len(args):
                continue
            b, o = eng.addr(st, args[k])
            if b is None:
                continue
            eng.havoc_obj(st, b); st.ts[('set', b)] = True
            if base in ('vasprintf', 'asprintf') and not isinstance(o, Lin):
                st.nheap += 1
                a = eng.atom('heap', ('asprintf', i.where(), st.nheap), 'the text of %s' % i.where(), 'p', 1)
                a.meta = {'size': None, 'where': i.where(), 'kind': base}
                st.ts[('live', a)] = 'malloc'; st.newver(a)
                eng.store(st, b, o, 8, lin(a))
        r = eng.fresh('length', 32); r.lo = 0; r.hi = 1 << 30
        s2.note((i.where(), '%s fails' % base))
        return [(st, lin(r) if base.endswith('printf') else ZERO), (s2, const(-1))]

    def stl(self, eng, st, i, fn, base, short, args, ctx):
        sret = bool(fn.args and fn.args[0].get('sret'))
        me = args[1] if sret and len(args) > 1 else args[0] if args else None
        b, o = eng.addr(st, me) if isinstance(me, Lin) else (None, 0)
        cls = base.rsplit('::', 1)[0].replace('::__cxx11', '')
        inst = fn.args and (fn.args[1] if sret and len(fn.args) > 1 else fn.args[0])
        member = bool(inst) and (inst.get('name') or '') == 'this' or cls in OWNERS
        local = b is not None and b.kind == 'alloca' and not isinstance(o, Lin)
        if short.startswith('~') and b is not None and not isinstance(o, Lin):
            for k in [k for k in st.ts if k[0] == 'text']:
                if st.ts[k] == (b, o):
                    st.ts[('gone', k[1])] = 'the %s it belongs to was destroyed at %s' % (cls.split('::')[-1].replace('basic_', ''), i.where())
            eng.havoc_obj(st, b, o, o + 32) if b.kind != 'alloca' else eng.havoc_obj(st, b)
            return [(st, ZERO)]
        if cls in OWNERS and short in ELEM and i.ty == 'ptr' and b is not None and not isinstance(o, Lin):
            if local or b.kind == 'heap':
                ver = st.ver.get(b, 0)
                a = eng.atom('op', ('into', i.id if short not in STR else 'c', b, o, ver, ctx.path if short not in STR else ()), 'the contents of %s' % b.name, 'p', 1)
                a.lo = 1
                st.ts[('text', a)] = (b, o)
                self.sites['C24'].add(i.where())
                return [(st, lin(a))]
        if short.startswith('operator>>') and len(args) > 1 and isinstance(args[1], Lin) and i.ty == 'ptr':
            # nothing to extract: the destination keeps what it had
            x, xo = eng.addr(st, st.res(args[1]))
            if x is not None and x.kind == 'alloca' and x.meta and 0 < x.meta.get('size', 0) <= 8 and not st.ts.get(('set', x)) and not st.ver.get(x) and not any(z[0] is x for z in st.mem) \
                    and not any(z[0] is x for z in st.fills) and not any(y.split('::')[-1] in STREAMTEST for y in calls_of(self.m, i.fn if hasattr(i, 'fn') else ctx.fn)):
                s2 = st.copy(); s2.note((i.where(), 'finds nothing to extract'))
                eng.havoc_obj(st, x); st.ts[('set', x)] = True
                return [(st, args[0]), (s2, args[0])]
        # containers and streams may keep what a variable holds
        for k, v in enumerate(args):
            if not isinstance(v, Lin):
                continue
            x, xo = eng.addr(st, st.res(v))
            if x is None:
                continue
            if x.kind == 'alloca':
                self.keep(eng, st, lin(x), deep=True)
            elif ('live', x) in st.ts and k > 0 and not (fn.dem.find('char const*') >= 0):
                self.keep(eng, st, v)
        if local and not fn.dem.endswith(' const') and not (inst and inst.get('sret')):
            st.ts[('set', b)] = True
        if member and b is not None and not isinstance(o, Lin) and not fn.dem.endswith(' const'):
            eng.havoc_obj(st, b, o, o + 32) if b.kind != 'alloca' else eng.havoc_obj(st, b)
        if sret and args:
            rb, ro = eng.addr(st, args[0])
            if rb is not None:
                eng.havoc_obj(st, rb)
        if i.ty == 'void':
            for v in args:
                x, xo = eng.addr(st, v) if isinstance(v, Lin) else (None, 0)
                if x is not None and x.kind == 'alloca':
                    eng.havoc_obj(st, x)
        outs = []
        if can_throw(fn, base, i) and any(s in FREE.values() for k, s in st.ts.items() if k[0] == 'live'):
            pass
        if short in ('move', 'forward', 'addressof') and i.ty == 'ptr' and args:
            return [(st, args[0])]
        if (short.startswith('operator<<') or short in ('operator=', 'operator+=', 'append', 'assign', 'operator++', 'operator--')) and i.ty == 'ptr' and args and not sret:
            return [(st, args[0])]
        if i.ty == 'void':
            return [(st, ZERO)]
        for v in args:
            x, xo = eng.addr(st, v) if isinstance(v, Lin) else (None, 0)
            if x is not None and x.kind == 'alloca' and not fn.dem.endswith(' const'):
                eng.havoc_obj(st, x)
        return [(st, eng.retval(i, fn))]


def reach(st, work, root):
    seen = set()
    work = list(work)
    for (b, o), (sz, x) in st.mem.items():
        if root(b) and isinstance(x, Lin):
            work += list(st.res(x).t)
            work.append(b)
    while work:
        a = work.pop()
        if a in seen:
            continue
        seen.add(a)
        if a.kind == 'op':
            for x in a.key[2:]:
                if isinstance(x, Lin):
                    work += list(x.t)
        elif a.kind == 'ld':
            work.append(a.key[1])
        for (b, o), (sz, x) in st.mem.items():
            if b is a and isinstance(x, Lin):
                work += list(st.res(x).t)
    return seen


def retptr(m, fn):
    t = (fn.d.get('ditypes') or [None])[0]
    t = m.type(t) if t is not None else None
    return t is not None and t.pointee() is not None and not fn.args is None


def finish(eng, rule, fn, exits):
    for e in exits:
        st = e.st
        if e.kind == 'noret':
            continue
        val = e.val
        if e.kind == 'ret' and isinstance(val, Lin):
            v = st.res(val)
            b, o = eng.addr(st, v)
            rule.count['C24'] += 1
            if b is not None and b.kind == 'alloca':
                rule.hit('C24', st, 'local/%s' % b.name, e.inst, '%s returns the address of its own variable %s' % (rule.name, b.name))
            for a in v.t:
                t = st.ts.get(('text', a))
                if t is not None and t[0].kind == 'alloca':
                    rule.hit('C24', st, 'text/%s' % t[0].name, e.inst, '%s returns a pointer into its own object %s' % (rule.name, t[0].name))
                d = st.ts.get(('freed', a)) or st.ts.get(('gone', a))
                if d:
                    rule.hit('C24', st, 'deadret/%s' % a.name.split('@')[0], e.inst, '%s returns a pointer to %s after %s' % (rule.name, a.name, d))
            rule.use(eng, st, e.inst, val, 'returned', None)
        # pointers left behind in objects that live on
        for (b, o), (sz, x) in st.mem.items():
            if b.kind in ('alloca', 'heap') or not isinstance(x, Lin) or sz != 8:
                continue
            if b.kind == 'g' and b.key[1] == 'errno':
                continue
            x = st.res(x)
            xb, xo = split_ptr(x)
            if xb is not None and xb.kind == 'alloca' and b != rule.own:
                rule.hit('C24', st, 'stored/%s' % xb.name, e.inst, '%s leaves the address of its own variable %s in %s' % (rule.name, xb.name, eng._ldname(b, o)))
            for a in x.t:
                d = st.ts.get(('gone', a))
                if d:
                    rule.hit('C24', st, 'storedtext/%s' % a.name, e.inst, '%s leaves a pointer to %s in %s although %s' % (rule.name, a.name, eng._ldname(b, o), d))
        # resources
        live = [k[1] for k, s in st.ts.items() if k[0] == 'live' and s in FREE.values()]
        if live:
            seen = reach(st, list(st.res(val).t) if isinstance(val, Lin) else [], lambda b: b.kind not in ('alloca', 'heap') or b == rule.own)
            for a in live:
                if a not in seen and a != rule.own:
                    rule.hit('C25', st, 'lost/%s' % a.meta.get('kind'), e.inst, '%s leaves %s without releasing %s' % (rule.name, 'by an exception' if e.kind == 'throw' else 'here', a.name))
        for k, s in st.ts.items():
            if k[0] == 're' and s == 'live' and k[1].kind == 'alloca':
                rule.hit('C25', st, 'relost/%s' % k[1].name, e.inst, '%s leaves without releasing the regular expression compiled into %s' % (rule.name, k[1].name))


LIMIT = 25


def execute(m, f, interesting, own=None, args=None, st=None, watch=()):
    """run f (again without following loops of callees if that is too much); -> rule, exits or None, reason"""
    for light in (False, True):
        rule = MemRule(m, f, interesting, own)
        rule.light = light
        eng = Engine(m, rule, Models())
        eng.LIMIT = LIMIT
        try:
            s = st.copy() if st is not None else State()
            a = args(eng) if args is not None else eng.params(f)
            rule.watch = [a[k].single() for k in watch]
            ex = eng.run(f, s, a)
        except Budget as e:
            why = str(e)
            continue
        rule.inlined = set(eng.inlined); rule.loops = eng.loops_done
        finish(eng, rule, f, ex)
        return rule, eng, ex, None
    rule.inlined = set(); rule.loops = 0
    return rule, eng, None, why


def throwing(m):
    """repository functions that throw, or pass on, an explicit exception"""
    r = getattr(m, '_throwing', None)
    if r is not None:
        return r
    r = m._throwing = set()
    ch = True
    while ch:
        ch = False
        for f in m.repo_funcs():
            if f.name in r or not f.blocks or f.d.get('nounwind') or f.base in LOGGING or f.base.startswith('Log::') or f.base == 'addAlarm':
                continue                   # reporting a message is not taken as a source of exceptions
            for b in f.blocks:
                for i in b.insts:
                    if i.op not in ('call', 'invoke') or i.d['callee'][0] != 'g':
                        continue
                    g = m.funcs.get(i.d['callee'][1])
                    if g is None:
                        continue
                    if g.base in ('__cxa_throw', '__cxa_rethrow') or g.name in r:
                        if i.op == 'invoke' and catches(f, i.d['unwind']):
                            continue
                        r.add(f.name); ch = True
    return r


def catches(f, bid):
    """the landing pad leads into a handler"""
    seen = set(); work = [bid]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        bl = f.bmap[b]
        for i in bl.insts:
            if i.op in ('call', 'invoke') and i.d['callee'][0] == 'g' and i.d['callee'][1] in ('__cxa_begin_catch', '__clang_call_terminate'):
                return True
        t = bl.insts[-1]
        if t.op == 'br':
            work += t.d['succ']
        elif t.op == 'invoke':
            work += [t.d['normal']]
    return False


def noreturn(m):
    """repository functions that never return"""
    r = getattr(m, '_noret', None)
    if r is not None:
        return r
    r = m._noret = set()
    ch = True
    while ch:
        ch = False
        for f in m.repo_funcs():
            if f.name in r or not f.blocks:
                continue
            seen = set(); work = [f.entry.id]; ret = False
            while work and not ret:
                b = work.pop()
                if b in seen:
                    continue
                seen.add(b)
                stop = False
                for i in f.bmap[b].insts:
                    if i.op in ('call', 'invoke'):
                        g = m.funcs.get(i.d['callee'][1]) if i.d['callee'][0] == 'g' else None
                        if i.d.get('noret') or g is not None and (g.noret or g.name in r):
                            stop = True
                            if i.op == 'invoke':
                                work.append(i.d['unwind'])
                            break
                if stop:
                    continue
                t = f.bmap[b].insts[-1]
                if t.op in ('ret', 'resume'):
                    ret = True
                elif t.op == 'br':
                    work += t.d['succ']
                elif t.op == 'switch':
                    work += [x[1] for x in t.d['cases']] + [t.d['default']]
                elif t.op == 'invoke':
                    work += [t.d['unwind'], t.d['normal']]
            if not ret:
                r.add(f.name); ch = True
    return r


def calls_of(m, f):
    for b in f.blocks:
        for i in b.insts:
            if i.op in ('call', 'invoke') and i.d['callee'][0] == 'g':
                g = m.funcs.get(i.d['callee'][1])
                if g is not None:
                    yield g.base


# ---- objects as their constructors leave them
SKIPREC = ('std::', '__gnu_cxx::')


def leaves(m, t, off=0, depth=0):
    """(offset, size, type, array size) of the plain members a constructor has to set"""
    out = []
    for f in t.fields():
        s = f.strip()
        if s is None:
            continue
        if f.name.startswith('_vptr'):
            continue
        if s.is_record():
            q = s.qual()
            if q.startswith(SKIPREC) or s.tag == 'union_type' or s.name.startswith('pthread') or s.name.startswith('basic_'):
                continue
            if depth < 5:
                out += leaves(m, s, off + f.off, depth + 1)
        elif s.tag == 'array_type':
            out.append((off + f.off, s.size, s, s.size))
        elif s.tag in ('reference_type', 'rvalue_reference_type'):
            continue
        elif s.size and s.size <= 8:
            out.append((off + f.off, s.size, s, 0))
    return out


def poison(eng, st, own, t):
    for off, size, ty, arr in leaves(eng.m, t):
        if arr:
            st.ts[('virgin', off, arr)] = True
            continue
        k = (own, off)
        w = 'p' if ty.is_ptr() else 8 * size
        a = eng.atom('uninit', (own, off, size, 0), eng._ldname(own, off), w)
        if a.ty is None:
            eng.settype(a, ty)
            eng._rng(a, w)
        st.mem[k] = (size, lin(a))


def unset(st, own):
    u = {('virgin',) + k[1:] for k in st.ts if k[0] == 'virgin'}
    for (b, o), (sz, v) in st.mem.items():
        if b is own and isinstance(v, Lin):
            a = st.res(v).single()
            if a is not None and a.kind == 'uninit' and a.key[1] is own and a.key[2] == o:
                u.add((o, sz))
    return frozenset(u)


def classes_with_ctor(m):
    out = {}
    for f in m.repo_funcs():
        if not f.blocks or not is_ctor(f):
            continue
        rec, me = method_info(m, f)
        if rec is None:
            continue
        if 'C2E' in f.name and m.funcs.get(f.name.replace('C2E', 'C1E')) is not None and m.funcs[f.name.replace('C2E', 'C1E')].blocks:
            pass
        out.setdefault(rec.id, (rec, []))[1].append(f)
    return out


def bases(t):
    r = [t]
    for f in t.fields():
        if f.tag == 'inheritance' and f.strip() is not None:
            r += bases(f.strip())
    return r


def interesting(m):
    return {f.name for f in m.repo_funcs() if set(calls_of(m, f)) & RES}


def thisarg(f):
    k = 1 if f.args and f.args[0].get('sret') else 0
    return k if k < len(f.args) and (f.args[k].get('name') or '') == 'this' else None


def hits(rule, via=''):
    return {p: {k: (w, msg + via, path) for k, (w, msg, path) in h.items()} for p, h in rule.hits.items()}


def out(name, rule, why, via=''):
    if why:
        return {'name': name, 'und': why, 'hits': {}, 'count': {}, 'sites': {}, 'fns': []}
    return {'name': name, 'und': None, 'hits': hits(rule, via), 'count': dict(rule.count), 'sites': {k: sorted(v) for k, v in rule.sites.items()}, 'fns': sorted(rule.inlined)}


def function(m, f, inter, dtors):
    """one function; and, if it leaves a block with its object, the destructor of that object"""
    rule, eng, ex, why = execute(m, f, inter)
    r = [out(f.dem, rule, why)]
    for tn, fam, where in sorted(set(rule.threads)):
        g = m.funcs[tn]
        if not g.blocks or len(g.args) != 1:
            continue
        s = State()
        h = eng.atom('heap', ('handed', tn), 'the %s handed over at %s' % (WORD[fam], where), 'p', 1)
        h.meta = {'size': None, 'where': where, 'kind': 'handed'}
        s.ts[('live', h)] = fam; s.newver(h)
        r2, e2, ex2, y2 = execute(m, g, inter, None, lambda x: [lin(h)], s)
        r.append(out('%s started by %s' % (g.dem, f.dem), r2, y2))
    rec, me = method_info(m, f)
    k = thisarg(f)
    if why or rec is None or k is None or is_dtor(f) or rec.id not in dtors:
        return r
    this = eng.params(f)[k].single()
    d = dtors[rec.id]
    seen = set()
    for e in ex:
        if e.kind != 'ret':
            continue
        st = e.st
        mine = {}
        for (b, o), (sz, x) in st.mem.items():
            if b is this and isinstance(x, Lin):
                for y in st.res(x).t:
                    if st.ts.get(('live', y)) in FREE.values():
                        mine[o] = y
        res = [kk for kk, v in st.ts.items() if kk[0] == 're' and kk[1] is this and v == 'live']
        sig = (tuple(sorted((str(o), y.meta.get('where')) for o, y in mine.items())), tuple(kk[2] for kk in res))
        if not mine and not res or sig in seen:
            continue
        seen.add(sig)
        s = st.copy(); s.env = {}
        r2, e2, ex2, y2 = execute(m, d, inter, None, lambda g: [lin(this)], s)
        if y2:
            r.append(out(d.dem, r2, y2)); continue
        if not r2.loops:
            for x in ex2:
                if x.kind == 'ret':
                    for o, y in mine.items():
                        if x.st.ts.get(('live', y)) in FREE.values() and x.st.ts.get(('live', y)) == s.ts.get(('live', y)):
                            p = e2.fieldpath(this, o)
                            r2.hit('C25', x.st, 'member/%s' % (p[-1][1] if p else o), x.inst, '%s does not release what %s left in %s' % (d.base, f.base, '::'.join(p[-1]) if p else 'the object'))
                    for kk in res:
                        if x.st.ts.get(kk) == 'live':
                            r2.hit('C25', x.st, 'regex/%s' % kk[2], x.inst, '%s does not release the regular expression %s compiled' % (d.base, f.base))
        r2.name = f.short
        r.append(out('%s after %s' % (d.dem, f.dem), r2, None, ' (after %s)' % f.base))
    return r


def construct(m, rec, c, inter, bycls):
    """one constructor, then every public operation on the object as it was left"""
    own = []

    def args(eng):
        a = eng.params(c)
        a[0] = lin(own[0])
        return a
    eng0 = Engine(m, MemRule(m, c, inter), Models())
    o = eng0.atom('heap', ('own', rec.id), 'the new %s' % rec.name, 'p', 1)
    o.meta = {'size': rec.size, 'where': c.where(), 'kind': 'own'}
    o.pt = rec
    own.append(o)
    st = State()
    poison(eng0, st, o, rec)
    rule, eng, ex, why = execute(m, c, inter, o, args, st)
    r = [out(c.dem, rule, why, ' (in the constructor)')]
    if why:
        return r
    states = {}
    for e in ex:
        if e.kind == 'ret':
            states.setdefault(unset(e.st, o), e.st)
    for u, s in sorted(states.items(), key=lambda x: -len(x[0]))[:3]:
        if not u:
            continue
        for b in bases(rec):
            for f in bycls.get(b.id, []):
                k = thisarg(f)
                if is_ctor(f) or k is None or not (is_public(m, f) or is_dtor(f)) or is_dtor(f) and ('D0E' in f.name or b.id != rec.id):
                    continue
                s2 = s.copy(); s2.env = {}; s2.trace = None
                for kk in [x for x in s2.ts if x[0] in ('freed', 'gone', 'live', 'text')]:
                    del s2.ts[kk]

                def args2(eng):
                    a = eng.params(f)
                    a[k] = lin(o) + base_off(rec, b)
                    return a
                r2, e2, ex2, y2 = execute(m, f, inter, o, args2, s2)
                r.append(out('%s on a new %s' % (f.dem, rec.name), r2, y2, ' (called on a %s as %s leaves it)' % (rec.name, c.base)))
    return r


_JOB = None


def _work(k):
    m, jobs = _JOB
    kind, a = jobs[k]
    try:
        if kind == 'f':
            return function(m, *a)
        return construct(m, *a)
    except RecursionError:
        return [{'name': str(k), 'und': 'recursion', 'hits': {}, 'count': {}, 'sites': {}, 'fns': []}]


def passes(m):
    """every function and every constructed object of the repository -> list of plain results"""
    global _JOB
    import multiprocessing as mp
    inter = interesting(m)
    noreturn(m); throwing(m)
    bycls = {}; dtors = {}; jobs = []
    for f in m.repo_funcs():
        if not f.blocks:
            continue
        rec, me = method_info(m, f)
        if rec is not None:
            bycls.setdefault(rec.id, []).append(f)
            if is_dtor(f) and 'D0E' not in f.name and (rec.id not in dtors or 'D1E' in f.name):
                dtors[rec.id] = f
    done = set()
    for f in m.repo_funcs():
        if not f.blocks or f.file.endswith('inst.cpp') or 'D0E' in f.name:
            continue
        k = (f.dem, f.where())
        if k in done and ('C2E' in f.name or 'D2E' in f.name):
            continue
        done.add(k)
        jobs.append(('f', (f, inter, dtors)))
    for rid, (rec, cts) in classes_with_ctor(m).items():
        seen = set()
        for c in cts:
            if c.dem in seen or not leaves(m, rec) or is_copy(m, c, rec) or thisarg(c) is None or c.file.endswith('inst.cpp'):
                continue
            seen.add(c.dem)
            jobs.append(('c', (rec, c, inter, bycls)))
    # warm the caches shared by the children
    for f in m.repo_funcs():
        method_info(m, f)
    _JOB = (m, jobs)
    order_ = sorted(range(len(jobs)), key=lambda k: -len(jobs[k][1][0].blocks) if jobs[k][0] == 'f' else -99)
    with mp.get_context('fork').Pool(8) as pool:
        rs = pool.map(_work, order_, chunksize=4)
    return [x for r in rs for x in r], len(jobs)


def base_off(t, b):
    if t.id == b.id:
        return 0
    for f in t.fields():
        if f.tag == 'inheritance' and f.strip() is not None:
            o = base_off(f.strip(), b)
            if o is not None:
                return f.off + o
    return None


def is_copy(m, c, rec):
    p = par(c)
    return len(p) == 1 and (rec.name.split('<')[0] in p[0]) and p[0].endswith('&')


# documented outputs: function, parameter type, when it has to be set
OUTPUTS = (('SimpleKeyValue::getNum', 'bool&', 'always'), ('sqlite3_single_lookup', 'char*&', 'always'), ('sqlite3_single_lookup', 'unsigned int&', 'success'),
           ('sqlite_command', 'int*', 'always'), ('Utils::cstrGetArg', 'unsigned int*', 'success'))


def outputs(cx):
    n = 0
    for f in cx.m.repo_funcs():
        for base, ty, when in OUTPUTS:
            if f.base != base or not f.blocks:
                continue
            ps = par(f); shift = len(f.args) - len(ps)
            ks = [shift + k for k, x in enumerate(ps) if x.replace(' ', '') == ty.replace(' ', '')]
            if len(ks) != 1:
                continue
            rule, eng, ex, why = execute(cx.m, f, interesting(cx.m), watch=ks)
            name = '%s: output %s' % (f.short, ty)
            if why:
                cx.undecided(name, why); continue
            p = rule.watch[0]; ok = True; n += 1
            for e in ex:
                if e.kind != 'ret' or e.st.prove_eq0(lin(p)):
                    continue
                st = e.st
                v = e.val
                if isinstance(v, tuple) and not isinstance(v, Tup):
                    d = st.decide(v)
                    succ = True if d is None else d
                else:
                    v = st.res(v) if isinstance(v, Lin) else None
                    succ = v is None or not st.prove_eq0(v)
                    if v is not None and not v.t:
                        succ = v.c != 0
                if when == 'success' and not succ:
                    continue
                if when == 'success' and not (isinstance(v, Lin) and not v.t) and not (isinstance(v, tuple) and st.decide(v) is True) and not st.prove_ne0(v if isinstance(v, Lin) else ZERO):
                    if not st.ts.get(('wrote', p)):
                        continue                       # success is not decided on this path
                if not st.ts.get(('wrote', p)):
                    ok = False
                    cx.fail('C26/%s/output' % f.base, e.inst.where(), '%s returns without having set its output (%s)' % (f.short, ty), core.pathlist(st))
                elif base == 'SimpleKeyValue::getNum' and not eng.imprecise:
                    x = st.mem.get((p, 0))
                    x = st.res(eng.tolin(st, x[1])) if x is not None else None
                    if x is None or x.t or not isinstance(v, Lin):
                        continue
                    if bool(x.c) != bool(v.t) and (v.t or v.c == 0):
                        ok = False
                        cx.fail('C26/%s/valid' % f.base, e.inst.where(), '%s reports %s when it returns %s' % (f.short, 'a valid number' if x.c else 'no valid number', 'the number of the entry' if v.t else 'its default'), core.pathlist(st))
            cx.oblig.append((name, ok))
    cx.notes.append('%d documented outputs' % n)


def cached(m):
    """development only: with SA_JSON the three checks share one pass"""
    import os, pickle, glob
    js = os.environ.get('SA_JSON')
    if not js:
        return passes(m)
    p = js + '.mem'
    if os.path.exists(p) and os.path.getmtime(p) > max(os.path.getmtime(x) for x in [js] + glob.glob(os.path.dirname(__file__) + '/*.py') + glob.glob(os.path.dirname(__file__) + '/../*.py')):
        return pickle.load(open(p, 'rb'))
    r = passes(m)
    pickle.dump(r, open(p, 'wb'))
    return r


def decide(cx, prop, text):
    cx.rule(text)
    rs, n = cached(cx.m)
    byname = {f.dem: f for f in cx.m.repo_funcs()}
    sites = set(); uses = 0
    for r in rs:
        for x in r['fns']:
            cx.fn(cx.m.funcs[x])
        if r['und']:
            cx.undecided(r['name'], r['und']); continue
        cx.oblig.append((r['name'], not r['hits'].get(prop)))
        sites |= set(r['sites'].get(prop, ())); uses += r['count'].get(prop, 0)
        for k, (w, msg, path) in r['hits'].get(prop, {}).items():
            cx.fail(k, w, msg, path)
    cx.notes.append('%d functions and constructors, %d runs; %d sites, %d uses looked at' % (n, len(rs), len(sites), uses))
    cx.atleast('runs', len(rs), 300)
    return rs


def c24(cx):
    decide(cx, 'C24', 'Every function of the library (each template instance the driver forces, all paths, callees followed while they are handed the caller\'s own storage). Rule: the returned value, and whatever is left in memory that outlives the call, does not contain the address of a local variable or of text inside a local string or container; '
           'a pointer into a string or container object is not used, passed on, returned or kept after that object was destroyed; no access through, and no hand-over of, a pointer after free, delete or fclose of it; no regular expression is used after it was released.')


def c25(cx):
    decide(cx, 'C25', 'Every function of the library, all paths including those taken when fopen or regcomp fails and those left by an explicit exception. Rule: a block from malloc, calloc, strdup, backtrace_symbols, new or new[], a file from fopen, a compiled regular expression in a local variable is, when the function leaves (or a loop goes round), released, returned, or stored where it can still be reached; '
           'releases are given the start of a block of the right kind, once; a block or expression left in an object by one of its methods is released by the destructor.')


def c26(cx):
    decide(cx, 'C26', 'Every function of the library, all paths including short conversions of sscanf and failing stat and regcomp calls; and every constructor followed by every public operation and the destructor on the object exactly as the constructor leaves it. '
           'Rule: a value read from storage nothing has written on that path is not tested, returned, passed to a function, used as an address or index, or stored in an object that outlives the function; text functions are not given a local array nothing has written; a regular expression whose compilation failed is not matched. '
           'Documented outputs (the validity flag of SimpleKeyValue::getNum, the values of sqlite3_single_lookup, the result code of sqlite_command, the length of cstrGetArg) are set on every path, respectively on every path that reports success, and the flag is true exactly when an entry was converted.')
    outputs(cx)
