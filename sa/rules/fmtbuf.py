"""C21: texts in fixed-size buffers, and formatters that return strings."""
import re
from .common import *
from ..shapes import Shapes, par, isstr, iscstr
from ..models import LOGGING

SPEC = re.compile(r"%%|%([-+ #0']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|q|j|z|t|L)?([a-zA-Z])")
PREC = re.compile(r"\.(\*|\d+)?")
WRITERS = {'sprintf', 'snprintf', 'vsnprintf', 'vsprintf', 'strcpy', 'strcat', 'strncpy', 'strncat', 'stpcpy', 'strftime', 'regerror', 'sscanf', 'sqlite3_snprintf', 'sqlite3_vsnprintf',
           'fgets', 'gets', 'gethostname', 'strerror_r', 'inet_ntop', 'readlink', 'getcwd', 'snprintf_chk', '__sprintf_chk', '__snprintf_chk', '__strcpy_chk', 'asctime_r', 'ctime_r', 'strlcpy', 'strlcat'}
# destination, size argument
SIZED = {'snprintf': (0, 1), 'vsnprintf': (0, 1), 'strncpy': (0, 2), 'strftime': (0, 1), 'regerror': (2, 3), 'sqlite3_snprintf': (1, 0), 'sqlite3_vsnprintf': (1, 0), 'fgets': (0, 1), 'gethostname': (0, 1),
         'strerror_r': (1, 2), 'inet_ntop': (2, 3), 'readlink': (1, 2), 'getcwd': (0, 1), 'strlcpy': (0, 2), 'strlcat': (0, 2)}


class BufRule(RuleBase):
    max_states = 24

    def __init__(self, m, name, keep):
        super().__init__(); self.m = m; self.name = name; self.keep = keep; self.sh = Shapes(); self.n = 0; self.open_ = False; self.und = set()

    def key(self, st):
        return frozenset((k, v[:3] if v[0] == 'cutat' else v) for k, v in st.ts.items() if k[0] in ('B', 'T', 'S') and not (k[0] == 'T' and v[1] is not None and v[1].t) and k[1].kind in ('alloca', 'heap', 'g') and (k[0] != 'S' or v[0] in ('c', 'pre')))

    # -- sizes
    def cap(self, eng, st, ptr):
        """bytes from the pointer to the end of the array it points into: (Lin, description) or None"""
        p = eng.tolin(st, ptr)
        b, o = eng.addr(st, ptr)
        if b is None:
            return None
        off = o if isinstance(o, Lin) else const(o)
        size = None; what = b.name
        if b.kind in ('alloca', 'g') and b.meta:
            s = b.meta.get('size')
            if s is None:
                return None
            size = const(s)
            if b.meta.get('count') is not None:
                size = b.meta['count'].scale(s)
            elif b.pt is not None and b.pt.is_record() and not isinstance(o, Lin):
                f = self.member(b.pt, o)
                if f is not None:
                    return f[0], '%s of %s' % (f[1], what)
        elif b.kind == 'heap' and isinstance(b.meta, dict) and isinstance(b.meta.get('size'), Lin):
            size = b.meta['size']
            if b.pt is not None and b.pt.is_record() and not isinstance(o, Lin):
                f = self.member(b.pt, o)
                if f is not None:
                    return f[0], '%s of %s' % (f[1], what)
        elif b.pt is not None and b.pt.is_record() and not isinstance(o, Lin):
            f = self.member(b.pt, o)
            if f is not None:
                return f[0], '%s of %s' % (f[1], what)
            return None
        if size is None:
            if b.kind in ('param', 'obj'):
                self.open_ = True           # the size is known to the callers
            return None
        return size - off, what

    @staticmethod
    def loose(l):
        return str(l) if not any(a.kind == 'op' and a.key[1] == 'elem' or 'elem(' in str(a) for a in l.t) else 'longer'

    @staticmethod
    def scalar(mod, c):
        if c in 'dioxXun':
            return {'hh': 1, 'h': 2, '': 4}.get(mod, 8)
        if c in 'eEfFgGaA':
            return {'': 4, 'l': 8, 'L': 16}.get(mod)
        return 8 if c == 'p' else None

    def narrow(self, i, k, cap):
        """the array the expression names may be smaller than the storage it lies in"""
        op = i.ops[k] if k < len(i.ops) else None
        if op is None or op[0] != 'i':
            return cap
        x = i.fn.insts.get(op[1]) if isinstance(i.fn.insts, dict) else i.fn.insts[op[1]]
        if x is None or x.op != 'getelementptr' or not x.d.get('arr'):
            return cap
        ix, n, sz = x.d['arr'][-1]
        if sz != 1 or ix[0] != 'c':
            return cap
        c = const(n - int(ix[1]))
        if cap is None or not cap[0].t and cap[0].c > c.c >= 0:
            if n > 1 and (cap is not None or x.d.get('src', '').startswith('[')):
                return c, '%s of %d bytes' % (cap[1].split(' ')[0] if cap else 'an array', n)
        return cap

    def member(self, t, o):
        path, leaf, rest = self.m.field_at(t, o)
        start = 0
        for rec, f in path:
            start += f.off
            ft = f.strip()
            if ft is not None and ft.tag == 'array_type':
                e = ft.elem(); e = e.strip() if e is not None else None
                if e is not None and e.size == 1:
                    return const(start + ft.size - o), f.name
                return None
        return None

    # -- lengths of texts: a Lin, or None when nothing is known
    def tlen(self, eng, st, t):
        if t is None:
            return None
        if t[0] == 'c':
            return const(len(t[1].encode('utf-8', 'replace')) if isinstance(t[1], str) else len(t[1]))
        if t[0] == 'cat':
            a, b = self.tlen(eng, st, t[1]), self.tlen(eng, st, t[2])
            return a + b if a is not None and b is not None else None
        if t[0] == 'len':
            return t[1]
        if t[0] == 's':
            if isinstance(t[2], Lin):
                return None
            v = st.res(eng.load(st, t[1], t[2] + 8, 8, 64))
            a = v.single()
            if a is not None and a.lo is None:
                a.lo = 0
            return v
        if t[0] == 'p':
            p = t[1]
            b, o = split_ptr(p)
            if b is not None:
                c = self.cap(eng, st, p)
                if b.kind in ('alloca', 'heap') or c is not None:
                    # some text inside an array: it ends before the array does
                    return c[0] - 1 if c is not None else None
            return lin(eng.op('strlen', [p], 64, 0, 1 << 30))
        return None

    def text(self, eng, st, arg):
        b, o = eng.addr(st, arg)
        if b is not None and not isinstance(o, Lin):
            t = st.ts.get(('T', b, o))
            if t is not None:
                return ('len', t[1])
        return self.sh.cptr(eng, st, arg)

    def known(self, l):
        """the length is an exact, unbounded quantity the caller chooses"""
        def ok(a, d=0):
            if d > 6:
                return False
            if a.kind in ('param', 'obj', 'g', 'alloca'):
                return True
            if a.kind == 'ld':
                return ok(a.key[1], d + 1)
            if a.kind == 'op' and a.key[1] == 'strlen':
                return all(all(ok(x, d + 1) for x in y.t) for y in a.key[2:] if isinstance(y, Lin))
            if a.kind == 'op' and a.key[1] == 'elem':
                return True
            if str(a).startswith('ret_vsnprintf'):
                return True
            if a.kind == 'op' and a.key[1] == 'cstr':
                return True
            return False
        return all(ok(a) for a in l.t)

    def verdict(self, eng, st, i, need, cap, what, how, lower=False):
        """need bytes (Lin) go into cap bytes (Lin)"""
        self.n += 1
        d = cap - need
        ok = st.prove_ge0(st.res(d))
        if ok and lower:
            self.und.add('%s into %s' % (how, what)); return True
        self.met('%s: %s into %s (%s)' % (self.name, how, what, i.where()), True if ok else True)
        if ok:
            return True
        d = st.res(d)
        if not d.t or self.known(d):
            self.obl['%s: %s into %s (%s)' % (self.name, how, what, i.where())] = False
            self.report(st, 'C21/%s/%s/%s' % (self.name, how, what.split(' ')[0].rstrip("'")), i.where(), '%s: %s writes up to %s bytes into %s, which has %s' % (self.name, how, need, what, cap))
        else:
            self.und.add('%s into %s' % (how, what))
        return False

    # -- formats
    def fmtlen(self, eng, st, i, fmt, args, ops):
        """upper bound of the formatted length: Lin or None"""
        total = const(0); pos = 0; k = 0; self.lower = False
        for x in SPEC.finditer(fmt):
            total = total + (x.start() - pos); pos = x.end()
            if x.group() == '%%':
                total = total + 1; continue
            width = prec = None
            if x.group(2) == '*':
                width = ('arg', k); k += 1
            elif x.group(2):
                width = int(x.group(2))
            pm = PREC.search(x.group())
            if pm is not None:
                if pm.group(1) == '*':
                    prec = ('arg', k); k += 1
                else:
                    prec = int(pm.group(1) or 0)
            if k >= len(args):
                return None
            a, op = args[k], ops[k] if k < len(ops) else None
            k += 1
            if isinstance(width, tuple):
                v = st.res(eng.tolin(st, args[width[1]]))
                if v.t:
                    width = None; self.lower = True      # what follows is only a lower bound
                else:
                    width = abs(v.c)
            if isinstance(prec, tuple):
                v = st.res(eng.tolin(st, args[prec[1]]))
                prec = v.c if not v.t else None
                if v.t and x.group(5) != 's':
                    return None
            c = x.group(5)
            if c == 's':
                l = self.tlen(eng, st, self.text(eng, st, a))
                if prec is not None and (l is None or l.t or l.c > prec):
                    if l is None or not st.prove_ge0(st.res(const(prec) - l)):
                        l = const(prec)
                if l is None:
                    return None
                if width:
                    l = const(max(width, l.c)) if not l.t else l if st.prove_ge0(st.res(l - width)) else l + width
                total = total + l
                continue
            if c == 'c':
                n = 1
            elif c in 'di':
                n = self.digits(eng, st, a, {'l': 64, 'll': 64, 'j': 64, 'z': 64, 't': 64, 'q': 64, 'hh': 8, 'h': 16}.get(x.group(4), 32), True)
                if '+' in x.group(1) or ' ' in x.group(1):
                    n += 1
            elif c == 'u':
                n = self.digits(eng, st, a, {'l': 64, 'll': 64, 'j': 64, 'z': 64, 't': 64, 'q': 64, 'hh': 8, 'h': 16}.get(x.group(4), 32), False)
            elif c in 'xX':
                n = {'l': 16, 'll': 16, 'j': 16, 'z': 16, 'hh': 2, 'h': 4}.get(x.group(4), 8) + (2 if '#' in x.group(1) else 0)
            elif c == 'o':
                n = {'l': 22, 'll': 22, 'hh': 3, 'h': 6}.get(x.group(4), 11) + 1
            elif c == 'p':
                n = 18
            elif c in 'gGeE':
                sign, big = self.fp(i.fn, op)
                p = 6 if prec is None else max(1, prec)
                if c in 'eE':
                    p += 1
                n = sign + (p + 5 if big else p + 7)
            elif c in 'fF':
                sign, big = self.fp(i.fn, op)
                p = 6 if prec is None else prec
                n = sign + (big or 309) + 1 + p
            else:
                return None
            if prec is not None and c in 'diuxXo':
                n = max(n, prec + 2)
            total = total + max(n, width or 0)
        return total + (len(fmt) - pos)

    def digits(self, eng, st, a, bits, signed):
        if isinstance(a, Tup):
            return 20
        v = st.res(eng.tolin(st, a))
        if not v.t:
            return len(str(v.c if signed else v.c % (1 << bits)))
        if st.prove_ge0(v):
            for k in range(1, 10):
                if st.prove_ge0(const(10 ** k - 1) - v):
                    return k
        return len(str((1 << bits) - 1)) if not signed else len(str(-(1 << (bits - 1))))

    def fp(self, fn, op, depth=0):
        """(sign possible, decimal digits if the value comes from an integer)"""
        while op is not None and op[0] == 'i' and depth < 8:
            x = fn.insts.get(op[1]) if isinstance(fn.insts, dict) else fn.insts[op[1]]
            depth += 1
            if x is None:
                break
            if x.op in ('uitofp', 'sitofp'):
                return (0 if x.op == 'uitofp' else 1, 20)
            if x.op in ('fpext', 'fptrunc'):
                op = x.ops[0]; continue
            if x.op == 'call' and x.d.get('callee') and x.d['callee'][0] == 'g':
                g = self.m.funcs.get(x.d['callee'][1])
                if g is not None and g.short and any(y in g.dem for y in ('round', 'floor', 'ceil', 'trunc', 'fabs')):
                    if '<unsigned' in g.dem:
                        return (0, 20)
                    if '<int>' in g.dem or '<long>' in g.dem:
                        return (1, 20)
                    op = x.ops[0]; continue
            break
        return (1, 0)

    # -- stores into buffers
    def on_access(self, eng, st, i, kind, b, o, size, val, ctx):
        if kind == 'store' and b is not None and size == 1 and b.kind in ('alloca', 'g', 'heap'):
            c = self.cap(eng, st, lin(b) + o)
            if c is not None:
                d = st.res(c[0] - 1)
                if not st.prove_ge0(d) and (not d.t or self.known(d)) and b.kind != 'heap':
                    self.report(st, 'C21/%s/store/%s' % (self.name, c[1].split(' ')[0]), i.where(), '%s: writes a character at offset %s of %s, past its end' % (self.name, o, c[1]))
        if kind != 'store' or b is None or size != 1 or isinstance(o, Lin):
            if kind == 'store' and b is not None:
                for k in [k for k in st.ts if k[0] == 'T' and k[1] == b and (isinstance(o, Lin) or k[2] <= o)]:
                    if isinstance(o, Lin) and isinstance(val, Lin) and not st.res(val).t and st.res(val).c == 0:
                        continue
                    if b.meta and b.meta.get('size', 0) == size:
                        continue
            return
        v = st.res(val) if isinstance(val, Lin) else None
        zero = v is not None and not v.t and v.c == 0
        for k in [k for k in st.ts if k[0] == 'T' and k[1] == b and k[2] <= o]:
            t = st.ts[k]
            if zero:
                n = const(o - k[2])
                if t[1] is None or not st.prove_ge0(st.res(n - t[1])):
                    st.ts[k] = ('T', n, True)
                else:
                    st.ts[k] = ('T', t[1], True)
            elif not (t[1] is not None and t[2] and st.prove_ge0(st.res(t[1] - (o - k[2]) - 1))):
                del st.ts[k]
        if zero and ('T', b, o) not in st.ts:
            st.ts[('T', b, o)] = ('T', const(0), True)

    def settext(self, eng, st, arg, l, term=True):
        b, o = eng.addr(st, arg)
        if b is None or isinstance(o, Lin):
            return
        for k in [k for k in st.ts if k[0] == 'T' and k[1] == b]:
            del st.ts[k]
        if l is not None:
            st.ts[('T', b, o)] = ('T', l, term)

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if base is None:
            return None
        if base == 'strlen':
            b, o = eng.addr(st, args[0])
            t = st.ts.get(('T', b, o)) if b is not None and not isinstance(o, Lin) else None
            if t is None:
                c = self.sh.cptr(eng, st, args[0])
                if c[0] == 'c':
                    return [(st, const(len(c[1])))]
                if c[0] == 's':
                    return [(st, self.tlen(eng, st, c))]
            p = st.res(eng.tolin(st, args[0]))
            a = eng.op('strlen', [p], 64, 0, 1 << 30)
            if t is not None and t[1] is not None and t[2]:
                st.facts = st.facts | {st.res(t[1] - lin(a))}
            return [(st, lin(a))]
        if base in ('sprintf', 'strcpy', 'strcat', 'strncat', 'stpcpy', 'vsprintf', 'gets', 'sscanf') or base in SIZED:
            r = self.write(eng, st, i, fn, base, args, ctx)
            if r is not None:
                return r
        r = self.sh.string(eng, st, i, fn, base.rsplit('::', 1)[-1], args, ctx) if fn is not None and not fn.repo and base.replace('__cxx11::', '').startswith('std::basic_string::') and base.rsplit('::', 1)[-1] in ('basic_string', 'operator=', 'assign') else None
        if r is not None:
            return r
        if fn is not None and fn.repo and fn.blocks and fn.name not in self.keep:
            return cutcall(eng, st, i, fn, args)
        return None

    def write(self, eng, st, i, fn, base, args, ctx):
        ret = [(st, eng.retval(i, fn) if i.ty != 'void' else ZERO)]
        if base == 'sscanf':
            src = self.tlen(eng, st, self.text(eng, st, args[0]))
            f = self.sh.cptr(eng, st, args[1])
            outs = args[2:]
            convs = None
            if f[0] == 'c':
                convs = [x for x in re.findall(r"%(\*?)(\d*)(hh|h|ll|l|L|q|j|z|t)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])", f[1]) if x[3] != '%' and not x[0]]
            for k, a in enumerate(outs):
                if convs is not None:
                    if k >= len(convs):
                        continue
                    if convs[k][3][0] not in 's[c':
                        n = self.scalar(convs[k][2], convs[k][3])
                        c = self.cap(eng, st, a)
                        if c is not None and n:
                            self.verdict(eng, st, i, const(n), c[0], c[1], 'sscanf')
                        b, o = eng.addr(st, a)
                        if b is not None and n and not isinstance(o, Lin):
                            eng.store(st, b, o, n, lin(eng.fresh('scanned', 8 * n)))
                        continue
                    if convs[k][3] == 'c':
                        need = const(int(convs[k][1] or 1))
                    else:
                        need = const(int(convs[k][1]) + 1) if convs[k][1] else src + 1 if src is not None else None
                else:
                    need = src + 1 if src is not None else None
                c = self.cap(eng, st, a)
                if c is not None and need is not None:
                    self.verdict(eng, st, i, need, c[0], c[1], 'sscanf')
                b, o = eng.addr(st, a)
                if b is not None:
                    eng.havoc_obj(st, b); self.settext(eng, st, a, None)
            return ret
        d = SIZED[base][0] if base in SIZED else 0
        cap = self.narrow(i, d, self.cap(eng, st, args[d]))
        b, o = eng.addr(st, args[d])
        if base in SIZED:
            n = st.res(eng.tolin(st, args[SIZED[base][1]]))
            if cap is not None:
                self.verdict(eng, st, i, n, cap[0], cap[1], base)
            l = n - 1; term = True
            if base == 'strncpy':
                src = self.tlen(eng, st, self.text(eng, st, args[1]))
                if src is not None and st.prove_ge0(st.res(n - src - 1)):
                    l = src
                else:
                    l = n; term = False
            elif base in ('snprintf', 'sqlite3_snprintf'):
                f = self.sh.cptr(eng, st, args[2])
                if f[0] == 'c':
                    x = self.fmtlen(eng, st, i, f[1], args[3:], i.ops[3:])
                    if x is not None and not self.lower:
                        if st.prove_ge0(st.res(n - 1 - x)):
                            l = x
                        elif (not st.res(n - x).t or self.known(st.res(n - x))) and b is not None and not isinstance(o, Lin):
                            st.ts[('cut', b, o)] = (i.where(), str(n))
                            return self.done(eng, st, i, fn, args[d], l, term, b, o, cut=(i.where(), str(n), self.loose(x)))
            return self.done(eng, st, i, fn, args[d], l, term, b, o)
        if base == 'gets':
            if cap is not None:
                self.report(st, 'C21/%s/gets' % self.name, i.where(), '%s: gets writes a line of any length into %s' % (self.name, cap[1]))
            return ret
        if base in ('vsprintf',):
            self.und.add('vsprintf'); l = None
            if cap is not None and not cap[0].t:
                self.report(st, 'C21/%s/vsprintf' % self.name, i.where(), '%s: vsprintf writes a text of any length into %s' % (self.name, cap[1]))
            return self.done(eng, st, i, fn, args[0], None, True, b, o)
        l = None
        if base == 'sprintf':
            f = self.sh.cptr(eng, st, args[1])
            if f[0] == 'c':
                l = self.fmtlen(eng, st, i, f[1], args[2:], i.ops[2:])
        else:
            l = self.tlen(eng, st, self.text(eng, st, args[1]))
            if base == 'strncat':
                n = st.res(eng.tolin(st, args[2]))
                if l is None or not st.prove_ge0(st.res(n - l)):
                    l = n
            if base in ('strcat', 'strncat'):
                t = st.ts.get(('T', b, o)) if b is not None and not isinstance(o, Lin) else None
                if t is not None and not t[2]:
                    self.report(st, 'C21/%s/unterminated' % self.name, i.where(), '%s: %s appends to a text that may not be terminated' % (self.name, base))
                l = l + t[1] if l is not None and t is not None and t[1] is not None else None
        if cap is not None:
            if l is None:
                self.und.add('%s into %s' % (base, cap[1])); self.n += 1
            else:
                self.verdict(eng, st, i, l + 1, cap[0], cap[1], base, lower=base == 'sprintf' and self.lower)
        return self.done(eng, st, i, fn, args[0], l, True, b, o)

    def done(self, eng, st, i, fn, dst, l, term, b, o, cut=None):
        if b is not None:
            ts = {k: v for k, v in st.ts.items() if k[0] == 'T' and k[1] == b}
            if b.kind not in ('param', 'obj', 'ld') :
                eng.havoc_obj(st, b)
            self.settext(eng, st, dst, l, term)
            if not isinstance(o, Lin):
                if cut:
                    st.ts[('B', b, o)] = ('cutat',) + cut
                else:
                    st.ts.pop(('B', b, o), None)
        v = eng.retval(i, fn) if i.ty != 'void' else ZERO
        if i.ty == 'ptr':
            v = dst
        return [(st, v)]


class FormatRule(RuleBase):
    """variadic formatters that return a string: what they return against the whole text"""
    max_states = 64

    def __init__(self, name):
        super().__init__(); self.name = name; self.sh = Shapes()

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items() if k[0] in ('S', 'B', 'log'))

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if base in ('vsnprintf', '__vsnprintf_chk', 'sqlite3_vsnprintf'):
            d, s = (1, 0) if base.startswith('sqlite3') else (0, 1)
            n = eng.op('length of the formatted text', (), 64, 0, (1 << 31) - 1)
            b, o = eng.addr(st, args[d])
            lim = st.res(eng.tolin(st, args[s]))
            if b is not None:
                eng.havoc_obj(st, b)
                if not isinstance(o, Lin):
                    st.ts[('B', b, o)] = ('pre', lim - 1)
            return [(st, lin(n))]
        if base in ('vasprintf',):
            b, o = eng.addr(st, args[0])
            n = eng.op('length of the formatted text', (), 64, 0, (1 << 31) - 1)
            t = eng.fresh('text', 'p', kind='heap'); t.lo = 1
            st.ts[('B', t, 0)] = ('pre', lin(n))
            eng.store(st, b, o, 8, lin(t))
            return [(st, lin(n))]
        if base in LOGGING or base in ('Log::Log', 'Log::get'):
            st.ts[('log',)] = True
            return None
        if fn is not None and not fn.repo:
            r = self.sh.call(eng, st, i, fn, base, args, ctx)
            if r is not None:
                return r
            b = base.replace('__cxx11::', '')
            if b in ('std::basic_string::basic_string', 'std::basic_string::assign') and len(args) >= 3:
                ps = par(fn)
                if len(ps) >= 2 and iscstr(ps[0]) and ps[1] == 'unsigned long':
                    t = self.sh.cptr(eng, st, args[1])
                    n = st.res(eng.tolin(st, args[2]))
                    rb, ro = eng.addr(st, args[0])
                    eng.havoc_obj(st, rb)
                    self.sh.sset(st, rb, ro, ('pre', n) if t[0] == 'pre' else ('f', 0))
                    return [(st, args[0] if i.ty == 'ptr' else ZERO)]
        return None


def c21(cx):
    m = cx.m
    cx.rule('For every call that writes text into an array of known size (local, member, global, heap or variable-length), an upper bound of the text (constants, conversions, widths, lengths of its parts as symbols with the facts of the path) plus the zero must fit '
            'the array; size arguments must not exceed it; nothing is appended to an unterminated text. Variadic formatters that return a string are followed for every length of the formatted text: up to 5000 characters the result must be the whole text, '
            'beyond that an error must be logged. Other functions may not return a text that a size argument may have cut off; the typed format overloads must hand on every argument in order.')
    direct = {}
    for f in m.repo_funcs():
        for i in calls(f):
            c = i.d.get('callee')
            if c and c[0] == 'g':
                b = m.funcs[c[1]].base if c[1] in m.funcs else c[1]
                if b in WRITERS:
                    direct.setdefault(f.name, set()).add(b)
    cal = callers(m)
    keep = set()
    work = sorted(direct)
    seen = set(work)
    total = 0
    while work:
        nm = work.pop(0)
        f = m.funcs[nm]
        if f.file and f.file.endswith('inst.cpp'):
            continue
        rule = BufRule(m, f.base, keep)
        eng = Engine(m, rule, Models())
        args = eng.params(f)
        try:
            ex = eng.run(f, State(), args)
        except Budget as e:
            cx.undecided(f.base, str(e)); continue
        cx.fn(f)
        for g in eng.inlined:
            cx.fn(m.funcs[g])
        total += rule.n
        for u in sorted(rule.und):
            cx.undecided(f.base, u)
        if rule.open_ and nm not in keep and len(seen) < 200:
            keep.add(nm)
            for c in sorted(cal.get(nm, ())):
                if m.funcs[c].repo and c not in keep:
                    if c not in seen or c not in work:
                        seen.add(c); work.append(c)
        if f.args and f.args[0].get('sret') and not f.vararg:
            for e in ex:
                if e.kind != 'ret':
                    continue
                v = rule.sh.sref(eng, e.st, args[0])
                if v[0] == 'cutat':
                    rule.report(e.st, 'C21/%s/cut' % f.base, v[1], '%s returns a text that was cut off at %s bytes, it may be %s long' % (f.base, v[2], v[3]))
            rule.met('%s returns the whole text' % f.base, not any(k.endswith('/cut') for k in rule.rep))
        drain(cx, rule)
    cx.atleast('texts written into arrays', total, 15)
    # string formatters
    n = 0
    for f in m.repo_funcs():
        if not (f.vararg and f.args and f.args[0].get('sret') and direct.get(f.name, set()) & {'vsnprintf', 'sqlite3_vsnprintf'}):
            continue
        n += 1
        formatter(cx, m, f)
    cx.atleast('string formatters', n, 1)
    for f in m.repo_funcs():
        if f.base.rsplit('::', 1)[-1] in ('format', 'format1') and not f.vararg and f.args and f.args[0].get('sret'):
            overload(cx, m, f)


def formatter(cx, m, f):
    rule = FormatRule(f.base)
    eng = Engine(m, rule, Models())
    args = eng.params(f)
    try:
        ex = eng.run(f, State(), args)
    except Budget as e:
        cx.undecided(f.base, str(e)); return
    cx.fn(f)
    n = lin(eng.op('length of the formatted text', (), 64, 0, (1 << 31) - 1))
    for e in ex:
        if e.kind != 'ret':
            continue
        v = rule.sh.sref(eng, e.st, args[0])
        for short in (True, False):
            for s in e.st.copy().assume(ge0(const(5000) - n) if short else ge0(n - 5001)):
                if v[0] == 'c':
                    rule.report(s, 'C21/%s/text' % f.base, f.where(), '%s returns "%s" instead of the formatted text' % (f.base, v[1]))
                elif v[0] != 'pre':
                    cx.undecided(f.base, 'result not followed')
                elif not s.prove_ge0(s.res(v[1] - n)):
                    if short:
                        rule.report(s, 'C21/%s/cut' % f.base, f.where(), '%s returns only %s characters of a text of up to 5000' % (f.base, s.res(v[1])))
                    elif not s.ts.get(('log',)):
                        rule.report(s, 'C21/%s/silent' % f.base, f.where(), '%s cuts off a text of more than 5000 characters without logging an error' % f.base)
    rule.met('%s returns the whole text up to 5000 characters' % f.base, not rule.rep)
    drain(cx, rule)


class OverRule(RuleBase):
    def __init__(self, f):
        super().__init__(); self.f = f; self.sh = Shapes(); self.got = []

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if fn is not None and fn.repo and base.rsplit('::', 1)[-1] in ('format', 'format1') and fn.vararg:
            self.got.append(tuple(self.sh.cptr(eng, st, x) if not isinstance(x, Tup) else ('?',) for x in args[1:]))
            return [(st, ZERO)]
        if fn is not None and not fn.repo and base.replace('__cxx11::', '').startswith('std::basic_string::'):
            return self.sh.call(eng, st, i, fn, base, args, ctx)
        return None


def overload(cx, m, f):
    rule = OverRule(f)
    eng = Engine(m, rule, Models())
    args = eng.params(f)
    try:
        eng.run(f, State(), args)
    except Budget as e:
        cx.undecided(f.base, str(e)); return
    cx.fn(f)
    ps = par(f)
    if not rule.got:
        cx.undecided(f.dem, 'does not use the variadic formatter'); return
    want = []
    for a, p in zip(args[1:], ps):
        if isstr(p):
            want.append(('s',) + tuple(eng.addr(State(), a)))
        else:
            want.append(('p', eng.tolin(State(), a)))
    for g in rule.got:
        if any(x[0] in ('f', '?', 'cat') for x in g):
            cx.undecided(f.dem, 'argument not followed'); continue
        cx.obligation('%s(%s) hands on its arguments' % (f.base, ', '.join('string' if isstr(p) else p for p in ps)), list(g) == want, f.where(),
                      '%s(%s) hands on other arguments than it was given' % (f.base, ', '.join('string' if isstr(p) else p for p in ps)), key='C21/%s/args' % f.name)
