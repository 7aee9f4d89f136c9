"""C14: the text encoders and decoders, over values that are functions of single input bytes."""
import itertools, multiprocessing, time
from .common import *
from ..bits import *
from .. import bits
from ..bits import ALL, fbit
from ..shapes import par

NONE = frozenset()
BIT = [sum(1 << v for v in range(256) if v >> k & 1) for k in range(8)]
SPACE = {9, 10, 11, 12, 13, 32}
ALNUM = set(b'0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz')
UNRES = ALNUM | set(b"-_.!~*'()")
B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
HEX = {c: int(chr(c), 16) for c in b'0123456789ABCDEFabcdef'}
CTYPE = {'isspace': SPACE, 'isalnum': ALNUM, 'isalpha': {c for c in ALNUM if chr(c).isalpha()}, 'isdigit': set(b'0123456789'), 'isxdigit': set(HEX),
         'isupper': set(range(65, 91)), 'islower': set(range(97, 123)), 'isprint': set(range(32, 127)), 'isgraph': set(range(33, 127)),
         'iscntrl': set(range(32)) | {127}, 'ispunct': set(range(33, 127)) - ALNUM, 'isblank': {9, 32}}
NPOS = (1 << 64) - 1


class Bad(Exception):
    """a definite violation on this path"""


def mask(s):
    r = 0
    for v in s:
        r |= 1 << v
    return r


def members(mk):
    return [v for v in range(256) if mk >> v & 1]


class Idx:
    """an address with one index that is not a constant"""

    def __init__(self, base, word, scale):
        self.base = base; self.word = word; self.scale = scale


class TabVal:
    """an entry of a constant table chosen by bits of several input bytes"""

    def __init__(self, vals, idx):
        self.vals = vals; self.idx = idx        # {tuple of index bits as integer: value}, index bits


class Bytes(Machine):
    def __init__(self, m, n, sets, choice, static=None, unstable=frozenset()):
        super().__init__(m, (), choice, None, 400000)
        self.n = n; self.sets = dict(sets); self.unstable = unstable; self.len = {}; self.heap = 0; self.nomerge = set(); self.sizes = {}
        if static is not None:
            self.mem = {b: dict(d) for b, d in static[0].items()}
            self.len = dict(static[1])
        self.hook = hook

    # ---- bits
    def set(self, name):
        return self.sets.get(name, ALL)

    def sb(self, x):
        if isinstance(x, tuple) and x[0] == 'f':
            s = self.set(x[1])
            mk = x[2] & s
            return 0 if not mk else 1 if mk == s else ('f', x[1], mk)
        return x

    def sub(self, v):
        return Word(self.sb(x) for x in v.b)

    def truth(self, v):
        if isinstance(v, (Aff, Idx)):
            raise Undecided('branch on an address')
        x = self.sb(v.b[0])
        if x in (0, 1):
            return bool(x)
        if x is None or x[0] != 'f':
            raise Undecided('branch on a value of several bytes')
        if getattr(self, 'nofork', 0):
            raise Undecided('branch inside an arm')
        k = len(self.taken)
        c = self.choice[k] if k < len(self.choice) else 0
        self.taken.append(c)
        s = self.set(x[1])
        self.sets[x[1]] = x[2] & s if c else ~x[2] & s
        return bool(c)

    def merge(self, fn, env, blk, succ, x, frame, until):
        """both arms of a branch on a byte, joined again, when they only compute values of that byte"""
        if not isinstance(x, tuple) or x[0] != 'f':
            return None
        j = bits.ipdom(fn).get(blk.id)
        if j is None or (fn.name, blk.id) in self.nomerge:
            return None
        s = self.set(x[1]); mem0 = self.mem; len0 = self.len; heap0 = self.heap; nt = len(self.taken); steps0 = self.steps
        ends = []
        try:
            for to, sub in ((succ[0], x[2] & s), (succ[1], ~x[2] & s)):
                e = dict(env)
                self.mem = {b: dict(d) for b, d in mem0.items()}; self.len = dict(len0); self.sets[x[1]] = sub
                self.nofork = getattr(self, 'nofork', 0) + 1
                try:
                    r = self.exec(fn, e, fn.bmap[to], blk, frame, j)
                finally:
                    self.nofork -= 1
                if r[0] != 'at' or self.len != len0 or self.heap != heap0 or self.steps - steps0 > 4000:
                    raise Undecided('arm')
                ends.append((e, self.mem))
            self.sets[x[1]] = s
            (e1, m1), (e2, m2) = ends
            new = {}
            for k in set(e1) & set(e2):
                if e1[k] is not e2[k]:
                    new[k] = self.mux2(x, e1[k], e2[k])
            mem = {}
            for b in set(m1) | set(m2):
                d1, d2 = m1.get(b, {}), m2.get(b, {})
                d = mem[b] = {}
                for k in set(d1) | set(d2):
                    v1, v2 = d1.get(k), d2.get(k)
                    if v1 is v2:
                        d[k] = v1
                    elif v1 is None or v2 is None or isinstance(v1, tuple) or isinstance(v2, tuple):
                        if isinstance(v1, tuple) and isinstance(v2, tuple) and v1[1] == v2[1] and isinstance(v1[0], Aff) and isinstance(v2[0], Aff) and v1[0].key() == v2[0].key():
                            d[k] = v1; continue
                        if isinstance(b, tuple) and b[0] == 'local' and b[1] != frame:
                            continue
                        raise Undecided('arm')
                    else:
                        d[k] = self.mux2(x, v1, v2)
        except (Undecided, Stop, Thrown, Bad, KeyError):
            self.mem = mem0; self.len = len0; self.heap = heap0; self.sets[x[1]] = s; del self.taken[nt:]
            self.nomerge.add((fn.name, blk.id))
            return None
        env.update({k: e1[k] for k in set(e1) & set(e2) if k not in env})
        env.update(new)
        self.mem = mem; self.len = len0
        return j

    def mux2(self, x, a, b):
        if isinstance(a, Word) and isinstance(b, Word):
            if a.b == b.b:
                return a
            if len(a.b) == len(b.b):
                r = self.lift([Word((x,)), a, b], lambda c, p, q: p if c else q, len(a.b))
                if r is not None:
                    return r
        elif isinstance(a, Aff) and isinstance(b, Aff) and a.key() == b.key():
            return a
        raise Undecided('arm')

    def switch(self, i, n):
        if not isinstance(n, Word):
            raise Undecided('switch on an unknown value')
        M = (1 << len(n.b)) - 1
        to = {}
        for c, t in i.d['cases']:
            to.setdefault(t, set()).add(int(c) & M)
        for t, vs in to.items():
            p = self.lift([n], lambda v: int(v in vs), 1)
            if p is None:
                raise Undecided('switch on an unknown value')
            if self.truth(p):
                return t
        return i.d['default']

    def name1(self, words):
        """the only byte these words depend on; None: no byte; False: several or unknown"""
        nm = None
        for w in words:
            for x in w.b:
                x = self.sb(x)
                if x in (0, 1):
                    continue
                if x is None or x[0] != 'f' or nm not in (None, x[1]):
                    return False
                nm = x[1]
        return nm

    def at(self, w, v):
        return sum(1 << k for k, x in enumerate(w.b) if (x == 1 or isinstance(x, tuple) and x[2] >> v & 1))

    def lift(self, words, fn, w):
        nm = self.name1(words)
        if nm is False:
            return None
        words = [self.sub(x) for x in words]
        if nm is None:
            r = fn(*[x.const() for x in words])
            return None if r is None else word(r, w)
        ms = [0] * w
        for v in members(self.set(nm)):
            r = fn(*[self.at(x, v) for x in words])
            if r is None:
                return None
            for k in range(w):
                if r >> k & 1:
                    ms[k] |= 1 << v
        return Word(self.sb(fbit(nm, mk)) for mk in ms)

    def icmp(self, pred, a, b, w):
        if isinstance(a, Idx) or isinstance(b, Idx):
            x, y = (a, b) if isinstance(a, Idx) else (b, a)
            if pred in ('eq', 'ne') and isinstance(y, Word) and y.const() == 0:
                return int(pred == 'ne')
            return None
        if isinstance(a, Aff) and a.t or isinstance(b, Aff) and b.t:
            return super().icmp(pred, a, b, w)
        x, y = self.norm(a, w), self.norm(b, w)
        if x.const() is None or y.const() is None:
            s = pred[0] == 's'

            def cmp(p, q):
                if s:
                    p, q = signed(p, w), signed(q, w)
                return int({'eq': p == q, 'ne': p != q, 'gt': p > q, 'ge': p >= q, 'lt': p < q, 'le': p <= q}[pred if pred in ('eq', 'ne') else pred[1:]])
            r = self.lift([x, y], cmp, 1)
            if r is not None:
                return r.b[0]
        return super().icmp(pred, x, y, w)

    def arith(self, op, a, b, w):
        if isinstance(a, Idx) or isinstance(b, Idx):
            if op == 'sub' and isinstance(a, Idx) and isinstance(b, Aff) and a.base.t == b.t:
                d = a.base.c - b.c
                return self.lift([a.word], lambda v: (signed(v, len(a.word.b)) * a.scale + d) & ((1 << w) - 1), w) or Word((None,) * w)
            return Word((None,) * w)
        r = super().arith(op, a, b, w)
        if isinstance(r, Word) and any(x is None for x in r.b) and isinstance(a, Word) and isinstance(b, Word):
            M = (1 << w) - 1

            def f(p, q):
                sp, sq = signed(p, w), signed(q, w)
                if op == 'add': return (p + q) & M
                if op == 'sub': return (p - q) & M
                if op == 'mul': return (p * q) & M
                if op == 'and': return p & q
                if op == 'or': return p | q
                if op == 'xor': return p ^ q
                if op == 'udiv': return p // q if q else None
                if op == 'urem': return p % q if q else None
                if op == 'sdiv': return (abs(sp) // abs(sq) * (1 if (sp >= 0) == (sq >= 0) else -1)) & M if q else None
                if op == 'srem': return (abs(sp) % abs(sq) * (1 if sp >= 0 else -1)) & M if q else None
                if op == 'shl': return (p << q) & M if q < w else None
                if op == 'lshr': return p >> q if q < w else None
                if op == 'ashr': return (sp >> q) & M if q < w else None
            t = self.lift([self.norm(a, w), self.norm(b, w)], f, w)
            if t is not None:
                return t
        return r

    def inst(self, env, i, frame):
        op = i.op
        if op == 'getelementptr' and not i.d.get('bad') and i.d['var']:
            p = self.operand(env, i.ops[0])
            vs = [(self.operand(env, o), k) for o, k in i.d['var']]
            sym_ = [(v, k) for v, k in vs if isinstance(v, Word) and self.sub(v).const() is None]
            if isinstance(p, Word) and p.const() is None or isinstance(p, Idx):
                env[i.id] = TOP; return
            if sym_:
                pa = self.toaff(p)
                if len(sym_) > 1 or pa is None or any(isinstance(v, Idx) for v, k in vs):
                    env[i.id] = TOP; return
                pa = addaff(pa, Aff(NONE, i.d['off']))
                for v, k in vs:
                    if (v, k) != sym_[0] and v is not sym_[0][0]:
                        pa = addaff(pa, self.toaff(self.sub(v) if isinstance(v, Word) else v), 1, k)
                env[i.id] = Idx(pa, self.sub(sym_[0][0]), sym_[0][1])
                return
            p = self.toaff(p)
            p = addaff(p, Aff(NONE, i.d['off']))
            for v, k in vs:
                x = self.toaff(self.sub(v) if isinstance(v, Word) else v) if not isinstance(v, Idx) else None
                if x is None:
                    env[i.id] = TOP; return
                p = addaff(p, x, 1, k)
            env[i.id] = p
            return
        if op == 'getelementptr' and isinstance(self.operand(env, i.ops[0]), Idx):
            p = self.operand(env, i.ops[0])
            env[i.id] = TOP if i.d.get('bad') else Idx(addaff(p.base, Aff(NONE, i.d['off'])), p.word, p.scale)
            return
        if op == 'load' and isinstance(self.operand(env, i.ops[0]), Idx):
            env[i.id] = self.tload(self.operand(env, i.ops[0]), i.d['size'], i.w, i)
            return
        if op == 'store' and isinstance(self.operand(env, i.ops[1]), Idx):
            raise Undecided('store at an index that depends on the input')
        if op == 'store' and isinstance(self.operand(env, i.ops[0]), Idx):
            b, (t, c) = self.split(self.operand(env, i.ops[1]))
            self.mem.setdefault(b, {})[(t, c)] = (self.operand(env, i.ops[0]), 8)
            return
        if op == 'select':
            c = self.operand(env, i.ops[0])
            x = self.sb(c.b[0]) if isinstance(c, Word) else None
            if isinstance(x, tuple):
                p, q = self.operand(env, i.ops[1]), self.operand(env, i.ops[2])
                r = self.lift([Word((x,)), self.norm(p, i.w), self.norm(q, i.w)], lambda a, b, d: b if a else d, i.w) if isinstance(p, Word) and isinstance(q, Word) and i.w else None
                env[i.id] = r if r is not None else p if self.truth(Word((x,))) else q
                return
        super().inst(env, i, frame)

    # ---- memory
    def inside(self, b, c, size, what='reads'):
        if b == 'in' and not (0 <= c and c + size <= self.n):
            raise Bad('%s byte %d of an input of %d byte%s' % (what, c if c < 0 else c + size - 1, self.n, '' if self.n == 1 else 's'))
        if isinstance(b, tuple) and b[0] == 'g':
            g = self.m.globals.get(b[1])
            if g and not g.get('decl') and g.get('size') and not (0 <= c and c + size <= g['size']):
                raise Bad('%s entry %d of %s, which has %d bytes' % (what, c, g.get('src') or 'a constant text', g['size']))
        if isinstance(b, tuple) and b[0] == 'text' and not (0 <= c and c + size <= self.len.get(b[1], 0) + (what == 'reads')):
            raise Bad('%s character %d of a text of %d' % (what, c, self.len.get(b[1], 0)))

    def byte(self, b, t, c):
        if not t:
            self.inside(b, c, 1)
        x = self.mem.get(b, {}).get((t, c))
        if x is None:
            if b == 'in':
                return self.sub(Word(fbit(c, BIT[k]) for k in range(8)))
            if isinstance(b, tuple) and b[0] == 'g':
                return self.globbyte(b[1], t, c)
            if isinstance(b, tuple) and b[0] == 'text':
                return word(0, 8) if c == self.len.get(b[1], 0) else Word((None,) * 8)
            return Word((None,) * 8)
        return self.sub(x) if isinstance(x, Word) else Word((None,) * 8)

    def globbyte(self, name, t, c):
        g = self.m.globals.get(name)
        if g and (g.get('const') or name not in self.unstable) and 'init' in g and not t:
            for o, sz, v in g['init']:
                if o <= c < o + sz:
                    if v[0] in 'zn': return word(0, 8)
                    if v[0] == 'bytes':
                        b = bytes.fromhex(v[1])
                        return word(b[c - o], 8) if c - o < len(b) else word(0, 8)
                    if v[0] == 'c':
                        return word((int(v[1]) & ((1 << 8 * sz) - 1)) >> (8 * (c - o)), 8)
        return Word((None,) * 8)

    def load(self, p, size, w, isptr):
        if isinstance(p, Idx):
            raise Undecided('load at an index that depends on the input')
        b, (t, c) = self.split(p)
        x = self.mem.get(b, {}).get((t, c))
        if isinstance(x, tuple):
            return x[0] if x[1] == size else Word((None,) * (w or 64))
        if not t:
            self.inside(b, c, size)
        if x is None and isptr and isinstance(b, tuple) and b[0] == 'g' and b[1] not in self.unstable:
            g = self.m.globals.get(b[1])
            for o, sz, v in (g or {}).get('init') or ():
                if o == c and v[0] == 'g':
                    return aff(('g', v[1]), int(v[2]) if len(v) > 2 else 0)
        return super().load(p, size, w, isptr)

    def store(self, p, size, v):
        if isinstance(v, Idx):
            v = TOP
        b, (t, c) = self.split(p)
        if not t:
            if b == 'in':
                raise Bad('writes into its input')
            self.inside(b, c, size, 'writes')
        super().store(p, size, v)

    def combos(self, word_):
        """every value the index can take: {values of its bits}, and the single byte it depends on"""
        bs = [self.sb(x) for x in word_.b]
        if any(x is None or isinstance(x, tuple) and x[0] != 'f' for x in bs):
            raise Undecided('table index not followed')
        names = sorted({x[1] for x in bs if isinstance(x, tuple)}, key=str)
        base = sum(1 << k for k, x in enumerate(bs) if x == 1)
        outs = [base]
        for nm in names:
            s = set()
            for v in members(self.set(nm)):
                s.add(sum(1 << k for k, x in enumerate(bs) if isinstance(x, tuple) and x[1] == nm and x[2] >> v & 1))
            outs = [a | b for a in outs for b in s]
            if len(outs) > 4096:
                raise Undecided('table index of too many values')
        return outs, names, bs

    def tload(self, p, size, w, i):
        b, (t, c) = self.split(p.base)
        if t:
            raise Undecided('address not followed')
        outs, names, bs = self.combos(p.word)
        L = len(bs)
        vals = {}
        for o in outs:
            off = c + signed(o, L) * p.scale
            self.inside(b, off, size)
            x = self.mem.get(b, {}).get((NONE, off))
            if isinstance(x, tuple):
                raise Undecided('table of addresses')
            r = ()
            for k in range(size):
                r += self.byte(b, NONE, off + k).b
            v = Word(r).const()
            vals[o] = v
        w = w or 64
        if any(v is None for v in vals.values()):
            if len(names) == 1 and b == 'in':
                raise Undecided('input read at an index that depends on the input')
            return Word((None,) * w)
        if len(names) <= 1:
            return self.lift([Word(bs)], lambda o: vals[o], w)
        tv = TabVal(vals, tuple(bs))
        return Word([('t', tv, k) for k in range(min(w, size * 8))] + [0] * (w - size * 8))

    # ---- texts
    def who(self, a):
        if isinstance(a, Word) or isinstance(a, Idx):
            raise Undecided('string not followed')
        b, (t, c) = self.split(a)
        if t:
            raise Undecided('string not followed')
        return (b, c)

    def text(self, a):
        k = self.who(a)
        if k not in self.len:
            raise Undecided('string not followed')
        if k == 'in':
            pass
        return [self.byte(self.tbase(k), NONE, j) for j in range(self.len[k])]

    def tbase(self, k):
        return 'in' if k == ('cstr', 0) else ('text', k)

    def settext(self, a, words):
        k = self.who(a)
        if k == ('cstr', 0):
            raise Bad('writes into its input')
        self.mem[('text', k)] = {(NONE, j): w for j, w in enumerate(words)}
        self.len[k] = len(words)

    def cstring(self, p, n=None):
        """the bytes p points to, up to the terminating zero or n of them"""
        if isinstance(p, Idx) or isinstance(p, Word):
            raise Undecided('text not followed')
        b, (t, c) = self.split(p)
        if t:
            raise Undecided('text not followed')
        out = []
        while n is None or len(out) < n:
            x = self.mem.get(b, {}).get((NONE, c + len(out)))
            if isinstance(x, tuple):
                raise Undecided('text not followed')
            w = self.byte(b, NONE, c + len(out))
            if n is None:
                z = self.icmp('eq', w, word(0, 8), 8)
                if z is None:
                    raise Undecided('text not followed')
                if self.truth(Word((z,))):
                    break
            out.append(w)
            if len(out) > 4096:
                raise Undecided('text too long')
        return out

    def count(self, v):
        k = self.toaff(self.sub(v) if isinstance(v, Word) else v) if not isinstance(v, Idx) else None
        if k is None or k.t:
            raise Undecided('length not followed')
        return k.c

    def pick(self, words, ch, n0=0):
        """index of the first word equal to ch as a branch and a value: None when there is none"""
        cs = [x.const() for x in words]
        if any(x is None for x in cs):
            raise Undecided('searched text not constant')
        ch = self.norm(ch, 8) if len(ch.b) >= 8 else ch
        first = {}
        for k, x in enumerate(cs):
            first.setdefault(x, k)
        f = self.lift([ch], lambda v: int(v in first), 1)
        if f is None:
            raise Undecided('searched character not followed')
        if not self.truth(f):
            return None
        return self.lift([ch], lambda v: first.get(v, 0) + n0, 64)


def isstr(t):
    t = t.replace('const', '').strip(' &')
    return t.startswith(('std::__cxx11::basic_string<char', 'std::basic_string<char'))


def hook(mc, i, fn, args):
    n = fn.dem; base = fn.base
    last = base.split('::')[-1]
    ps = par(fn)
    if fn.repo and fn.blocks:
        return NotImplemented
    if n.startswith('llvm.mem'):
        k = mc.count(args[2])
        if 'memset' in n:
            v = mc.norm(args[1], 8)
            for j in range(k):
                mc.store(addaff(mc.toaff(args[0]), Aff(NONE, j)), 1, v)
            return args[0]
        if k:
            if any(isinstance(x, Idx) for x in args[:2]):
                raise Undecided('copy not followed')
            b, (t, c) = mc.split(args[1])
            vals = []; j = 0
            while j < k:
                x = mc.mem.get(b, {}).get((t, c + j))
                if isinstance(x, tuple):
                    vals.append((j, x[1], x[0])); j += x[1]
                else:
                    vals.append((j, 1, mc.byte(b, t, c + j))); j += 1
            for j, s, v in vals:
                mc.store(addaff(mc.toaff(args[0]), Aff(NONE, j)), s, v)
        return args[0]
    if n.startswith('llvm.'):
        return NotImplemented
    if base in CTYPE:
        r = mc.lift([mc.norm(args[0], 32)], lambda v: 8 if v in CTYPE[base] else 0, 32)
        if r is None:
            raise Undecided('argument of %s' % base)
        lo = mc.lift([mc.norm(args[0], 32)], lambda v: int(-128 <= signed(v, 32) <= 255), 1)
        if mc.sb(lo.b[0]) != 1:
            raise Bad('calls %s with a number that is no byte value' % base)
        return r
    if base in ('toupper', 'tolower'):
        f = (lambda v: v - 32 if 97 <= v <= 122 else v) if base == 'toupper' else (lambda v: v + 32 if 65 <= v <= 90 else v)
        r = mc.lift([mc.norm(args[0], 32)], f, 32)
        if r is None:
            raise Undecided('argument of %s' % base)
        return r
    if base in ('strchr', 'index', 'memchr'):
        t = mc.cstring(args[0], mc.count(args[2]) if base == 'memchr' else None) + ([word(0, 8)] if base != 'memchr' else [])
        r = mc.pick(t, mc.norm(args[1], 32))
        if r is None:
            return word(0, 64)
        return Idx(mc.toaff(args[0]), r, 1) if r.const() is None else addaff(mc.toaff(args[0]), Aff(NONE, r.const()))
    if base == 'strlen':
        return word(len(mc.cstring(args[0])), 64)
    if base in ('memset', 'memcpy', 'memmove'):
        fake = type('F', (), {'dem': 'llvm.' + base, 'base': base, 'repo': False, 'blocks': ()})
        return hook(mc, i, fake, args)
    if base in ('strcmp', 'strcasecmp'):
        return word(0 if eqtext(mc, mc.cstring(args[0]), mc.cstring(args[1]), base == 'strcasecmp') else 1, 32)
    if base in ('operator new', 'operator new[]', 'malloc'):
        mc.heap += 1
        return aff(('new', mc.heap))
    if base in ('operator delete', 'operator delete[]', 'free', '__cxa_guard_release', '__cxa_atexit', '__cxa_guard_abort'):
        return word(0, 32)
    if base == '__cxa_guard_acquire':
        return word(1, 32)
    if base in ('snprintf', 'sprintf'):
        k = 1 if base == 'sprintf' else 2
        o = formatted(mc, mc.cstring(args[k]), list(args[k + 1:]))
        room = mc.count(args[1]) if k == 2 else None
        w = o if room is None else o[:max(room - 1, 0)]
        if room != 0:
            for j, x in enumerate(w + [word(0, 8)]):
                mc.store(addaff(mc.toaff(args[0]), Aff(NONE, j)), 1, x)
        return word(len(o), 32)
    # character classes and iterators of the standard library
    if 'allocator' in last or 'allocator<' in base or n.startswith(('std::allocator', 'std::__new_allocator')):
        return args[0] if args else TOP
    if '__normal_iterator' in n and ('char' in n):
        if last.startswith('~'):
            return None
        ld = lambda p: mc.load(p, 8, 64, True)
        if last == '__normal_iterator' and len(args) == 2:
            mc.store(args[0], 8, ld(args[1])); return None
        if last == 'operator*':
            return ld(args[0])
        if last in ('operator++', 'operator--'):
            o = ld(args[0])
            mc.store(args[0], 8, addaff(o, Aff(NONE, 1 if '++' in last else -1)))
            return args[0] if len(ps) == 0 else o
        if last in ('operator!=', 'operator==') and len(args) == 2:
            x = mc.icmp('eq', ld(args[0]), ld(args[1]), 64)
            if x is None:
                raise Undecided('iterators not followed')
            return Word((x if last == 'operator==' else neg(x),))
        if last == 'base':
            return args[0]
        raise Undecided('iterator operation %s' % last)
    if 'basic_string<char' in base or 'basic_string<char' in n.split('(')[0] or (base.startswith('std::') and ps and any(isstr(x) for x in ps)):
        return strings(mc, i, fn, args, last, ps, n)
    if fn.blocks:
        return NotImplemented
    raise Undecided('call of %s' % n[:60])


def eqtext(mc, a, b, nocase=False):
    a = [x.const() for x in a]; b = [x.const() for x in b]
    if None in a or None in b:
        raise Undecided('comparison of texts that depend on the input')
    a, b = bytes(a), bytes(b)
    return a.lower() == b.lower() if nocase else a == b


def formatted(mc, f, args):
    f = [x.const() for x in f]
    if None in f:
        raise Undecided('format not constant')
    f = bytes(f).decode('latin1')
    out = []; k = 0
    while k < len(f):
        if f[k] != '%':
            out.append(word(ord(f[k]), 8)); k += 1; continue
        mt = re.match(r'%(0?)(\d*)(hh|h|l|ll)?([%cxXds])', f[k:])
        if not mt:
            raise Undecided('format')
        k += mt.end()
        z, wd, md, cv = mt.groups()
        if cv == '%':
            out.append(word(37, 8)); continue
        a = args.pop(0)
        if cv == 'c':
            out.append(mc.norm(a, 32).b and Word(mc.norm(a, 32).b[:8])); continue
        if cv == 's':
            out += mc.cstring(a); continue
        if cv not in 'xX':
            raise Undecided('format')
        v = mc.sub(a) if isinstance(a, Word) else a
        w = {'hh': 8, 'h': 16, 'l': 64, 'll': 64}.get(md, 32)
        v = Word(mc.norm(v, max(w, len(v.b))).b[:w])
        fmt = lambda x: (('%X' if cv == 'X' else '%x') % x).rjust(int(wd or 0), '0' if z else ' ')
        ln = mc.lift([v], lambda x: len(fmt(x)), 16)
        if ln is None:
            raise Undecided('formatted value')
        top = max(mc.at(ln, x) for x in members(mc.set(mc.name1([ln])))) if ln.const() is None else ln.const()
        L = ln.const()
        if L is None:
            for L in range(1, top + 1):
                e = mc.lift([ln], lambda x: int(x == L), 1)
                if mc.truth(e):
                    break
        for j in range(L):
            out.append(mc.lift([v], lambda x: ord((fmt(x) + ' ' * 64)[j]), 8))
    return out


def strings(mc, i, fn, args, last, ps, n):
    P = [x.replace('const', '').replace('&', '').strip() for x in ps]

    def val(k):
        """the text argument k (parameter k, argument off+k) contributes"""
        a = args[k + off]
        if isstr(ps[k]): return mc.text(a)
        if P[k] in ('char*', 'char *'): return mc.cstring(a)
        if P[k] == 'char': return [mc.norm(a, 8) if isinstance(a, Word) else TOP]
        raise Undecided('string argument %s' % ps[k])
    free = not ('basic_string<char' in fn.base or fn.base.startswith('std::__cxx11::basic_string'))
    if free:
        if last == 'operator+' or n.split('(')[0].endswith('operator+') or '::operator+<' in n.split('(')[0]:
            off = 1
            r = val(0) + val(1)
            mc.settext(args[0], r); return None
        off = 0
        for op in ('operator==', 'operator!='):
            if last == op or ('::%s<' % op) in n.split('(')[0]:
                e = eqtext(mc, val(0), val(1))
                return word(int(e == (op == 'operator==')), 1)
        raise Undecided('string operation %s' % last)
    off = 1
    me = args[0]
    ps_ = [p for p in P if 'allocator<char> ' not in p + ' ' or isstr(p)]
    cp = [p for p in ps if not (p.startswith('std::allocator') or p.startswith('std::__new_allocator'))]
    k = len(cp)
    if last == 'basic_string' or last.startswith('basic_string<'):
        if k == 0:
            mc.settext(me, [])
        elif k == 1 or k == 2 and False:
            mc.settext(me, val(0))
        elif k == 2 and P[0] in ('char*', 'char *'):
            if P[1] in ('unsigned long',):
                mc.settext(me, mc.cstring(args[1], mc.count(args[2])))
            elif P[1] in ('char*', 'char *'):
                d = addaff(mc.toaff(args[2]), mc.toaff(args[1]), 1, -1)
                if d.t: raise Undecided('range not followed')
                mc.settext(me, mc.cstring(args[1], d.c))
            else:
                raise Undecided('string constructor')
        elif k == 2 and P[0] == 'unsigned long' and P[1] == 'char':
            mc.settext(me, [mc.norm(args[2], 8)] * mc.count(args[1]))
        else:
            raise Undecided('string constructor')
        return None
    if last.startswith('~'):
        return None
    if last in ('reserve', 'shrink_to_fit'):
        return None
    if last in ('size', 'length'):
        return word(len(mc.text(me)), 64)
    if last == 'empty':
        return word(int(not mc.text(me)), 1)
    if last == 'clear':
        mc.settext(me, []); return None
    kme = mc.who(me)
    if kme not in mc.len:
        raise Undecided('string not followed')
    T = mc.tbase(kme)
    if last in ('operator[]', 'at'):
        c = mc.sub(args[1]) if isinstance(args[1], Word) else args[1]
        if isinstance(c, Word) and c.const() is None:
            return Idx(aff(T), c, 1)
        c = mc.count(args[1])
        if last == 'at' and c >= mc.len[kme]:
            raise Thrown()
        return aff(T, c)
    if last in ('data', 'c_str', 'begin', 'cbegin'):
        return aff(T)
    if last in ('end', 'cend'):
        return aff(T, mc.len[kme])
    if last in ('back', 'front'):
        return aff(T, mc.len[kme] - 1 if last == 'back' else 0)
    if last in ('push_back',) or last in ('operator+=', 'append') and k == 1:
        mc.settext(me, mc.text(me) + val(0)); return me
    if last in ('append', 'assign') and k == 2 or last == 'assign' and k == 1 or last == 'operator=':
        old = mc.text(me) if last == 'append' else []
        if k == 1:
            new = val(0)
        elif P[0] == 'unsigned long' and P[1] == 'char':
            new = [mc.norm(args[2], 8)] * mc.count(args[1])
        elif P[0] in ('char*', 'char *') and P[1] == 'unsigned long':
            new = mc.cstring(args[1], mc.count(args[2]))
        else:
            raise Undecided('string operation %s' % last)
        mc.settext(me, old + new); return me
    if last == 'resize':
        t = mc.text(me); c = mc.count(args[1])
        mc.settext(me, (t + [mc.norm(args[2], 8) if len(args) > 2 else word(0, 8)] * max(0, c - len(t)))[:c]); return None
    if last == 'pop_back':
        mc.settext(me, mc.text(me)[:-1]); return None
    if last == 'find' and P and P[0] == 'char':
        k0 = mc.count(args[2]) if len(args) > 2 else 0
        r = mc.pick(mc.text(me)[k0:], mc.norm(args[1], 8), k0)
        return word(NPOS, 64) if r is None else r
    if last == 'compare' and k == 1:
        return word(0 if eqtext(mc, mc.text(me), val(0)) else 1, 32)
    if last == 'swap':
        a, b = mc.text(me), mc.text(args[1])
        mc.settext(me, b); mc.settext(args[1], a); return None
    raise Undecided('string operation %s' % last)


# ---- what the program sets up before main

def statics(m, files):
    mem = {}; ln = {}; ran = set()
    for f in m.funcs.values():
        if f.blocks and f.base.startswith('__cxx_global_var_init') and any(f.file and f.file.endswith(x) for x in files):
            mc = Bytes(m, 0, {}, [], (mem, ln))
            try:
                mc.run(f, [])
            except (Undecided, Stop, Thrown, Bad, KeyError):
                continue
            ran |= mc.fns
            mem = {b: d for b, d in mc.mem.items() if isinstance(b, tuple) and b[0] in ('g', 'text', 'new')}
            ln = {k: v for k, v in mc.len.items() if isinstance(k[0], tuple) and k[0][0] == 'g'}
    return (mem, ln), ran


def written(m, ran):
    """globals that something other than the initialisers may write"""
    out = {}
    for f in m.funcs.values():
        if not f.blocks or f in ran or f.base.startswith(('__cxx_global_var_init', '_GLOBAL__')):
            continue
        root = {}

        def g(o):
            if o[0] == 'g': return o[1]
            if o[0] == 'i': return root.get(o[1])
            if o[0] == 'ce': return g(o[2][0]) if o[2] else None
        for b in f.blocks:
            for i in b.insts:
                if i.op in ('getelementptr', 'bitcast') and g(i.ops[0]):
                    root[i.id] = g(i.ops[0])
                elif i.op == 'store' and g(i.ops[1]):
                    out.setdefault(g(i.ops[1]), set()).add(f)
                elif i.op == 'store' and g(i.ops[0]):
                    out.setdefault(g(i.ops[0]), set()).add(f)
                elif i.op in ('call', 'invoke'):
                    cal = i.d['callee']
                    t = m.funcs.get(cal[1]) if cal[0] == 'g' else None
                    for k, o in enumerate(i.ops):
                        x = g(o)
                        if x and not (t is not None and (t.dem.startswith('llvm.') and (k or 'memset' not in t.dem and 'memcpy' not in t.dem) or 'const' in ' '.join(par(t)[k:k + 1]) or t.base in ('strchr', 'strlen', 'memchr', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort') or t.dem.rstrip().endswith('const'))):
                            out.setdefault(x, set()).add(f)
    return out


# ---- oracles

def same(mc, sets, w, name, f, want8=8):
    """does the word equal f(byte name) for every byte value left?"""
    for v in members(sets.get(name, ALL)):
        r = f(v)
        for k in range(want8):
            x = w.b[k]
            if x is None:
                raise Undecided('output not followed')
            if isinstance(x, tuple):
                if x[0] != 'f':
                    raise Undecided('output not followed')
                if x[1] != name:
                    s = sets.get(x[1], ALL); mk = x[2] & s
                    if mk not in (0, s):
                        return v
                    x = int(mk == s)
                else:
                    x = x[2] >> v & 1
            if x != (r >> k & 1):
                return v
    return None


def shown(v):
    return "'%c'" % v if 33 <= v < 127 else '0x%02x' % v


def hexdigit(mc, sets, w, name, sh):
    lo = same(mc, sets, w, name, lambda v: b'0123456789abcdef'[v >> sh & 15])
    up = same(mc, sets, w, name, lambda v: b'0123456789ABCDEF'[v >> sh & 15])
    if lo is None or up is None:
        return None
    # digits of either case, mixed
    for v in members(sets.get(name, ALL)):
        s = {name: 1 << v}
        if same(mc, s, w, name, lambda x: b'0123456789abcdef'[x >> sh & 15]) is not None and same(mc, s, w, name, lambda x: b'0123456789ABCDEF'[x >> sh & 15]) is not None:
            return v
    return None


def judge_url(mc, n, out):
    p = 0
    for j in range(n):
        s = mc.set(j)
        if p >= len(out):
            return 'the output ends before byte %d of %d is written' % (j, n)
        if same(mc, mc.sets, out[p], j, lambda v: 37) is None:
            if p + 3 > len(out):
                return 'an escape is cut short'
            for q, sh, nm in ((1, 4, 'first'), (2, 0, 'second')):
                v = hexdigit(mc, mc.sets, out[p + q], j, sh)
                if v is not None:
                    return 'the %s digit written for byte %s is not its hexadecimal digit' % (nm, shown(v))
            p += 3; continue
        v = same(mc, mc.sets, out[p], j, lambda v: v)
        if v is not None:
            return 'byte %s is written neither as itself nor as an escape' % shown(v)
        bad = [v for v in members(s) if v not in UNRES]
        if bad:
            return 'byte %s is left unescaped' % shown(bad[0])
        p += 1
    if p != len(out):
        return '%d characters too many are written' % (len(out) - p)
    return None


def judge_hexenc(mc, n, out):
    if len(out) != 2 * n:
        return '%d digits are written for %d bytes' % (len(out), n)
    for j in range(n):
        for q, sh in ((0, 4), (1, 0)):
            v = hexdigit(mc, mc.sets, out[2 * j + q], j, sh)
            if v is not None:
                return 'digit %d of byte %s is wrong' % (q + 1, shown(v))
    return None


def judge_b64enc(mc, n, out):
    want = (8 * n + 5) // 6
    o = list(out)
    while len(o) > want and o[-1].const() == ord('='):
        o.pop()
    if len(o) != want:
        return '%d characters are written for %d bytes' % (len(o), n)
    if len(out) > (n + 2) // 3 * 4:
        return 'too much padding is written'
    stream = [fbit(j, BIT[7 - k]) for j in range(n) for k in range(8)]
    for q in range(want):
        need = [mc.sb(x) for x in (stream[6 * q:6 * q + 6] + [0] * 6)[:6]][::-1]
        names = {x[1] for x in need if isinstance(x, tuple)}
        w = o[q]
        if any(x is None for x in w.b):
            raise Undecided('output not followed')
        if len(names) <= 1 and not any(isinstance(x, tuple) and x[0] == 't' for x in w.b):
            nm = next(iter(names)) if names else 0
            v = same(mc, mc.sets, w, nm, lambda v: B64[sum(1 << k for k, x in enumerate(need) if x == 1 or isinstance(x, tuple) and x[2] >> v & 1)])
            if v is not None:
                return 'character %d of the code of %d bytes is wrong' % (q, n)
            continue
        ts = {id(x[1]): x[1] for x in w.b if isinstance(x, tuple) and x[0] == 't'}
        if len(ts) != 1 or any(not isinstance(x, tuple) or x[0] != 't' or x[2] != k for k, x in enumerate(w.b)):
            if not ts and all(x in (0, 1) or isinstance(x, tuple) and x[0] == 'f' for x in w.b):
                return 'character %d of the code of %d bytes does not depend on all its bits' % (q, n)
            raise Undecided('output not followed')
        tv = next(iter(ts.values()))
        idx = list(tv.idx)
        if [mc.sb(x) for x in idx[:6]] != need or any(x != 0 for x in idx[6:]):
            return 'character %d of the code of %d bytes is chosen by the wrong bits' % (q, n)
        for k, v in tv.vals.items():
            if v != B64[k & 63]:
                return 'value %d is written as %s' % (k, shown(v))
    return None


def cells(mc, n, classes):
    """the input classes the path's byte sets fall into"""
    opts = []
    for j in range(n):
        s = mc.set(j)
        opts.append([(nm, s & mk) for nm, mk in classes if s & mk])
    for c in itertools.product(*opts):
        yield [nm for nm, _ in c], {j: s for j, (_, s) in enumerate(c)}


def outcome(mc, out, exp, sets):
    """does out equal the expected list of (list of (name, f, bit range))?"""
    if len(out) != len(exp):
        return '%d bytes come out instead of %d' % (len(out), len(exp))
    for q, bs in enumerate(exp):
        for k in range(8):
            x = out[q].b[k]
            nm, f, b = bs[k]
            if x is None or isinstance(x, tuple) and x[0] != 'f':
                raise Undecided('output not followed')
            for v in members(sets[nm]):
                if isinstance(x, tuple):
                    if x[1] != nm:
                        mk = x[2] & sets[x[1]]
                        g = 0 if not mk else 1 if mk == sets[x[1]] else None
                        if g is None:
                            return 'bit %d of byte %d does not come from character %d' % (k, q, nm)
                    else:
                        g = x[2] >> v & 1
                else:
                    g = x
                if g != (f(v) >> b & 1):
                    return 'character %s gives a wrong bit %d of byte %d' % (shown(v), k, q)
    return None


def expected(seq, width, f):
    bits_ = [(nm, f, width - 1 - k) for nm in seq for k in range(width)]
    return [bits_[8 * q:8 * q + 8][::-1] for q in range(len(bits_) // 8)]


B64INV = {c: k for k, c in enumerate(B64)}
C64 = [('data', mask(B64)), ('pad', mask(b'=')), ('space', mask(SPACE)), ('other', ALL & ~mask(set(B64) | {61} | SPACE))]
CHEX = [('data', mask(HEX)), ('space', mask(SPACE)), ('other', ALL & ~mask(set(HEX) | SPACE))]


def judge_dec(mc, n, out, err, kind):
    classes, width, f = (C64, 6, lambda v: B64INV[v]) if kind == 'base64' else (CHEX, 4, lambda v: HEX[v])
    for cs, sets in cells(mc, n, classes):
        seq = []; ended = False; odd = False
        for j, c in enumerate(cs):
            if c == 'pad': ended = True
            elif c == 'other': odd = True
            elif c == 'data':
                if ended: odd = True
                else: seq.append(j)
        if odd and err:
            continue
        if kind == 'base64' and len(seq) % 4 == 1 or kind == 'hex' and len(seq) % 2:
            continue
        ex = ''.join("'%c'" % members(sets[j])[-1] if 33 <= members(sets[j])[-1] < 127 else '\\x%02x' % members(sets[j])[0] for j in range(n))
        if err and not odd:
            return 'a valid text (%s) is reported as an error' % ex
        msg = outcome(mc, out, expected(seq, width, f), sets)
        if msg:
            return 'for %s %s%s' % (ex, msg, ' and no error is reported' if odd else '')
    return None


def c14(cx):
    m = cx.m
    cx.rule('Every value is followed as a function of the single input byte it depends on (or as an entry of a constant table chosen by named input bits), with the control flow followed exactly and the set of values left for each byte narrowed at every branch; the tables are those the static initialisers leave. '
            'Rule: URLEncode, for every byte, writes the byte itself only when it is unreserved, and otherwise %% and its two hexadecimal digits; the encoders and decoders read inside their input and inside their tables only; every 6-bit (4-bit) group is written as its base64 (hexadecimal) character; '
            'the decoders return the bytes of the characters in order, skip white space, stop at the padding, and neither use other characters silently nor report valid text as an error.')
    url = cx.one('URLEncode')
    enc = cx.one('Utils::encodeToString'); dec = cx.one('Utils::decodeToString')
    static, ran = statics(m, ('Utils.cpp', 'URLEncode.cpp'))
    wr = written(m, ran)
    thorough = cx.tier == 'thorough'
    until = time.time() + (600 if thorough else 240)

    jobs = []

    def go(*j):
        jobs.append(j)

    def job(f, label, key, n, sets, call, judge, limit):
        ok = set(); cur = [None]

        def make(ch):
            mc = Bytes(m, n, sets, ch, static, frozenset(g for g, w in wr.items() if not all(x in ok for x in w)))
            cur[0] = mc
            try:
                r = ('ret', call(mc))
            except Stop as e:
                r = ('stop', str(e))
            except Thrown:
                r = ('throw', None)
            except Bad as e:
                r = ('bad', str(e))
            return mc, r
        bad = None; fns = set(); cnt = 0
        try:
            for rnd in (0, 1, 2):
                bad = None; fns = set(); und = None
                try:
                    for mc, (kind, v) in explore(make, limit):
                        fns |= mc.fns; cnt += 1
                        if any(not mc.set(j) for j in range(n)):
                            continue
                        if time.time() > until:
                            raise Undecided('time limit')
                        if kind == 'bad':
                            bad = bad or v
                        elif kind != 'ret':
                            bad = bad or 'does not return (%s)' % (v or 'exception')
                        else:
                            bad = bad or judge(mc, v)
                except (Undecided, KeyError) as e:
                    und = str(e) or 'not followed'
                    if cur[0] is not None:
                        fns |= cur[0].fns
                if fns <= ok:
                    break
                ok |= fns                    # what only these functions write is as the initialisers left it on the first call
        except RecursionError:
            und = 'recursion'
        return label, bad, und, sorted(g.dem for g in fns), cnt

    def urlcall(mc):
        mc.len[('cstr', 0)] = mc.n
        mc.run(url, [aff('ret'), aff('cstr')])
        return mc.text(aff('ret'))

    def codecall(f, how):
        def call(mc):
            mc.settext(aff('enc'), [word(c, 8) for c in how.encode()])
            mc.settext(aff('err'), [])
            mc.run(f, [aff('ret'), aff('in'), word(mc.n, 32), aff('enc'), aff('err')])
            return mc.text(aff('ret')), bool(mc.text(aff('err')))
        return call
    for n in range(4 if not thorough else 6):
        go(url, 'URLEncode of %d bytes' % n, 'url', n, {}, urlcall, lambda mc, v: judge_url(mc, mc.n, v), 4000)
    for how in ('hex', 'base16'):
        for n in range(5):
            go(enc, '%s encoding of %d bytes' % (how, n), 'encode/hex', n, {}, codecall(enc, how), lambda mc, v: 'an error is reported' if v[1] else judge_hexenc(mc, mc.n, v[0]), 4000)
    for n in range(14 if thorough else 8):
        go(enc, 'base64 encoding of %d bytes' % n, 'encode/base64', n, {}, codecall(enc, 'base64'), lambda mc, v: 'an error is reported' if v[1] else judge_b64enc(mc, mc.n, v[0]), 4000)
    for how, full in (('hex', 5), ('base64', 5 if thorough else 4)):
        data = mask(HEX if how == 'hex' else B64)
        runs = [(n, {}, '') for n in range(full + 1)]
        runs += [(n, {j: data for j in range(n)}, ' of the alphabet') for n in ((6, 8) if how == 'hex' else (5, 6, 7, 8, 12))]
        runs += [(n, {j: data | (mask(b'= ') if j >= n - 3 or j == 1 else 0) for j in range(n)}, ', the last three possibly padding or space') for n in ((6, 7, 8) if how == 'base64' else ())]
        for n, sets, note in runs:
            go(dec, '%s decoding of %d characters%s' % (how, n, note), 'decode/' + how, n, sets, codecall(dec, how), lambda mc, v, how=how: judge_dec(mc, mc.n, v[0], v[1], how), 6000)
    order = sorted(range(len(jobs)), key=lambda k: -jobs[k][3] - 3 * ('decod' in jobs[k][1]))
    res = dict(zip(order, forked(lambda k: job(*jobs[k]), order)))
    paths = 0
    for k, j in enumerate(jobs):
        label, bad, und, fns, cnt = res[k]
        paths += cnt
        cx.fn(*fns)
        if und is not None:
            cx.undecided(label, und)
            continue
        cx.oblig.append((label, bad is None))
        if bad:
            cx.fail('C14/' + j[2], j[0].where(), '%s: %s' % (label, bad))
    cx.notes.append('%d paths' % paths)
    if len(cx.oblig) + len(cx.undec) < 20:
        raise core.Broken('coder runs')


JOB = None


def _job(k):
    return JOB(k)


def forked(fn, items):
    """fn on every item in forked processes"""
    global JOB
    JOB = fn
    with multiprocessing.get_context('fork').Pool(8) as p:
        return p.map(_job, items, 1)
