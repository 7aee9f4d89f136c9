"""Bit-provenance interpretation: every value is a vector of bits, each 0, 1, a named input bit, its negation or unknown;
addresses are affine in named offsets.  Control flow is followed exactly; what cannot be followed raises Undecided."""
import re


class Undecided(Exception):
    pass


class Stop(Exception):
    """the program stops (failed assertion, abort)"""


class Thrown(Exception):
    pass


def neg(b):
    if b is None:
        return None
    if b in (0, 1):
        return 1 - b
    if b[0] == 'f':
        return fbit(b[1], b[2] ^ ALL)
    return b[1] if b[0] == 'n' else ('n', b)


ALL = (1 << 256) - 1


def fbit(name, mask):
    """a bit that is set for the values of one input byte named in the mask"""
    return 0 if not mask else 1 if mask == ALL else ('f', name, mask)


def b_and(a, b):
    if a == 0 or b == 0: return 0
    if a == 1: return b
    if b == 1: return a
    if a is None or b is None: return None
    if a == b: return a
    if a[0] == b[0] == 'f' and a[1] == b[1]: return fbit(a[1], a[2] & b[2])
    if a == neg(b): return 0
    return None


def b_or(a, b):
    return neg_(b_and(neg_(a), neg_(b)))


def neg_(a):
    return neg(a)


def b_xor(a, b):
    if a == 0: return b
    if b == 0: return a
    if a == 1: return neg(b)
    if b == 1: return neg(a)
    if a is None or b is None: return None
    if a == b: return 0
    if a[0] == b[0] == 'f' and a[1] == b[1]: return fbit(a[1], a[2] ^ b[2])
    if a == neg(b): return 1
    return None


class Word:
    """little-endian tuple of bits"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = tuple(b)

    def const(self):
        n = 0
        for k, x in enumerate(self.b):
            if x == 1:
                n |= 1 << k
            elif x != 0:
                return None
        return n

    def __repr__(self):
        return 'Word(%s)' % (self.const() if self.const() is not None else ','.join(map(str, self.b)))


class Aff:
    """base + named offsets + constant"""
    __slots__ = ('t', 'c', 'w')

    def __init__(self, t, c, w=64):
        self.t = t; self.c = c; self.w = w       # t: frozenset of (name, coefficient)

    def key(self):
        return (self.t, self.c)

    def __repr__(self):
        return '+'.join(['%s%s' % ('' if k == 1 else '%d*' % k, n) for n, k in sorted(self.t, key=str)] + [str(self.c)])


TOP = Word((None,) * 64)


def word(n, w):
    return Word((n >> k) & 1 for k in range(w))


def sym(name, w):
    return Word(('s', name, k) for k in range(w))


def aff(name, c=0):
    return Aff(frozenset([(name, 1)]), c)


def addaff(a, b, sa=1, sb=1, w=64):
    d = {}
    for x, s in ((a, sa), (b, sb)):
        for n, k in x.t:
            d[n] = d.get(n, 0) + k * s
    return Aff(frozenset((n, k) for n, k in d.items() if k), a.c * sa + b.c * sb, w)


def signed(n, w):
    n &= (1 << w) - 1
    return n - (1 << w) if n >> (w - 1) else n


class Machine:
    """one run: concrete control flow over symbolic bits"""

    def __init__(self, m, offsets=(), choice=(), hook=None, budget=200000):
        self.m = m; self.offsets = set(offsets); self.mem = {}; self.asg = {}; self.choice = list(choice); self.taken = []
        self.steps = 0; self.budget = budget; self.hook = hook; self.fns = set(); self.fresh = 0; self.ext = {}

    # ---- values
    def toaff(self, v):
        if isinstance(v, Aff):
            return v
        c = v.const()
        if c is None:
            return None
        return Aff(frozenset(), signed(c, len(v.b)), 64)

    def norm(self, v, w):
        if isinstance(v, Aff):
            if not v.t:
                return word(v.c, w)
            return v
        v2 = self.sub(v)
        if len(v2.b) == w:
            return v2
        return Word((v2.b + (None,) * w)[:w]) if v2 is not TOP else Word((None,) * w)

    def sub(self, v):
        if not self.asg:
            return v
        return Word(self.sb(x) for x in v.b)

    def sb(self, x):
        if isinstance(x, tuple):
            if x in self.asg:
                return self.asg[x]
            if x[0] == 'n' and x[1] in self.asg:
                return 1 - self.asg[x[1]]
        return x

    def operand(self, env, o, w=64):
        k = o[0]
        if k == 'i':
            if o[1] in env:
                return env[o[1]]
            return Word((None,) * w)
        if k == 'c':
            return word(int(o[1]), o[2])
        if k == 'a':
            return env[('a', o[1])]
        if k in ('n', 'z'):
            return word(0, 64)
        if k == 'g':
            return aff(('g', o[1]), o[2])
        if k == 'ce' and o[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
            return self.operand(env, o[2][0], w)
        return TOP

    # ---- memory
    def split(self, p):
        a = self.toaff(p)
        if a is None:
            raise Undecided('address not followed')
        base = [n for n, k in a.t if n not in self.offsets and k == 1]
        if len(base) != 1 or any(n not in self.offsets and n != base[0] for n, k in a.t):
            raise Undecided('address not followed (%r)' % a)
        return base[0], (frozenset(x for x in a.t if x[0] != base[0]), a.c)

    def store(self, p, size, v):
        b, (t, c) = self.split(p)
        mm = self.mem.setdefault(b, {})
        for k in range(-7, size):
            x = mm.get((t, c + k))
            if isinstance(x, tuple) and c + k + x[1] > c:
                for j in range(x[1]):
                    mm[(t, c + k + j)] = Word((None,) * 8)
        if isinstance(v, Aff):
            for j in range(1, size):
                mm.pop((t, c + j), None)
            mm[(t, c)] = (v, size)
            return
        v = self.norm(v, max(size * 8, len(v.b)))
        for k in range(size):
            mm[(t, c + k)] = Word((v.b[8 * k:8 * k + 8] + (0,) * 8)[:8])

    def byte(self, b, t, c):
        x = self.mem.setdefault(b, {}).get((t, c))
        if x is None:
            if isinstance(b, tuple) and b[0] == 'g':
                return self.globbyte(b[1], t, c)
            if isinstance(b, tuple) and b[0] in ('local', 'new'):
                return Word((None,) * 8)
            return sym(('m', b, t, c), 8)
        if isinstance(x, tuple):
            return Word((None,) * 8)
        return x

    def globbyte(self, name, t, c):
        g = self.m.globals.get(name)
        if g and g.get('const') and 'init' in g and not t:
            for o, sz, v in g['init']:
                if o <= c < o + sz:
                    if v[0] == 'z' or v[0] == 'n':
                        return word(0, 8)
                    if v[0] == 'bytes':
                        b = bytes.fromhex(v[1])
                        return word(b[c - o], 8) if c - o < len(b) else Word((None,) * 8)
                    if v[0] == 'c':
                        return word(int(v[1]) >> (8 * (c - o)), 8)
        return Word((None,) * 8)

    def load(self, p, size, w, isptr):
        b, (t, c) = self.split(p)
        x = self.mem.get(b, {}).get((t, c))
        if isinstance(x, tuple):
            return x[0] if x[1] == size else Word((None,) * (w or 64))
        bits = ()
        for k in range(size):
            bits += self.byte(b, t, c + k).b
        v = Word(bits)
        return self.norm(Word(bits[:w]) if w and w < len(bits) else v, w or 64)

    # ---- execution
    def run(self, fn, args):
        if not fn.blocks:
            raise Undecided('no body for %s' % fn.dem)
        self.fns.add(fn)
        env = {('a', k): v for k, v in enumerate(args)}
        self.fresh += 1
        return self.exec(fn, env, fn.entry, None, self.fresh, None)[1]

    def phis(self, env, blk, prev):
        vals = {}
        for p in blk.phis:
            for bid, o in p.d['inc']:
                if prev is not None and bid == prev.id:
                    vals[p.id] = self.operand(env, o, p.w or 64); break
        env.update(vals)

    def exec(self, fn, env, blk, prev, frame, until, skipphi=False):
        """-> ('ret', value) or, when the block `until` is reached, ('at', None) with its phis evaluated"""
        while True:
            if not skipphi:
                self.phis(env, blk, prev)
            skipphi = False
            if until is not None and blk.id == until:
                return ('at', None)
            nxt = None
            for i in blk.insts:
                if i.op in ('phi', 'dbg'):
                    continue
                self.steps += 1
                if self.steps > self.budget:
                    raise Undecided('too many steps')
                if i.op == 'br':
                    s = i.d['succ']
                    if len(s) == 1 or not i.ops or s[0] == s[1]:
                        nxt = s[0]; break
                    c = self.operand(env, i.ops[0], 1)
                    x = self.sb(c.b[0]) if isinstance(c, Word) else None
                    if isinstance(x, tuple):
                        j = self.merge(fn, env, blk, s, x, frame, until)
                        if j is not None:
                            nxt = j; skipphi = True; break
                    nxt = s[0] if self.truth(c) else s[1]
                    break
                if i.op == 'switch':
                    n = self.operand(env, i.ops[0])
                    cv = n.const() if isinstance(n, Word) else None
                    if cv is None:
                        nxt = self.switch(i, n)
                        break
                    w = len(n.b)
                    nxt = i.d['default']
                    for c, to in i.d['cases']:
                        if (int(c) & ((1 << w) - 1)) == cv:
                            nxt = to
                    break
                if i.op == 'ret':
                    return ('ret', self.operand(env, i.ops[0]) if i.ops else None)
                if i.op == 'unreachable':
                    raise Stop(i.where())
                if i.op in ('resume',):
                    raise Thrown()
                if i.op in ('call', 'invoke'):
                    r = self.call(env, i, frame)
                    if i.id is not None and i.ty != 'void' and r is not None:
                        env[i.id] = r
                    if i.op == 'invoke':
                        nxt = i.d['normal']; break
                    continue
                self.inst(env, i, frame)
            if nxt is None:
                raise Undecided('no terminator')
            prev = blk; blk = fn.bmap[nxt]

    def switch(self, i, n):
        raise Undecided('switch on an unknown value')

    def merge(self, fn, env, blk, succ, x, frame, until):
        """both arms of a branch on one unknown bit, joined again where they meet; None when they cannot be joined"""
        j = ipdom(fn).get(blk.id)
        if j is None:
            return None
        mem0 = self.mem; ends = []
        nt = len(self.taken); asg0 = self.asg
        try:
            for s, val in ((succ[0], 1), (succ[1], 0)):
                e = dict(env)
                self.mem = {b: dict(d) for b, d in mem0.items()}
                self.asg = dict(asg0)
                self.asg[x[1] if x[0] == 'n' else x] = 1 - val if x[0] == 'n' else val
                self.nofork = getattr(self, 'nofork', 0) + 1
                try:
                    r = self.exec(fn, e, fn.bmap[s], blk, frame, j)
                finally:
                    self.nofork -= 1
                if r[0] != 'at':
                    raise Undecided('arm leaves the function')
                ends.append((e, self.mem))
        except (Undecided, Stop, Thrown):
            self.mem = mem0; self.asg = asg0; del self.taken[nt:]
            return None
        self.asg = asg0
        (e1, m1), (e2, m2) = ends
        for k in set(e1) & set(e2):
            env[k] = self.mux(x, e1[k], e2[k])
        mem = {}
        for b in set(m1) | set(m2):
            d1, d2 = m1.get(b, {}), m2.get(b, {})
            d = mem[b] = {}
            for k in set(d1) | set(d2):
                v1, v2 = d1.get(k), d2.get(k)
                if v1 == v2 and v1 is not None:
                    d[k] = v1
                elif isinstance(v1, tuple) and isinstance(v2, tuple) and v1[1] == v2[1] and v1[0].key() == v2[0].key():
                    d[k] = v1
                elif isinstance(v1, tuple) or isinstance(v2, tuple):
                    d[k] = Word((None,) * 8)
                else:
                    self.mem = m1 if v1 is None else m2
                    o = self.byte(b, k[0], k[1])
                    d[k] = self.mux(x, v1 if v1 is not None else o, v2 if v2 is not None else o)
        self.mem = mem
        # keep the objects handed out to the caller of this machine in step
        return j

    def mux(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Aff) or isinstance(b, Aff):
            x, y = self.toaff(a), self.toaff(b)
            return a if x is not None and y is not None and x.key() == y.key() else TOP
        if len(a.b) != len(b.b):
            return TOP
        out = []
        for p, q in zip(a.b, b.b):
            out.append(p if p == q else None if p is None or q is None else c if (p, q) == (1, 0) else neg(c) if (p, q) == (0, 1)
                       else b_and(c, p) if q == 0 else b_and(neg(c), q) if p == 0 else c if p == c and q == 0 else None)
        return Word(out)

    def truth(self, v):
        if isinstance(v, Aff):
            raise Undecided('branch on an address')
        x = self.sb(v.b[0])
        if x in (0, 1):
            return bool(x)
        if x is None:
            raise Undecided('branch on an unknown value')
        if getattr(self, 'nofork', 0):
            raise Undecided('branch inside an arm')
        s, pos = (x[1], 0) if x[0] == 'n' else (x, 1)
        k = len(self.taken)
        c = self.choice[k] if k < len(self.choice) else 0
        self.taken.append(c)
        self.asg[s] = c
        return bool(c) if pos else not c

    def inst(self, env, i, frame):
        op = i.op
        if op == 'alloca':
            env[i.id] = aff(('local', frame, i.id))
            self.mem.pop(('local', frame, i.id), None)
            return
        if op == 'load':
            env[i.id] = self.load(self.operand(env, i.ops[0]), i.d['size'], i.w or 64, i.ty == 'ptr')
            return
        if op == 'store':
            self.store(self.operand(env, i.ops[1]), i.d['size'], self.operand(env, i.ops[0]))
            return
        if op == 'getelementptr':
            p = self.toaff(self.operand(env, i.ops[0]))
            if p is None or i.d.get('bad'):
                env[i.id] = TOP; return
            p = addaff(p, Aff(frozenset(), i.d['off']))
            for o, k in i.d['var']:
                x = self.toaff(self.operand(env, o))
                if x is None:
                    env[i.id] = TOP; return
                p = addaff(p, x, 1, k)
            env[i.id] = p
            return
        ops = [self.operand(env, o) for o in i.ops]
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze'):
            env[i.id] = ops[0]; return
        if op in ('zext', 'sext', 'trunc'):
            v = ops[0]; w = i.w; sw = i.d['sw']
            if isinstance(v, Aff):
                env[i.id] = v if v.t else word(v.c, w); return
            b = self.norm(v, sw).b
            env[i.id] = Word(b[:w]) if op == 'trunc' else Word(b + ((0,) if op == 'zext' else (b[-1],)) * (w - sw))
            return
        if op == 'icmp':
            env[i.id] = Word((self.icmp(i.d['pred'], ops[0], ops[1], i.d.get('ow', 64)),)); return
        if op == 'select':
            c = self.sb(ops[0].b[0]) if isinstance(ops[0], Word) else None
            if c in (0, 1):
                env[i.id] = ops[1] if c else ops[2]; return
            if isinstance(ops[1], Word) and isinstance(ops[2], Word) and i.w:
                x, y = self.norm(ops[1], i.w), self.norm(ops[2], i.w)
                env[i.id] = Word(p if p == q and p is not None else c if (p, q) == (1, 0) else neg(c) if (p, q) == (0, 1) else b_and(c, p) if q == 0 else b_and(neg(c), q) if p == 0 else None for p, q in zip(x.b, y.b))
                return
            env[i.id] = TOP; return
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'):
            env[i.id] = self.arith(op, ops[0], ops[1], i.w); return
        if op in ('extractvalue', 'insertvalue', 'landingpad'):
            env[i.id] = TOP; return
        if i.id is not None:
            env[i.id] = Word((None,) * (i.w or 64))

    def icmp(self, pred, a, b, w):
        if isinstance(a, Aff) and a.t or isinstance(b, Aff) and b.t:
            x, y = self.toaff(a), self.toaff(b)
            if x is None or y is None:
                return None
            d = addaff(x, y, 1, -1)
            lo = hi = d.c
            for n, k in d.t:
                if n in self.offsets:
                    if k > 0: hi = None
                    else: lo = None
                else:
                    # an address against null or another object
                    if not x.t or not y.t or len([1 for n_, _ in d.t if n_ not in self.offsets]) > 1:
                        return {'eq': 0, 'ne': 1}.get(pred) if pred in ('eq', 'ne') else (1 if pred[1:] in ('gt', 'ge') else 0) if not y.t else None
                    return None
            if lo is not None and hi is not None:
                return int({'eq': lo == 0, 'ne': lo != 0, 'ugt': lo > 0, 'sgt': lo > 0, 'uge': lo >= 0, 'sge': lo >= 0, 'ult': lo < 0, 'slt': lo < 0, 'ule': lo <= 0, 'sle': lo <= 0}[pred])
            if lo is not None and lo > 0:
                return int(pred in ('ne', 'ugt', 'sgt', 'uge', 'sge'))
            if hi is not None and hi < 0:
                return int(pred in ('ne', 'ult', 'slt', 'ule', 'sle'))
            if lo == 0 and pred in ('uge', 'sge', 'ult', 'slt'):
                return int(pred in ('uge', 'sge'))
            if hi == 0 and pred in ('ule', 'sle', 'ugt', 'sgt'):
                return int(pred in ('ule', 'sle'))
            return None
        x, y = self.norm(a, w), self.norm(b, w)
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None:
            if pred[0] == 's':
                cx, cy = signed(cx, w), signed(cy, w)
            return int({'eq': cx == cy, 'ne': cx != cy, 'gt': cx > cy, 'ge': cx >= cy, 'lt': cx < cy, 'le': cx <= cy}[pred if pred in ('eq', 'ne') else pred[1:]])
        if pred in ('eq', 'ne'):
            r = 1
            for p, q in zip(x.b, y.b):
                r = b_and(r, neg(b_xor(p, q)))
                if r == 0:
                    break
            return r if pred == 'eq' else neg(r)
        # unsigned range from the known bits
        lo = lambda v: sum(1 << k for k, z in enumerate(v.b) if z == 1)
        hi = lambda v: sum(1 << k for k, z in enumerate(v.b) if z != 0)
        if pred[0] == 'u' or (x.b[-1] == 0 and y.b[-1] == 0):
            p = pred[1:]
            if p in ('lt', 'le'):
                x, y = y, x; p = {'lt': 'gt', 'le': 'ge'}[p]
            e = 1 if p == 'gt' else 0
            if lo(x) >= hi(y) + e: return 1
            if hi(x) < lo(y) + e: return 0
            if hi(x) == 1 and not e and lo(y) == hi(y) == 1 or hi(x) == 1 and e and hi(y) == 0:
                return x.b[0]
            if e and hi(y) == 0:
                r = 0
                for z in x.b:
                    r = b_or(r, z)
                return r
        elif pred[0] == 's' and y.const() == 0 and pred in ('slt', 'sge'):
            return x.b[-1] if pred == 'slt' else neg(x.b[-1])
        return None

    def arith(self, op, a, b, w):
        if isinstance(a, Aff) and a.t or isinstance(b, Aff) and b.t:
            x, y = self.toaff(a), self.toaff(b)
            if x is None or y is None:
                return TOP if op != 'and' else Word((None,) * w)
            if op == 'add': return self.fold(addaff(x, y, 1, 1), w)
            if op == 'sub': return self.fold(addaff(x, y, 1, -1), w)
            if op in ('mul', 'shl', 'sdiv', 'udiv', 'ashr', 'lshr'):
                if not y.t:
                    k = y.c if op in ('mul', 'sdiv', 'udiv') else 1 << y.c
                    if op in ('mul', 'shl'):
                        return self.fold(Aff(frozenset((n, c * k) for n, c in x.t), x.c * k), w)
                    if k and all(c % k == 0 for n, c in x.t) and x.c % k == 0:
                        return self.fold(Aff(frozenset((n, c // k) for n, c in x.t), x.c // k), w)
            return Word((None,) * w)
        x, y = self.norm(a, w), self.norm(b, w)
        cx, cy = x.const(), y.const()
        if op == 'and': return Word(b_and(p, q) for p, q in zip(x.b, y.b))
        if op == 'or': return Word(b_or(p, q) for p, q in zip(x.b, y.b))
        if op == 'xor': return Word(b_xor(p, q) for p, q in zip(x.b, y.b))
        if op == 'mul' and cy is None and cx is not None:
            x, y, cx, cy = y, x, cy, cx
        if op in ('mul', 'udiv', 'urem') and cy is not None and cx is None and cy and not cy & (cy - 1):
            k = cy.bit_length() - 1
            if op == 'urem':
                return Word(x.b[:k] + (0,) * (w - k))
            op = 'shl' if op == 'mul' else 'lshr'; cy = k
        if op in ('shl', 'lshr', 'ashr') and cy is not None:
            if cy >= w:
                return Word((None,) * w)
            if op == 'shl': return Word(((0,) * cy + x.b)[:w])
            return Word(x.b[cy:] + ((0,) if op == 'lshr' else (x.b[-1],)) * cy)
        if cx is not None and cy is not None:
            sx, sy = signed(cx, w), signed(cy, w)
            if op == 'add': return word(cx + cy, w)
            if op == 'sub': return word(cx - cy, w)
            if op == 'mul': return word(cx * cy, w)
            if op == 'udiv' and cy: return word(cx // cy, w)
            if op == 'urem' and cy: return word(cx % cy, w)
            if op == 'sdiv' and cy: return word(int(abs(sx) // abs(sy)) * (1 if (sx >= 0) == (sy >= 0) else -1), w)
            if op == 'srem' and cy: return word((abs(sx) % abs(sy)) * (1 if sx >= 0 else -1), w)
            return Word((None,) * w)
        if op == 'add' and all(p == 0 or q == 0 for p, q in zip(x.b, y.b)):
            return Word(b_or(p, q) for p, q in zip(x.b, y.b))
        if op in ('add', 'sub'):
            # ripple while it can be followed
            carry = 0 if op == 'add' else 1
            out = []
            for p, q in zip(x.b, y.b):
                if op == 'sub':
                    q = neg(q)
                s = b_xor(b_xor(p, q), carry)
                out.append(s)
                carry = b_or(b_or(b_and(p, q), b_and(p, carry)), b_and(q, carry))
            return Word(out)
        return Word((None,) * w)

    def fold(self, a, w):
        if not a.t:
            return word(a.c, w)
        return a

    def call(self, env, i, frame):
        cal = i.d['callee']
        args = [self.operand(env, o) for o in i.ops]
        fn = self.m.funcs.get(cal[1]) if cal[0] == 'g' else None
        if fn is None:
            raise Undecided('indirect call at %s' % i.where())
        n = fn.dem
        if self.hook is not None:
            r = self.hook(self, i, fn, args)
            if r is not NotImplemented:
                return r
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.stack', 'llvm.experimental')):
            return None
        if n.startswith(('llvm.memset',)) or fn.base == 'memset':
            k = self.toaff(args[2])
            if k is None or k.t:
                raise Undecided('block length')
            for j in range(k.c):
                self.store(addaff(self.toaff(args[0]), Aff(frozenset(), j)), 1, self.norm(args[1], 8))
            return args[0]
        if n.startswith(('llvm.memcpy', 'llvm.memmove')) or fn.base in ('memcpy', 'memmove'):
            k = self.toaff(args[2])
            if k is None or k.t:
                raise Undecided('block length')
            sb, (st_, sc) = self.split(args[1]) if k.c else (None, (None, 0))
            db, (dt, dc) = self.split(args[0]) if k.c else (None, (None, 0))
            vals = []
            j = 0
            while j < k.c:
                x = self.mem.get(sb, {}).get((st_, sc + j))
                if isinstance(x, tuple):
                    vals.append((j, x[1], x[0])); j += x[1]
                else:
                    vals.append((j, 1, self.byte(sb, st_, sc + j))); j += 1
            for j, s, v in vals:
                self.store(addaff(self.toaff(args[0]), Aff(frozenset(), j)), s, v)
            return args[0]
        if n.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            c = self.icmp(('s' if n[5] == 's' else 'u') + 'lt', args[0], args[1], i.w)
            if c is None or isinstance(c, tuple):
                raise Undecided('minimum of unknown values')
            return args[0] if bool(c) == ('min' in n) else args[1]
        if n.startswith('llvm.'):
            return Word((None,) * (i.w or 64))
        if fn.noret:
            raise Stop(i.where())
        if fn.blocks:
            return self.run(fn, args)
        raise Undecided('call of %s' % n[:80])


def ipdom(fn):
    r = getattr(fn, '_ipdom', None)
    if r is None:
        dead = {b.id for b in fn.blocks if b.insts[-1].op in ('unreachable', 'resume')}
        ch = True
        while ch:                # blocks that only lead to a stop
            ch = False
            for b in fn.blocks:
                if b.id not in dead and b.succ and all(s.id in dead for s in b.succ):
                    dead.add(b.id); ch = True
        ids = {b.id for b in fn.blocks if b.id in fn.rpoi and b.id not in dead}
        pd = {b: set(ids) for b in ids}
        order = [b for b in reversed(fn.rpo) if b.id in ids]
        ch = True
        while ch:
            ch = False
            for b in order:
                ss = [pd[s.id] for s in b.succ if s.id in ids]
                n = (set.intersection(*ss) if ss else set()) | {b.id}
                if n != pd[b.id]:
                    pd[b.id] = n; ch = True
        r = {}
        for b in ids:
            c = pd[b] - {b}
            for x in c:
                if len(pd[x] & c) == len(c):
                    r[b] = x; break
        fn._ipdom = r
    return r


def explore(make, limit=2048):
    """run make(choice) for every choice of the branches on unknown input bits; yields each finished machine and result"""
    stack = [[]]
    n = 0
    while stack:
        ch = stack.pop()
        n += 1
        if n > limit:
            raise Undecided('too many paths')
        mc, res = make(ch)
        yield mc, res
        for k in range(len(ch), len(mc.taken)):
            stack.append(mc.taken[:k] + [1 - mc.taken[k]])
