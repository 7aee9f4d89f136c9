"""C38: elements of constant size arrays are addressed within their bounds."""
from .common import *


def plain(a):
    """a quantity of the caller or of the object, or the plain result of a call"""
    if a.kind == 'ret':
        return a.w != 'p'
    if a.kind == 'ld':
        b = a.key[1]
        while b.kind == 'ld':
            b = b.key[1]
        return b.kind not in ('ret', 'gen', 'fresh', 'uninit', 'part')
    return a.kind in ('param', 'K')


def anybyte(v):
    """a byte of the caller's text read as a signed number: it can have every value of its type"""
    a = v.single() if len(v.t) == 1 and not v.c else None
    if a is not None and a.kind == 'op' and str(a.key[1]) == 'sext8':
        a = a.key[2].single() if isinstance(a.key[2], Lin) else None
        return a is not None and a.kind == 'ld'
    return a is not None and a.kind == 'ld' and a.w == 8 and a.lo is not None and a.lo < 0 and plain(a)


def owns_containers(f):
    """a container is among its own variables: how many elements that has may be its own doing"""
    for b in f.blocks:
        for i in b.insts:
            if i.op == 'alloca' and str(i.d.get('aty') or '').startswith(('%"class.std::', '%"struct.std::')) and any(x in str(i.d['aty']) for x in ('::vector', '::list', '::map', '::deque', '::set')) and 'iterator' not in str(i.d['aty']):
                return True
    return False


def counted(st, v, given=False):
    """a loop counter in v is limited by nothing but quantities of the caller; given: the containers in use are the caller's"""
    def lim(a):
        if plain(a):
            return True
        b = a.key[1] if a.kind == 'ld' and given else None
        return b is not None and b.kind == 'ret' and str(b).startswith('ret_operator')
    ks = [a for a in v.t if a.kind == 'K']
    if not ks:
        return True
    for r in st.ne:
        if any(k in r.t for k in ks) and any(a not in ks for a in r.t):
            return False
    for r in st.facts:
        if any(k in r.t for k in ks) and not all(lim(a) for a in r.t):
            return False
    return True


class BoundRule(RuleBase):
    max_states = 64
    max_depth = 6
    budget = 200000
    unroll = 24
    bytekey = False
    private = False

    def __init__(self, m, fn, req):
        super().__init__(); self.m = m; self.fn = fn; self.name = fn.base; self.req = req; self.more = False

    def on_index(self, eng, st, i, ctx):
        for o, n, es in i.d['arr']:
            if isinstance(o, int):
                continue
            o = list(o) if isinstance(o, (list, tuple)) else o
            if o[0] in ('c', 'ci') or n == 0:
                continue
            v = st.res(eng.tolin(st, eng.operand(st, o, ctx)))
            t = i.d['src'][:40]
            self.check(eng, st, i, v, const(n - 1) - v, v, n, 1, ctx, 'element')

    def on_access(self, eng, st, i, kind, base, off, size, val, ctx):
        if base is None or base.kind != 'alloca' or not base.meta or base.meta.get('count') is not None or not isinstance(off, Lin):
            return
        n = base.meta.get('size')
        if not n or not isinstance(size, int) or size == 0:
            return
        o = st.res(off)
        self.check(eng, st, i, o, const(n - size) - o, o, n, size, ctx, 'byte')

    def check(self, eng, st, i, lo, hi, v, n, size, ctx, what):
        key = 'C38/%s/%s' % (ctx.fn.base, i.where())
        okl = st.prove_ge0(lo); okh = st.prove_ge0(hi)
        if okl and okh:
            self.met(key); return
        if self.private and len(v.t) == 1 and v.single() is not None and what == 'element':
            # judged where the library calls the function
            for k, p in enumerate(eng.params(self.fn)):
                if p.single() is v.single():
                    lo, hi = -v.c, n - 1 - v.c
                    o = self.req.setdefault(self.fn.name, {}).get(k)
                    r = (max(lo, o[0]), min(hi, o[1])) if o else (lo, hi)
                    if r != o:
                        self.req[self.fn.name][k] = r; self.more = True
                    return
        if len(v.t) == 1 and v.c == 0:
            a = v.single()
            if a is not None and a.kind == 'param' and getattr(a, 'ty', None) is not None and a.ty.strip() is not None and a.ty.strip().tag == 'enumeration_type':
                es = sorted(int(x) for _, x in a.ty.strip().d.get('enums', []))
                if es and es[0] >= 0 and (es[-1] < n or es[-1] == n and es[-2] < n):
                    self.met(key); return
        # what the program itself says about the index
        if not v.t or precise(v) and counted(st, v, not hidden(self.m, self.fn) and not owns_containers(self.fn)) or anybyte(v):
            self.met(key, False)
            self.report(st, key, i.where(), '%s uses %s %s of an array of %d' % (ctx.fn.base, what, v, n)); return
        top = None
        if not okh:
            for c in list(range(n - size + 1, n + 18)) + [2 * n, 2 * n + 1, 255, 256, 65535, 65536]:
                if c > n - size and st.prove_ge0(const(c) - v):
                    top = c; break
        bot = None
        if not okl:
            for c in range(1, 9):
                if st.prove_ge0(v + c):
                    bot = -c; break
        if top is not None or bot is not None:
            self.met(key, False)
            self.report(st, key, i.where(), '%s uses %s up to %s of an array of %d: nothing keeps the index below that' % (ctx.fn.base, what, top, n) if top is not None else
                        '%s uses %s from %d on of an array of %d: nothing keeps the index above that' % (ctx.fn.base, what, bot, n)); return
        self.rep.setdefault('vague ' + key, (i.where(), '%s %s of %d' % (what, v, n), []))

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if fn is None or base is None:
            return None
        if base in ('std::min', 'std::max') and len(args) == 2 and fn.dem.split(' ')[0] in ('int', 'unsigned', 'long', 'short'):
            w = 8 if 'long' in fn.dem else 2 if 'short' in fn.dem else 4
            vs = []
            for a in args:
                b, o = eng.addr(st, a)
                if b is None:
                    return None
                vs.append(st.res(eng.tolin(st, eng.load(st, b, o, w, 8 * w))))
            s2 = st.copy()
            st.facts = st.facts | {vs[1] - vs[0]}; s2.facts = s2.facts | {vs[0] - vs[1] - 1}
            lo, hi = (0, 1) if base == 'std::min' else (1, 0)
            return [(st, args[lo]), (s2, args[hi])]
        if not fn.repo or not fn.blocks:
            return None
        if base.startswith(('Log::', 'Mutex::', 'ScopedLock::', 'Signal::')) or base in ('gGetLoggingLevel', 'rn_backtrace'):
            return cutcall(eng, st, i, fn, args)
        for k, (lo, hi) in self.req.get(fn.name, {}).items():
            v = st.res(eng.tolin(st, args[k]))
            self.check(eng, st, i, v - lo, const(hi) - v, v - lo, hi - lo + 1, 1, ctx, 'element')
        for v in args:
            if isinstance(v, Lin):
                b, o = eng.addr(st, st.res(v))
                if b is not None and b.kind == 'alloca' and b.meta and (b.meta.get('size') or 0) > 64 and b.pt is not None and b.pt.tag == 'array_type':
                    return None
        return cutcall(eng, st, i, fn, args)


def indexers(m):
    r = {}
    for f in m.repo_funcs():
        for b in f.blocks:
            for i in b.insts:
                if i.op == 'getelementptr' and i.d.get('arr'):
                    for o, n, es in i.d['arr']:
                        if not isinstance(o, int) and o[0] not in ('c', 'ci'):
                            r.setdefault(f.name, []).append(i)
    return r


def hidden(m, f):
    """only the library itself calls it"""
    return f.d.get('acc') in ('private', 'protected') or bool(f.d.get('internal')) and (f.file or '').endswith('.cpp')


def installed(m):
    """functions the system calls with a signal number"""
    r = set()
    for f in m.repo_funcs():
        for b in f.blocks:
            for i in b.insts:
                if i.op in ('call', 'invoke') and i.d.get('callee') and i.d['callee'][0] == 'g' and i.d['callee'][1] in ('signal', '__sysv_signal', 'bsd_signal', 'sigaction'):
                    r |= {o[1] for o in i.ops if isinstance(o, (list, tuple)) and o[0] == 'g'}
                elif i.op == 'store' and i.ops[0][0] == 'g' and i.ops[0][1] in m.funcs and len(m.funcs[i.ops[0][1]].args) in (1, 3) and (m.funcs[i.ops[0][1]].d.get('ditypes') or [0])[0] in (-1, None):
                    r.add(i.ops[0][1])
    return r


def hands_array(m, f):
    """hands a local array of its own to another function of the library"""
    al = {i.id for b in f.blocks for i in b.insts if i.op == 'alloca' and isinstance(i.d.get('size'), int) and i.d['size'] >= 16}
    if not al:
        return False
    arr = {i.id for b in f.blocks for i in b.insts if i.op == 'getelementptr' and i.d.get('arr') and i.ops[0][0] == 'i' and i.ops[0][1] in al}
    for b in f.blocks:
        for i in b.insts:
            if i.op in ('call', 'invoke') and 'callee' in i.d and i.d['callee'][0] in ('f', 'g'):
                g = m.funcs.get(i.d['callee'][1])
                if g is not None and g.repo and g.blocks and any(o[0] == 'i' and o[1] in arr for o in i.ops):
                    return True
    return False


def c38(cx):
    m = cx.m
    cx.rule('Every function of the library that addresses an element of a constant size array (of a class, of the program or local) with a computed index, and every function that hands a local array to another one, which is followed into. '
            'Rule: at each such place the index is provably at least 0 and below the size of the array, for every value of the arguments and members; functions only the library calls are judged with the arguments their callers give.')
    cx.notes.append('A function installed as a signal handler is given the numbers it was installed for (C27 decides which those are).')
    cx.notes.append('An argument of an enumeration type is one of its enumerators, other than one that counts them.')
    idx = indexers(m)
    cal = callers(m)
    inner = {n for n in idx if hidden(m, m.funcs[n])}
    roots = set(idx); work = list(inner)
    while work:
        for c in cal.get(work.pop(), ()):
            if c not in roots:
                roots.add(c)
                if hidden(m, m.funcs[c]):
                    inner.add(c); work.append(c)
    roots |= {f.name for f in m.repo_funcs() if f.blocks and hands_array(m, f)}
    gl = [g for g in m.globals if not g.startswith('_ZTV')]
    req = {}
    sig = installed(m)
    order = [n for n in sorted(roots) if not (m.funcs[n].file or '').endswith('inst.cpp') and n not in sig]
    todo = sorted(order, key=lambda n: n not in inner)
    res = {}
    while todo:
        n = todo.pop(0)
        f = m.funcs[n]
        cx.fn(f)
        rule = BoundRule(m, f, req)
        rule.private = hidden(m, f) or bool(cal.get(n)) and cal[n] <= sig
        eng = Engine(m, rule, Models()); st = State()
        for g in gl:
            preset(eng, st, g)
        try:
            eng.run(f, st)
            res[n] = rule
            for x in eng.inlined:
                cx.fn(m.funcs[x])
        except Budget as e:
            res[n] = str(e)
        if rule.more:
            # a stronger demand on the callers
            todo += [c for c in order if c not in todo and c in cal.get(n, ())]
    for n in order:
        rule = res[n]
        if isinstance(rule, str):
            cx.undecided(m.funcs[n].base, rule); continue
        for k in [k for k in rule.rep if k.startswith('vague ')]:
            cx.undecided(k[6:], rule.rep.pop(k)[1])
        drain(cx, rule)
