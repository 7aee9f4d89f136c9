"""C12: one owner per block; copies, aliases and self-assignment."""
from .common import *
from ..shapes import par
from .vectors import VEC, vrec, layout

N = 5                        # elements of a block
SHAPES = ('empty', 'own', 'part', 'one', 'alias', 'none')


class OwnRule(RuleBase):
    concrete = True
    max_states = 60
    budget = 60000

    def __init__(self, name):
        super().__init__(); self.name = name; self.foreign = (); self.und = None; self.unroll = 40

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items())

    def bad(self, st, kind, i, msg):
        if ('bad',) not in st.ts:
            st.ts[('bad',)] = (kind, msg, i.where() if i is not None else '')

    def on_access(self, eng, st, i, kind, base, off, size, val, ctx):
        if base is not None and st.ts.get(('freed', base)):
            if isinstance(size, Lin) and not st.res(size).t and st.res(size).c <= 0 or size == 0:
                return
            self.bad(st, 'use', i, '%s %s after it was freed' % ('reads' if kind == 'load' else 'writes', base.name))

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if base == 'operator new[]':
            st.nheap += 1
            a = eng.atom('heap', (ctx.path, i.id, st.nheap), 'the block allocated at %s' % i.where(), 'p', 1)
            a.meta = {'size': eng.tolin(st, args[0])}
            st.ts[('new', a)] = True
            return [(st, lin(a))]
        if base in ('operator delete[]', 'operator delete', 'free'):
            v = st.res(eng.tolin(st, args[0]))
            if not v.t:
                return [(st, ZERO)]
            b, o = eng.addr(st, v)
            if b is None or isinstance(o, Lin):
                st.ts[('und',)] = 'frees an address that is not followed'
                return [(st, ZERO)]
            if b in self.foreign:
                self.bad(st, 'foreign', i, 'frees %s, which no vector owns' % b.name)
            elif o != 0:
                self.bad(st, 'inside', i, 'frees an address inside %s' % b.name)
            elif st.ts.get(('freed', b)):
                self.bad(st, 'twice', i, 'frees %s twice' % b.name)
            st.ts[('freed', b)] = True
            st.note((i.where(), 'frees %s' % b.name))
            return [(st, ZERO)]
        if base in ('memcmp', 'bcmp', 'sscanf', 'strlen'):
            return [(st, eng.retval(i, fn))]
        if fn is not None and not fn.repo and ('ostream' in fn.dem or 'basic_string' in fn.dem or 'std::ios' in fn.dem):
            return [(st, args[0] if i.ty == 'ptr' and args else eng.retval(i, fn) if i.ty != 'void' else ZERO)]
        if fn is not None and fn.repo and fn.blocks and not any(v in fn.dem for v in VEC) and not fn.file.endswith('.h'):
            return cutcall(eng, st, i, fn, args)
        return None


def block(eng, st, rule, tag, es, foreign=False):
    a = eng.atom('heap', ('block', tag), 'the block of %s' % tag if not foreign else 'a block of the caller', 'p', 1)
    a.meta = {'size': const(N * es)}
    for k in range(N):
        x = eng.atom('param', ('element', tag, k), 'element %d of %s' % (k, tag), 8 * min(es, 8))
        st_store(eng, st, a, k, es, x)
    if foreign:
        rule.foreign += (a,)
    return a


def st_store(eng, st, a, k, es, x):
    if es <= 8:
        eng.store(st, a, k * es, es, lin(x))
    else:
        for j in range(0, es, 8):
            eng.store(st, a, k * es + j, min(8, es - j), lin(eng.atom('param', ('part', a.key, k, j), 'element part', 64)))


def shape(eng, st, rule, v, lay, how, name, peer):
    """put vector object v into a state; -> (its own block or None, contents [(block, first, count)])"""
    es, od, os_, oe = lay
    d = ZERO; b = None; first = n = 0; blk = None
    if how in ('own', 'part', 'one', 'none'):
        blk = b = block(eng, st, rule, name, es); d = lin(b); first, n = {'own': (0, N), 'part': (1, 3), 'one': (2, 1), 'none': (1, 0)}[how]
    elif how == 'alias':
        b = block(eng, st, rule, name, es, True); first, n = 1, 3
    elif how in ('sub', 'whole', 'front', 'back'):
        b = peer; first, n = {'sub': (1, 3), 'whole': (0, N), 'front': (0, 2), 'back': (3, 2)}[how]
    for off, val in ((od, d), (os_, lin(b) + first * es if b is not None else ZERO), (oe, lin(b) + (first + n) * es if b is not None else ZERO)):
        eng.store(st, v, off, 8, val)
    return blk, (b, first, n)


def read(eng, st, v, lay, f=None):
    es, od, os_, oe = lay
    return [st.res(eng.tolin(st, eng.load(st, v, o, 8, 'p'))) for o in (od, os_, oe)]


def elems(eng, st, b, first, n, es):
    out = []
    for k in range(first, first + n):
        for j in range(0, es, 8):
            out.append(st.res(eng.tolin(st, eng.load(st, b, k * es + j, min(es - j, 8), 8 * min(es - j, 8)))))
    return out


COPIES = ('operator=', 'clone', 'dup')


def c12(cx):
    m = cx.m
    cx.rule('Every public operation, constructor and destructor of the vector classes (all instantiations), from every ownership situation of the vectors involved: empty, owner of a block, owner narrowed to a part, alias of foreign memory, alias of the other vector\'s block (all of it, its front, middle or back), the same object. '
            'Rule: only a block this vector owns is freed, at its start, once, and never used afterwards; afterwards every block not freed has exactly one owner; the vector assigned to and the result do not point at freed memory; '
            'a copy, an assignment and an alias hold exactly the elements the source held, and a copy of or assignment from an owner owns its elements. As every operation keeps these rules from every situation, every sequence of operations does.')
    fs = [f for f in methods_of(m, VEC, ctors=True) if f.blocks and (is_public(m, f) or is_ctor(f) or is_dtor(f))]
    if len(fs) < 20:
        raise core.Broken('vector classes not found')
    total = 0
    for f in fs:
        if is_ctor(f) and not is_public(m, f):
            continue
        total += one(cx, m, f)
    cx.atleast('situations', total, 200)


def one(cx, m, f):
    sret = 1 if f.args and f.args[0].get('sret') else 0
    thisk = sret
    probe = Engine(m, OwnRule(f.base), Models())
    args = probe.params(f)
    vecs = []
    for k, v in enumerate(args):
        a = v.single() if isinstance(v, Lin) else None
        if a is None or k < sret:
            continue
        rec = vrec(m, a.pt) if a.pt is not None else None
        if rec is not None and layout(rec) is not None:
            vecs.append((k, layout(rec), rec))
    ctor, dtor = is_ctor(f), is_dtor(f)
    rt = m.type(f.d['ditypes'][0]) if f.d.get('ditypes') else None
    rlay = None
    if sret and rt is not None:
        r = vrec(m, rt.strip())
        rlay = layout(r) if r is not None else None
    ins = [x for x in vecs if not (ctor and x[0] == thisk)]
    this = next((x for x in vecs if x[0] == thisk), None)
    if this is None:
        return 0
    if not ins:
        combos = [()]
    elif len(ins) == 1:
        combos = [(s,) for s in SHAPES]
    else:
        rest = SHAPES + ('sub', 'whole', 'front', 'back', 'same')
        combos = [(a, b) for a in SHAPES for b in rest if b not in ('sub', 'whole', 'front', 'back') or a in ('own', 'part', 'one')]
        if len(ins) == 2:
            combos += [('of the other', 'own'), ('of the other', 'part')]
        if len(ins) == 3:
            combos = [(a, b, c) for a, b in combos for c in ('own', 'alias', 'same', 'sub') if c != 'sub' or a in ('own', 'part', 'one')]
        elif len(ins) > 3:
            cx.undecided(f.dem, 'too many vectors'); return 0
    count = 0
    for combo in combos:
        count += situation(cx, m, f, vecs, ins, this, combo, ctor, dtor, sret, rlay)
    return count


def situation(cx, m, f, vecs, ins, this, combo, ctor, dtor, sret, rlay):
    thisk = this[0]
    label = '%s [%s]' % (f.dem[:140], ', '.join(combo))
    rule = OwnRule(f.base)
    eng = Engine(m, rule, Models())
    eng.LIMIT = 10.0
    st = State()
    args = eng.params(f)
    nums = 0
    owned = {}; objs = []; contents = {}; aliasof = {}
    first = None
    for k, lay, rec in vecs:
        a0 = args[k].single()
        a = eng.atom('heap', ('object', k), a0.name, 'p', 1); a.pt = a0.pt; a.lo = 1
        args[k] = lin(a)
    if sret:
        a0 = args[0].single()
        a = eng.atom('heap', ('object', 'result'), 'result', 'p', 1); a.pt = a0.pt
        args[0] = lin(a)
    order = list(zip(ins, combo))
    if combo and combo[0] == 'of the other':
        order.reverse()
    for (k, lay, rec), how in order:
        a = args[k].single()
        if how == 'of the other':
            shape(eng, st, rule, a, lay, 'sub', 'the vector', list(owned)[0])
            contents[k] = (list(owned)[0], 1, 3); aliasof[k] = how
            objs.append((k, a, lay))
            continue
        if how == 'same':
            args[k] = args[ins[0][0]]
            contents[k] = contents[ins[0][0]]
            objs.append((k, args[k].single(), lay))
            continue
        a.lo = 1
        peer = first
        if how in ('sub', 'whole', 'front', 'back') and peer is None:
            return 0
        blk, cont = shape(eng, st, rule, a, lay, how, 'the vector' if k == thisk else 'argument %d' % k, peer)
        if first is None and blk is not None and k == ins[0][0]:
            first = blk
        if blk is not None:
            owned[blk] = a
        contents[k] = cont; aliasof[k] = how
        objs.append((k, a, lay))
    for k, v in enumerate(args):
        a = v.single() if isinstance(v, Lin) else None
        if a is None or any(k == x[0] for x in vecs) or k < sret:
            continue
        if f.args[k]['ty'] in ('i64', 'i32'):
            args[k] = const((1, 2, 0)[nums % 3]); nums += 1
        elif f.args[k]['ty'] == 'ptr':
            a.lo = 1
            if ctor:
                # a block handed over by the caller: the first becomes owned when it is stored as such
                args[k] = None
    if ctor and any(x is None for x in args):
        b = block(eng, st, rule, 'the caller', this[1][0], True)
        rule.foreign = ()
        raw = [k for k, x in enumerate(args) if x is None]
        if par(f) == ['char const*']:
            return 0
        for n, k in enumerate(raw):
            args[k] = lin(b) + (this[1][0] * 3 if n == 2 else this[1][0] if n == 1 else 0)
        handed = b
    else:
        handed = None
    old = {k: elems(eng, st, b, fi, n, lay[0]) if b is not None else [] for (k, lay, rec) in ins for b, fi, n in [contents[k]]}
    try:
        exits = eng.run(f, st, args)
    except Budget as e:
        cx.undecided(label, str(e)); return 0
    cx.fn(f)
    for g in eng.inlined:
        cx.fn(m.funcs[g])
    ok = True; und = None
    live = [(k, a, lay) for k, a, lay in objs if not (dtor and k == thisk)]
    seen = set(); live2 = []
    if ctor:
        live.insert(0, (thisk, args[thisk].single(), this[1]))
    for x in live:
        if x[1] not in seen:
            seen.add(x[1]); live2.append(x)
    if rlay is not None:
        live2.append(('result', args[0].single(), rlay))
    for e in exits:
        if e.kind != 'ret':
            continue
        s = e.st
        if ('und',) in s.ts:
            und = s.ts[('und',)]; continue

        def viol(kind, msg, where=None):
            cx.fail('C12/%s/%s' % (f.base, kind), where or f.where(), '%s, situation (%s): %s' % (f.base, ', '.join(combo), msg), core.pathlist(s))
        if ('bad',) in s.ts:
            kind, msg, where = s.ts[('bad',)]
            viol(kind, msg, where); ok = False; continue
        owners = {}; state = {}
        for k, a, lay in live2:
            d, p, q = read(eng, s, a, lay)
            state[k] = (d, p, q)
            if d.t:
                b, o = eng.addr(s, d)
                if b is None or isinstance(o, Lin) or b.kind not in ('heap',):
                    und = 'owned block not followed'; break
                if o != 0:
                    viol('inside', 'a vector owns an address inside %s' % b.name); ok = False
                owners.setdefault(b, []).append(k)
        if und:
            continue
        blocks = list(owned) + [k[1] for k in s.ts if k[0] == 'new']
        for b in set(blocks) | set(owners):
            n = len(owners.get(b, ()))
            fr = s.ts.get(('freed', b))
            if b in rule.foreign:
                viol('foreign', '%s is owned by a vector afterwards' % b.name); ok = False
            elif fr and n:
                viol('dangling', '%s was freed but a vector still owns it' % b.name); ok = False
            elif n > 1:
                viol('owners', '%s has %d owners afterwards' % (b.name, n)); ok = False
            elif not fr and not n and b is not handed and b in blocks:
                viol('leak', '%s is neither freed nor owned afterwards' % b.name); ok = False
        for k, a, lay in live2:
            d, p, q = state[k]
            if k != thisk and k != 'result' and aliasof.get(k) in ('sub', 'whole', 'front', 'back', 'of the other') and k != thisk:
                continue
            if p == q or s.prove_eq0(p - q):
                continue
            b, o = eng.addr(s, p)
            if b is not None and s.ts.get(('freed', b)):
                viol('pointing', '%s points at %s, which was freed' % ('the result' if k == 'result' else 'the vector' if k == thisk else 'an argument', b.name)); ok = False
        src = next((k for k, l, r in ins if k != thisk), None)
        iscopy = f.short in COPIES or ctor and len(ins) == 1
        if iscopy and src is not None and len(ins) <= 2 and ok and this[1][0] == dict((k, l) for k, l, r in ins)[src][0]:
            d, p, q = state[thisk]
            es = this[1][0]
            if f.short != 'dup' and not d.t and dict(zip([k for k, l, r in ins], combo))[src] in ('own', 'part', 'one') and p.t and not s.prove_eq0(p - q):
                viol('shared', 'the copy of a vector that owns its block has no block of its own'); ok = False
                continue
            want = old[src]
            b, o = eng.addr(s, p) if p.t else (None, 0)
            n = s.res(q - p)
            if n.t or isinstance(o, Lin):
                und = 'range not followed'
            elif n.c != len(want) * es if es <= 8 else n.c * ((es + 7) // 8) != len(want) * es:
                viol('contents', 'the vector has %d bytes of elements afterwards; the source had %d elements' % (n.c, contents[src][2])); ok = False
            elif n.c:
                got = elems(eng, s, b, o // es, n.c // es, es)
                for x, y in zip(got, want):
                    if x != y:
                        if not x.t or all(z.kind == 'param' for z in x.t):
                            viol('contents', 'an element is %s afterwards; it should be %s' % (x, y)); ok = False
                            break
                        und = 'element not followed (%s)' % x
                        break
    if und:
        cx.undecided(label, und)
    else:
        cx.oblig.append((label, ok))
    return 1
