"""C08 and C09: order and ownership in the lists, queues and pointer maps.

The operations are followed on exact heap shapes: starting from the constructed container, every public operation is applied
to every shape (up to renaming of nodes) reachable with at most a few elements, and the result, the observable contents and the
elements deleted are compared with the contents the container has to have.  No member or node layout is assumed."""
from .common import *
from ..shapes import Shapes
from ..engine import Ctx
from ..models import m_new

CAP = 3                                    # elements inside at the same time
FRESH = False                              # put in elements the container has no trace of, where there are any
MAXSHAPES = 2000

SYNC = ('Mutex::', 'Signal::')


class SeqRule(RuleBase):
    concrete = True
    explicit = True

    def __init__(self, name):
        super().__init__(); self.name = name; self.sh = Shapes(); self.els = (); self.stops = []; self.hist = []

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items() if k[0] in ('del', 'freed', 'LS', 'M', 'bad', 'clk'))

    def on_access(self, eng, st, i, kind, base, off, size, val, ctx):
        if base is not None and st.ts.get(('freed', base)):
            st.ts[('bad',)] = ('uses a node after freeing it', i.where())

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if base is not None and base.startswith(SYNC):
            if base == 'Signal::wait':
                st.ts[('wait',)] = True
                return []
            return [(st, T if i.ty == 'i1' else const(1) if base.endswith('lockcnt') else ZERO)]
        if base in ('__assert_fail', 'abort', 'exit', '_exit'):
            st.note((i.where(), 'the program stops')); self.stops.append(st.copy())
            return []
        if base in ('operator new', 'operator new[]', 'malloc') and (len(args) < 2 or 'void*' not in fn.dem):
            r = m_new(eng.models, eng, st, i, fn, args, ctx)
            st.ts[('new', r[0][1].single())] = i.where()
            return r
        if base in ('operator delete', 'operator delete[]', 'free') and args:
            v = st.res(eng.tolin(st, args[0])); a = v.single()
            if not v.t:
                return [(st, ZERO)]
            if a is None:
                st.ts[('und',)] = 'deletes an address that is not followed'
                return [(st, ZERO)]
            if a in self.els:
                st.ts[('del', a)] = st.ts.get(('del', a), 0) + 1
                st.note((i.where(), 'element %s is deleted' % a.name))
            else:
                if st.ts.get(('freed', a)):
                    st.ts[('bad',)] = ('frees a node twice', i.where())
                st.ts[('freed', a)] = True
                st.ts.pop(('new', a), None)
            return [(st, ZERO)]
        if base is not None and base.startswith('Timeval::'):
            if base in ('Timeval::remaining', 'Timeval::passed', 'Timeval::elapsed'):
                return [(st, eng.retval(i, fn))]
            return [(st, ZERO)] if i.ty == 'void' else None
        r = self.sh.call(eng, st, i, fn, base, args, ctx)
        if r is not None:
            return r
        if base is not None and base.startswith('std::priority_queue::'):
            return self.pq(eng, st, i, fn, base.rsplit('::', 1)[-1], args)
        return None

    # a priority queue hands out and removes the same element until it is changed
    def pq(self, eng, st, i, fn, m, args):
        b, o = eng.addr(st, args[0])
        if b is None or isinstance(o, Lin):
            return None
        cur = st.ts.get(('LS', b, o), ())
        if m == 'priority_queue':
            st.ts[('LS', b, o)] = (); return [(st, ZERO)]
        if m == 'size':
            return [(st, const(len(cur)))]
        if m == 'empty':
            return [(st, F if cur else T)]
        if m in ('push', 'emplace'):
            nd = self.sh.newnode(eng, None, 'element')
            sb, so = eng.addr(st, args[1])
            eng.store(st, nd, 16, 8, st.res(eng.load(st, sb, so, 8, 'p')))
            st.ts[('LS', b, o)] = cur + (nd,); return [(st, ZERO)]
        if m == 'top':
            if not cur:
                st.ts[('bad',)] = ('takes the top of an empty priority queue', i.where()); return [(st, ZERO)]
            return [(st, lin(cur[0]) + 16)]
        if m == 'pop':
            if not cur:
                st.ts[('bad',)] = ('pops an empty priority queue', i.where()); return [(st, ZERO)]
            st.ts[('LS', b, o)] = cur[1:]; return [(st, ZERO)]
        if m.startswith('~'):
            return [(st, ZERO)]
        return None


def canon(st, root, model, els, reach=None, sizes=None):
    """the shape reachable from the container, independent of the names of nodes; None if something is not exactly known"""
    num = {root: 0}; order = [root]; out = []
    for n, e in enumerate(model):
        e = e[1] if isinstance(e, tuple) else e
        if e not in num:
            num[e] = len(num); order.append(e)
    cells = {}; owner = {}
    for e, v in (sizes or {}).items():
        for a in v.t:
            owner[a] = e
    for (b, o), (sz, v) in st.mem.items():
        if isinstance(o, int):
            cells.setdefault(b, []).append((o, sz, v))
    k = 0

    def val(v):
        if not isinstance(v, Lin):
            return str(v)
        v = st.res(v)
        r = []
        for a, c in sorted(v.t.items(), key=lambda x: (num.get(owner.get(x[0], x[0]), 10 ** 6), str(x[0].name))):
            if a in owner and owner[a] in num:
                r.append((('size', num[owner[a]]), c)); continue
            if FRESH and a in els and a not in num:
                r.append((-1, c)); continue
            if a.kind == 'heap' and a not in num:
                num[a] = len(num); order.append(a)
            r.append((num.get(a, str(a.name) if a.kind != 'fresh' else id(a)), c))
        return (tuple(r), v.c)
    while k < len(order):
        b = order[k]; k += 1
        for o, sz, v in sorted(cells.get(b, []), key=lambda x: x[0]):
            out.append((num[b], o, sz, val(v)))
        for key, v in sorted(((key, v) for key, v in st.ts.items() if key[0] in ('LS', 'M') and key[1] is b), key=lambda x: (x[0][0], str(x[0][2]))):
            ents = v if key[0] == 'LS' else v[0]
            for e in ents:
                kk, nd = (None, e) if key[0] == 'LS' else e
                if nd not in num:
                    num[nd] = len(num); order.append(nd)
                out.append((num[b], key[0], key[2], str(kk), num[nd]))
    if reach is not None:
        reach.update(order)
    return tuple(out) + (tuple((e[0], num[e[1]]) if isinstance(e, tuple) else num[e] for e in model),)


class Spec:
    """one container class: its operations with their effect on the contents"""

    def __init__(self, cls, inst, ops, obs, elty, sized=False, keys=None):
        self.cls = cls; self.inst = inst; self.ops = ops; self.obs = obs; self.elty = elty; self.sized = sized; self.keys = keys


class Op:
    """args: what is passed ('el' = an element not inside, ints, 'K1', 'out', 'true'); when(model); do(model, el) -> (model', result, deleted, out)"""

    def __init__(self, name, args, do, when=None, label=None):
        self.name = name; self.args = args; self.do = do; self.when = when; self.label = label or name


def findm(m, inst, name, nargs, match=None):
    """the member functions of the named instance with so many arguments"""
    r = {}
    for f in m.repo_funcs():
        if not f.base.endswith('::' + name):
            continue
        k = f.dem.find('::' + name + '(')
        if k < 0:
            continue
        q = f.dem[:k]
        if q != inst and not ('<' in inst and not inst.endswith('>') and q.startswith(inst)):
            continue
        if len(f.args) - 1 != nargs:
            continue
        if match is not None and not match(m, f):
            continue
        k = f.name.replace('C2E', 'C1E').replace('D2E', 'D1E').replace('D0E', 'D1E')
        if 'D0E' in f.name:
            continue
        r.setdefault(k, f)
        if 'C1E' in f.name or 'D1E' in f.name:
            r[k] = f
    return list(r.values())


def width(m, f, n):
    """(is bool, size, is pointer/reference) of parameter n"""
    dts = f.d.get('ditypes') or []
    t = m.type(dts[n + 1]) if n + 1 < len(dts) else None
    s = t.strip() if t is not None else None
    if s is None:
        return None
    return (s.name == 'bool', s.size, s.tag in ('pointer_type', 'reference_type', 'rvalue_reference_type'))


def fits(kinds):
    def g(m, f):
        for n, k in enumerate(kinds):
            w = width(m, f, n + 1)
            if w is None:
                return False
            if k in ('el', 'out', 'key') and not w[2]:
                return False
            if isinstance(k, bool) and not w[0]:
                return False
            if isinstance(k, int) and not isinstance(k, bool) and (w[0] or w[2]):
                return False
        return True
    return g


def explore(cx, prop, sp):
    m = cx.m
    rule = SeqRule(sp.cls)
    eng = Engine(m, rule, Models(locks=False, signals=False))
    eng.lim_total = None
    rec = None
    ctors = findm(m, sp.cls if sp.cls == 'SaList' else sp.inst, sp.cls, 0)
    dtors = findm(m, sp.inst, '~' + sp.cls, 0)
    if not ctors:
        raise core.Broken('%s: constructor not found' % sp.inst)
    rec = m.type(ctors[0].d['ditypes'][1]).pointee() if len(ctors[0].d.get('ditypes') or []) > 1 else None
    root = eng.atom('heap', ('cont', sp.inst), 'container', 'p', 1); root.pt = rec
    els = []
    for n in range(3 * CAP + 1 if FRESH else CAP + 1):
        a = eng.atom('heap', ('el', n), 'E%d' % (n + 1), 'p', 1); els.append(a)
    rule.els = tuple(els)
    out = eng.atom('heap', ('out',), 'result variable', 'p', 1)
    keya = eng.atom('heap', ('key',), 'key', 'p', 1)
    sizes = {}
    fns = {}
    for op in sp.ops + sp.obs:
        kinds = op.args
        c = findm(m, sp.inst, op.name, len(kinds), fits(kinds))
        if not c and sp.cls == 'InterthreadMap':
            c = findm(m, sp.inst.replace('InterthreadMap<', 'InterthreadMap1<').replace('SaItem>', 'SaItem*>'), op.name, len(kinds), fits(kinds))
        if not c:
            raise core.Broken('%s::%s with %d arguments not found' % (sp.inst, op.name, len(kinds)))
        fns[op] = c[0]
    nobl = 0

    def problem(st, what, f, op, msg, kind=None):
        key = '%s/%s/%s/%s' % (prop, sp.cls, op, what)
        rule.report(st, key, f.where(), '%s::%s %s' % (sp.cls, op, msg))

    def call(st, f, op, model):
        """[(state, value or None if no answer)]"""
        s = st.copy()
        rest = [e for e in els if e not in [x[1] if isinstance(x, tuple) else x for x in model]]
        if FRESH and 'el' in op.args:
            seenp = {a for b, v in s.mem.items() if isinstance(v[1], Lin) for a in v[1].t}
            rest = [e for e in rest if e not in seenp] or rest
        for k in [k for k in s.ts if k[0] in ('del', 'bad', 'wait', 'und')]:
            del s.ts[k]
        args = [lin(root)]; el = None
        for k in op.args:
            if k == 'el':
                el = rest[0]; args.append(lin(el))
            elif k == 'out':
                eng.store(s, out, 0, 8, ZERO); args.append(lin(out))
            elif k == 'key':
                args.append(lin(keya))
            elif isinstance(k, bool):
                args.append(const(1) if k else ZERO)
            else:
                args.append(const(k))
        if op.keyv is not None:
            eng.store(s, keya, 0, 4, const(op.keyv))
        rule.stops = []
        ex = eng.run(f, s, args)
        for s2 in rule.stops[:1]:
            problem(s2, 'stop', f, op.label, 'can stop the program%s' % history(rule.hist))
        return el, ex

    for op in sp.ops + sp.obs:
        if not hasattr(op, 'keyv'):
            op.keyv = None
    st = State()
    if sp.sized:
        for e in els:
            t = eng.fresh('size of ' + e.name, 32); t.lo = 0; t.hi = 1000; sizes[e] = lin(t)
            eng.store(st, e, sp.sized, 4, sizes[e])
    ex = [e for e in eng.run(ctors[0], st, [lin(root)]) if e.kind == 'ret']
    if len(ex) != 1:
        raise core.Broken('%s: construction has %d outcomes' % (sp.cls, len(ex)))
    start = ex[0].st
    shape0 = {k for k in start.ts if k[0] in ('LS', 'M')}
    seen = {canon(start, root, [], els, None, sizes)}
    work = [(start, [], [])]
    shapes = 0
    while work and shapes < MAXSHAPES and not rule.rep:
        st, model, hist = work.pop(0); shapes += 1; rule.hist = hist
        # what can be seen without changing anything
        for op in sp.obs:
            f = fns[op]
            el, ex = call(st, f, op, model)
            want = op.do(model, sizes)
            good = 0
            for e in ex:
                if e.kind != 'ret':
                    continue
                good += 1
                v = e.st.res(eng.tolin(e.st, e.val)) if e.val is not None else ZERO
                want = want if isinstance(want, Lin) else lin(want) if not isinstance(want, int) else const(want)
                d = e.st.res(v - want)
                nobl += 1
                if e.st.ts.get(('bad',)):
                    w = e.st.ts[('bad',)]
                    problem(e.st, 'freed', f, op.label, w[0] + history(hist))
                elif d.t and not set(v.t) <= set(sizes_atoms(sizes)) | set(els):
                    cx.undecided('%s::%s' % (sp.cls, op.label), 'result not followed'); return
                elif d != ZERO:
                    problem(e.st, 'value', f, op.label, 'gives %s instead of %s%s' % (v, want, history(hist)))
                dl = [x for x in els if e.st.ts.get(('del', x))]
                if dl:
                    problem(e.st, 'deletes', f, op.label, 'deletes an element%s' % history(hist))
            if not good:
                problem(st, 'never', f, op.label, 'never returns%s' % history(hist))
        for op in sp.ops:
            if op.when is not None and not op.when(model):
                continue
            if 'el' in op.args and len(model) >= CAP and not sp.keys:
                continue
            f = fns[op]
            el, ex = call(st, f, op, model)
            m2, res, dels, outv = op.do(model, el)
            good = 0
            for e in ex:
                s = e.st
                if e.kind != 'ret':
                    if e.kind == 'throw':
                        problem(s, 'throw', f, op.label, 'throws%s' % history(hist))
                    continue
                if s.ts.get(('und',)):
                    cx.undecided('%s::%s' % (sp.cls, op.label), s.ts[('und',)]); return
                if any(k[0] == 'wait' for k in s.ts):
                    continue
                if lost(s, root, shape0):
                    cx.undecided('%s::%s' % (sp.cls, op.label), 'effect on the container not followed'); rule.rep = {}; return
                good += 1
                nobl += 1
                h2 = hist + [op.label]
                w = s.ts.get(('bad',)) or any(k[0] == 'lbad' for k in s.ts) and ('removes from an empty list', '')
                if w:
                    problem(s, 'freed', f, op.label, w[0] + history(hist)); continue
                if res is not None:
                    v = s.res(eng.tolin(s, e.val)) if e.val is not None else ZERO
                    if not same(v, res):
                        if not known(v, els):
                            cx.undecided('%s::%s' % (sp.cls, op.label), 'result not followed'); return
                        problem(s, 'result', f, op.label, 'returns %s instead of %s%s' % (nm(v), nm(lift(res)), history(hist)))
                if outv is not None:
                    v = s.res(eng.tolin(s, eng.load(s, out, 0, 8, 'p')))
                    if not same(v, outv):
                        if not known(v, els):
                            cx.undecided('%s::%s' % (sp.cls, op.label), 'result variable not followed'); return
                        problem(s, 'result', f, op.label, 'delivers %s instead of %s%s' % (nm(v), nm(lift(outv)), history(hist)))
                inside = [x[1] if isinstance(x, tuple) else x for x in m2]
                for x in els:
                    n = s.ts.get(('del', x), 0)
                    want = 1 if x in dels else 0
                    if n == want:
                        continue
                    what = 'deletes an element twice' if n > 1 else 'does not delete an element it removes' if not n else \
                        'deletes an element that stays inside' if x in inside else 'deletes an element it hands out or does not own'
                    problem(s, 'owner', f, op.label, what + history(hist))
                for x in els:
                    s.ts.pop(('del', x), None)
                reach = set()
                c = canon(s, root, m2, els, reach, sizes)
                for k in [k for k in s.ts if k[0] == 'new' and k[1] not in reach]:
                    problem(s, 'node', f, op.label, 'loses the node allocated at %s%s' % (s.ts.pop(k), history(hist)))
                if c not in seen:
                    seen.add(c); work.append((s, m2, h2))
            if not good:
                problem(st, 'never', f, op.label, 'does not return although it has everything it waits for%s' % history(hist))
        # destruction
        for f in dtors[:1]:
            class O: pass
            o = O(); o.args = (); o.keyv = None; o.label = 'destructor'
            el, ex = call(st, f, o, model)
            for e in ex:
                if e.kind != 'ret':
                    continue
                s = e.st; nobl += 1
                w = s.ts.get(('bad',))
                if w:
                    problem(s, 'freed', f, 'destructor', w[0] + history(hist)); continue
                for k in [k for k in s.ts if k[0] == 'new']:
                    problem(s, 'node', f, 'destructor', 'does not free the node allocated at %s%s' % (s.ts.pop(k), history(hist)))
                if prop != 'C09':
                    continue
                inside = [x[1] if isinstance(x, tuple) else x for x in model]
                want = inside if sp.owns else []
                for x in els:
                    n = s.ts.get(('del', x), 0)
                    if n != (1 if x in want else 0):
                        problem(s, 'owner', f, 'destructor', ('deletes an element twice' if n > 1 else 'does not delete an element still inside' if not n else
                                                             'deletes an element that is not inside') + history(hist))
    for g in eng.inlined:
        cx.fn(m.funcs[g])
    ok = not rule.rep
    for op in sp.ops + sp.obs:
        rule.met('%s::%s on every shape' % (sp.cls, op.label), ok)
    if prop == 'C09':
        rule.met('%s destructor on every shape' % sp.cls, ok)
    cx.notes.append('%s: %d shapes (at most %d elements), %d comparisons%s' % (sp.inst, shapes, CAP, nobl, '' if not work else ', not closed'))
    drain(cx, rule)
    cx.atleast(sp.cls + ' shapes', shapes, 4)


def lost(st, root, keys):
    return any(k not in st.ts for k in keys) or any(k[0] == 'M' and v[1] for k, v in st.ts.items())


def sizes_atoms(sizes):
    r = []
    for v in sizes.values():
        r += list(v.t)
    return r


def lift(v):
    return v if isinstance(v, Lin) else const(v) if isinstance(v, int) else lin(v)


def same(v, want):
    return v == lift(want)


def known(v, els):
    return not v.t or v.single() in els


def nm(v):
    a = v.single()
    return 'nothing' if not v.t and v.c == 0 else a.name if a is not None else str(v)


def history(h):
    return ' (after %s)' % ', '.join(h) if h else ' (on a new container)'


def push_back(model, el):
    return model + [el], None, [], None


def push_front(model, el):
    return [el] + model, None, [], None


def pop(model, el):
    return (model[1:], model[0], [], None) if model else (model, 0, [], None)


def popb(model, el):
    return (model[:-1], model[-1], [], None) if model else (model, 0, [], None)


def clear(model, el):
    return [], None, list(model), None


def flush(model, el):
    return [], None, [], None


def nonempty(model):
    return bool(model)


def total(model, sizes):
    r = ZERO
    for e in model:
        r = r + sizes[e]
    return r


count = lambda model, sizes: const(len(model))
front = lambda model, sizes: lin(model[0]) if model else ZERO
back = lambda model, sizes: lin(model[-1]) if model else ZERO


def keyed(name, args, do, k, when=None, label=None):
    o = Op(name, args, do, when, '%s' % (label or name)); o.keyv = k
    return o


def mget(model, k):
    for kk, e in model:
        if kk == k:
            return e
    return None


def without(model, k):
    return [x for x in model if x[0] != k]


def mapops(owns, keys=(1, 2)):
    ops = []; obs = []
    for k in keys:
        def write(model, el, k=k):
            old = mget(model, k)
            return without(model, k) + [(k, el)], None, [old] if owns and old is not None else [], None

        def getrm(model, el, k=k):
            old = mget(model, k)
            return (without(model, k), 1, [], old) if old is not None else (model, 0, [], None)

        def getkeep(model, el, k=k):
            old = mget(model, k)
            return (model, 1, [], old) if old is not None else (model, 0, [], None)

        def remove(model, el, k=k):
            old = mget(model, k)
            return (without(model, k), 1, [old] if owns else [], None) if old is not None else (model, 0, [], None)

        def rd(model, el, k=k):
            old = mget(model, k)
            return (model, old if old is not None else 0, [], None)
        has = lambda model, k=k: mget(model, k) is not None
        ops += [keyed('write', ('key', 'el'), write, k), keyed('getNoBlock', ('key', 'out', True), getrm, k, None, 'getNoBlock'),
                keyed('getNoBlock', ('key', 'out', False), getkeep, k, None, 'getNoBlock without removal'),
                keyed('get', ('key', 'out', 5, True), getrm, k, has, 'get with timeout'), keyed('get', ('key', 'out', 5, False), getkeep, k, has, 'get with timeout without removal'),
                keyed('get', ('key', 'out', 0, True), getrm, k, None, 'get with timeout 0'), keyed('get', ('key', 'out', 0, False), getkeep, k, None, 'get with timeout 0 without removal'),
                keyed('get', ('key', 'out', True), getrm, k, has, 'get'), keyed('get', ('key', 'out', False), getkeep, k, has, 'get without removal'),
                keyed('remove', ('key',), remove, k), keyed('readNoBlock', ('key',), rd, k), keyed('read', ('key', 5), rd, k, has, 'read with timeout'),
                keyed('read', ('key',), rd, k, has)]
    obs += [Op('size', (), count)]
    return ops, obs


def specs():
    r = []
    fifo = Spec('PointerFIFO', 'PointerFIFO', [Op('put', ('el',), push_back), Op('push_front', ('el',), push_front), Op('get', (), pop)],
                [Op('size', (), count), Op('front', (), front)], None)
    sll = Spec('SingleLinkList', 'SingleLinkList<SaNode>', [Op('push_back', ('el',), push_back), Op('push_front', ('el',), push_front), Op('pop_front', (), pop),
                                                             Op('put', ('el',), push_back), Op('get', (), pop)],
               [Op('size', (), count), Op('totalSize', (), total), Op('front', (), front), Op('back', (), back)], None, sized=8)
    r += [('C08', fifo, False), ('C08', sll, False)]
    pl = Spec('SaList', 'PtrList<SaItem>', [Op('put', ('el',), push_back), Op('get', (), pop), Op('pop_frontr', (), pop), Op('pop_backr', (), popb)], [], None)
    r += [('C08', pl, False)]
    qops = [Op('write', ('el',), push_back), Op('write_front', ('el',), push_front), Op('readNoBlock', (), pop), Op('read', (), pop, nonempty),
            Op('read', (5,), pop, nonempty, 'read with timeout'), Op('read', (0,), pop, None, 'read with timeout 0'), Op('clear', (), clear), Op('flushNoDelete', (), flush)]
    for inst, sized in (('InterthreadQueue<SaItem, SaList>', False), ('InterthreadQueue<SaNode, SaSll>', 8)):
        obs = [Op('size', (), count), Op('front', (), front)] + ([Op('totalSize', (), total)] if sized else [])
        q = Spec('InterthreadQueue', inst, list(qops), obs, None, sized=sized)
        r += [('C08', q, True), ('C09', q, True)]
    wops = [o for o in qops if o.name not in ('write_front', 'flushNoDelete')]
    q = Spec('InterthreadQueueWithWait', 'InterthreadQueueWithWait<SaItem>', wops, [Op('size', (), count)], None)
    r += [('C08', q, True), ('C09', q, True)]
    for cls, inst, owns in (('InterthreadMap', 'InterthreadMap<int, SaItem>', True), ('InterthreadMap1', 'InterthreadMap1<int, SaItem*>', False)):
        ops, obs = mapops(owns)
        q = Spec(cls, inst, ops, obs, None, keys=True)
        r += [('C09', q, owns)]
    pops = [Op('write', ('el',), push_back), Op('readNoBlock', (), pop), Op('read', (), pop, nonempty), Op('read', (5,), pop, nonempty, 'read with timeout'),
            Op('read', (0,), pop, None, 'read with timeout 0'), Op('clear', (), clear)]
    q = Spec('InterthreadPriorityQueue', 'InterthreadPriorityQueue<SaItem', pops, [Op('size', (), count), Op('peek', (), front)], None)
    r += [('C09', q, True)]
    return r


def both(cx, prop):
    global CAP, FRESH
    for p, sp, owns in specs():
        if p != prop:
            continue
        sp.owns = owns
        try:
            for CAP, FRESH in ((3, False), (20 if cx.tier == 'thorough' else 16, True)):
                if not sp.keys or not FRESH:
                    explore(cx, prop, sp)
        except Budget as e:
            cx.undecided(sp.inst, str(e))


def c08(cx):
    cx.rule('Starting from the constructed container, every public operation is followed on every heap shape (up to renaming) reachable with at most %d elements; what it returns, and '
            'the size, total size, front and back afterwards, must be those of the sequence of items put in; no operation can stop the program, no node is used after being freed, '
            'every node stays reachable and is freed by the destructor.' % (20 if cx.tier == 'thorough' else 16))
    both(cx, 'C08')


def c09(cx):
    cx.rule('Starting from the constructed container, every public operation and the destructor are followed on every shape reachable with at most %d elements (maps: two keys); each deletes exactly '
            'the elements it overwrites, removes for good, clears or still holds at destruction, once, and none that is handed out or stays inside.' % (20 if cx.tier == 'thorough' else 16))
    both(cx, 'C09')
