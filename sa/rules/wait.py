"""C03, C04: blocking reads, wake-ups and deadlines, on every path of the public queue operations.

The monotonic clock is a ghost variable in milliseconds: Timeval objects hold a linear expression over clock readings, a
reading equals the entry time until the operation has slept once.  Container changes, wake-ups and waits are typestate."""
from .common import *
from .sync import Objects, C01Rule, configs, public_ops, owner_record, QUEUES, TABLES, ITER
from . import prim

SHRINK_WAIT = {'InterthreadQueueWithWait::wait'}
# waits for which zero or no timeout is documented as waiting for ever
FOREVER = {'InterthreadQueue::iqWaitForEither', 'InterthreadQueueWithWait::wait'}
# classes whose waiters wait for different conditions on one variable: the map (keys), connected queues, low-water marks
ALL_WOKEN = {('InterthreadMap1', 'grow'), ('InterthreadQueue', 'grow'), ('InterthreadQueueWithWait', 'shrink')}
ADD = re.compile(r'^std::(?:__cxx11::)?(list|priority_queue|map|vector|deque)::(push_back|push_front|push|emplace\w*|insert|operator\[\]|splice)$')
TAKE = re.compile(r'^std::(?:__cxx11::)?(list|priority_queue|map|vector|deque)::(pop_back|pop_front|pop|erase|clear)$')
SLACK = 10        # ms: how early a wait may be given up


class WaitRule(C01Rule):
    max_states = 48

    def __init__(self, objs, fields=None, prop='C03'):
        super().__init__(objs); self.fields = fields; self.prop = prop; self.waits = []; self.skip_access = True
        self.cut = objs.waitcut
        self.timeout = None; self.cls = None; self.maywait = False; self.nowait = False

    # -- clock
    def ghost(self, eng):
        return eng.atom('alloca', ('ghost',), 'clock', 'p', 1)

    def start(self, eng, st):
        t0 = eng.atom('param', ('ghost', 't0'), 'entry time', 64, 1 << 40, 1 << 41)
        self.t0 = lin(t0)
        g = self.ghost(eng)
        eng.store(st, g, 0, 8, self.t0)

    def now(self, eng, st):
        g = self.ghost(eng)
        last = eng.load(st, g, 0, 8, 64)
        if not st.ts.get(('slept',)):
            return last
        a = eng.fresh('now', 64, kind='param'); a.lo = 1 << 40; a.hi = 1 << 42
        st.facts = st.facts | {f for f in (lin(a) - self.t0, lin(a) - st.res(last)) if f.t}
        eng.store(st, g, 0, 8, lin(a))
        st.ts[('fresh',)] = True
        return lin(a)

    def expired(self, eng, st):
        """the last clock reading is known to be at or past the deadline"""
        if self.timeout is None:
            return False
        if st.ts.get(('late',)):
            return True
        last = eng.load(st, self.ghost(eng), 0, 8, 64)
        return st.prove_ge0(last - self.t0 - self.timeout + SLACK)

    def timeval(self, eng, st, i, fn, base, args):
        m = base.split('::')[1]
        shift = 1 if fn.args and fn.args[0].get('sret') else 0
        b, o = eng.addr(st, args[shift])
        if m in ('Timeval', 'future', 'now') and len(args) <= 2:
            if m == 'Timeval' and len(args) == 2 and not isinstance(args[1], tuple) and fn.args[1]['ty'] == 'ptr':
                return None
            d = self.now(eng, st)
            if len(args) == 2:
                d = d + eng.tolin(st, args[1])
            if b is not None and not isinstance(o, Lin):
                eng.store(st, b, o, 8, d); eng.store(st, b, o + 8, 8, ZERO)
            return [(st, ZERO)]
        if m in ('remaining', 'elapsed', 'passed'):
            if b is None or isinstance(o, Lin):
                return [(st, eng.retval(i, fn))]
            d = st.res(eng.load(st, b, o, 8, 64))
            if self.timeout is not None and st.ts.get(('late',)) and self.prop == 'C04':
                self.met('C04/%s/ends' % self.entry, False)
                self.report(st, 'C04/%s/ends' % self.entry, i.where(), '%s keeps looping after its time has run out' % self.entry)
            n = self.now(eng, st)
            if m == 'passed':
                return [(st, ge0(n - d - 1))]
            return [(st, d - n if m == 'remaining' else n - d)]
        if fn.ret_void if hasattr(fn, 'ret_void') else i.ty == 'void':
            return [(st, ZERO)]
        return [(st, eng.retval(i, fn))]

    def on_branch(self, eng, st, i, c, taken):
        if self.timeout is None or not st.ts.get(('slept',)) or st.ts.get(('late',)):
            return
        last = eng.load(st, self.ghost(eng), 0, 8, 64)
        if st.ts.get(('fresh',)) and st.prove_ge0(last - self.t0 - self.timeout):
            st.ts[('late',)] = True

    # -- changes of the shared data
    def lockloc(self, eng, st, b, o):
        p = self.o.prot(eng, st, b, o)
        return p[1] if p else None

    def grow(self, eng, st, l, kind, old, i):
        if kind == 'shrink':
            if not any(k[0] == self.cls and k[1] == 'shrink' for k in (self.fields or {})):
                return
        if kind == 'grow' and (self.cls, 'grow') in ALL_WOKEN and old is not None and st.prove_ge0(old - 1):
            return      # nobody can be waiting: it was not empty, and every earlier waiter was woken
        st.note((i.where(), 'makes a waiting condition true'))
        for f in sorted((self.fields or {}).get((self.cls, kind), ())):
            w = st.ts.get(('W', f) + l)
            if w == 'all' or (w == 'one' and (self.cls, kind) not in ALL_WOKEN):
                continue
            st.ts[('G', kind, f) + l] = True
        self.met('C03/%s/wake' % self.entry, True)

    def on_wake(self, eng, st, sig, all_, i, ctx):
        b, o = sig
        if b is None or isinstance(o, Lin):
            return
        name = signame(eng, b, o)
        st.note((i.where(), 'wakes %s of %s' % ('all waiters' if all_ else 'one waiter', eng._ldname(b, o))))
        for k in list(st.ts):
            if k[0] == 'G' and k[2] == name and k[3] is b:
                if all_ or (self.cls, k[1]) not in ALL_WOKEN:
                    del st.ts[k]
        for rec in ((b, 0),):
            for l in list(self.locks(st)):
                if l[0] is b:
                    st.ts[('W', name) + l] = 'all' if all_ else 'one'

    def on_unlock(self, eng, st, loc, i, ctx):
        if self.held(st, loc) <= 1:
            for k in [k for k in st.ts if k[0] == 'W' and k[2:] == loc]:
                del st.ts[k]

    def on_access(self, eng, st, i, kind, b, o, size, val, ctx):
        if b is None or isinstance(o, Lin):
            return
        if kind == 'load':
            # the containers hold pointers to objects, never null
            t = eng.typeat(b, o)
            if b.pt is not None and is_class(b.pt, 'ListNode') and t is not None and size == 8 and o == 8:
                a = eng.load(st, b, o, 8, 'p').single()
                if a is not None and a.kind == 'ld':
                    a.lo = 1
            return
        l = self.lockloc(eng, st, b, o)
        if l is None or val is None:
            return
        t = eng.typeat(b, o)
        if t is None or t.strip() is None or t.strip().tag != 'base_type':
            return
        old = st.res(eng.load(st, b, o, size, size * 8)); v = st.res(val)
        if t.strip().d.get('enc') == 'DW_ATE_boolean':
            if st.prove_ne0(v):
                self.grow(eng, st, l, 'grow', None, i)
            elif st.prove_eq0(v) and st.prove_ne0(old):
                self.took(eng, st, l, i)
            return
        d = v - old
        if not d.t and d.c > 0:
            self.grow(eng, st, l, 'grow', old, i)
        elif not d.t and d.c < 0:
            self.took(eng, st, l, i)
            self.grow(eng, st, l, 'shrink', None, i)

    def took(self, eng, st, l, i):
        st.ts[('taken',)] = True

    def on_other(self, eng, st, i, fn, base, args, ctx):
        if base and base.startswith('Timeval::'):
            r = self.timeval(eng, st, i, fn, base, args)
            if r is not None:
                return r
        if base in ('msleep', 'usleep', 'sleep', 'nanosleep'):
            st.ts[('slept',)] = True
            return [(st, ZERO if i.ty == 'void' else eng.retval(i, fn))]
        if base and fn is not None and not fn.repo and args:
            k = 1 if fn.args and fn.args[0].get('sret') else 0
            if (ADD.match(base) or TAKE.match(base)) and k < len(args):
                b, o = eng.addr(st, args[k])
                l = self.lockloc(eng, st, b, o) if not isinstance(o, Lin) else None
                if l is not None:
                    mm = ADD.match(base) or TAKE.match(base)
                    off = {'list': 16, 'map': 40}.get(mm.group(1), 8)
                    old = st.res(eng.load(st, b, o + off, 8, 64))
                    if ADD.match(base):
                        self.grow(eng, st, l, 'grow', old, i)
                    else:
                        if mm.group(2) == 'erase' and mm.group(1) == 'map':
                            it = eng.models.iterval(eng, st, args[k + 1])
                            if st.prove_ne0(it - (lin(b) + o + 8)):
                                self.took(eng, st, l, i)
                        elif st.prove_ge0(old - 1) or st.prove_ne0(old):
                            self.took(eng, st, l, i)
                        self.grow(eng, st, l, 'shrink', None, i)
        return super().on_other(eng, st, i, fn, base, args, ctx)

    # -- waiting
    def on_wait(self, eng, st, sig, mtx, t, i, ctx):
        b, o = sig
        name = signame(eng, b, o)
        self.waits.append((self.cls, 'shrink' if self.entry.split(': ')[-1] in SHRINK_WAIT else 'grow', name))
        if self.prop == 'C03':
            key = 'C03/%s/waits with its lock' % self.entry
            held = self.locks(st)
            ok = held.get(mtx) == 1 and len(held) == 1 and mtx[0] is b
            self.met(key, ok)
            if not ok:
                if mtx not in held:
                    msg = 'without holding %s' % self.lname(eng, mtx)
                elif held.get(mtx) != 1:
                    msg = 'holding %s more than once, so it is not released' % self.lname(eng, mtx)
                elif len(held) != 1:
                    msg = 'while holding another mutex'
                else:
                    msg = 'on %s, which belongs to another object than the mutex %s' % (self.lname(eng, sig), self.lname(eng, mtx))
                self.report(st, key, i.where(), '%s waits %s' % (self.entry, msg))
            # nothing is lost while sleeping: waiting although the condition is true
        if self.prop == 'C04':
            self.deadline(eng, st, t, i)
        for k in [k for k in st.ts if k[0] in ('taken', 'fresh', 'W')]:
            del st.ts[k]
        st.ts[('slept',)] = True

    def deadline(self, eng, st, t, i):
        e = self.entry
        if self.nowait:
            key = 'C04/%s/zero timeout' % e
            self.met(key, False)
            self.report(st, key, i.where(), '%s blocks although its timeout is zero' % e)
            return
        if self.timeout is None:
            return
        if t is None:
            key = 'C04/%s/untimed' % e
            self.met(key, False)
            self.report(st, key, i.where(), '%s has a timeout but waits without one' % e)
            return
        t = st.res(t)
        now = eng.load(st, self.ghost(eng), 0, 8, 64)
        if st.ts.get(('slept',)) and not st.ts.get(('fresh',)):
            a = eng.fresh('now', 64, kind='param'); a.lo = 1 << 40; a.hi = 1 << 42
            st.facts = st.facts | {lin(a) - st.res(now)}
            now = lin(a)
        key = 'C04/%s/positive' % e
        ok = st.prove_ge0(t - 1)
        ok2 = st.prove_ge0(self.t0 + self.timeout - now - t + SLACK)
        if st.ts.get(('late',)):
            ok = False
        if not (ok and ok2) and not precise(t):
            self.imprecise = True
            self.undec = '%s: time to wait %s not understood' % (e, t)
            return
        self.met(key, ok); self.met('C04/%s/time left' % e, ok2)
        if not ok:
            self.report(st, key, i.where(), '%s can sleep again although no time is left (waits for %s ms)' % (e, t))
        if not ok2:
            self.report(st, 'C04/%s/time left' % e, i.where(), '%s can sleep longer than the time left until its deadline (waits for %s ms)' % (e, t))

    # -- leaving
    def satisfied(self, eng, st, args, rec):
        if st.ts.get(('taken',)):
            return True
        for v in args:
            if not isinstance(v, Lin):
                continue
            b, o = eng.addr(st, v)
            if b is None or isinstance(o, Lin) or b.pt is None:
                continue
            for so, off in sizes(eng, b.pt, o):
                s = st.res(eng.load(st, b, off, so[0], so[0] * 8))
                if so[1] == 'flag':
                    if st.prove_ne0(s):
                        return True
                elif self.entry.split(': ')[-1] in SHRINK_WAIT:
                    for w in args[1:]:
                        if isinstance(w, Lin) and st.prove_ge0(w - s):
                            return True
                elif so[1] == 'map':
                    # an entry was found: some iterator is known not to be the end of the map
                    e = lin(b) + off - 32
                    if any(found(x, st.res(e)) for x in st.ne):
                        return True
                elif st.prove_ge0(s - 1) or (s.single() is not None and st.prove_ne0(s)):
                    return True
        return False


def signame(eng, b, o):
    if b is None or isinstance(o, Lin):
        return None
    for rec, start, f, pos in subobjects(eng.m, b, o):
        if is_class(f.strip(), 'Signal'):
            return f.name
    return None


def sizes(eng, t, base=0, depth=0):
    """[( (bytes, kind), offset )] of the element counts and flags of the containers in this class"""
    out = []
    if depth > 5 or t is None:
        return out
    for f in t.fields():
        ft = f.strip()
        if ft is None:
            continue
        n = ft.name
        if n.startswith('list<') or is_class(ft, 'list'):
            out.append(((8, 'size'), base + f.off + 16))
        elif is_class(ft, 'map'):
            out.append(((8, 'map'), base + f.off + 40))
        elif is_class(ft, 'priority_queue') or is_class(ft, 'vector') or is_class(ft, 'deque'):
            out.append(((8, 'size'), base + f.off + 8))
        elif ft.tag == 'base_type' and ft.d.get('enc') == 'DW_ATE_boolean':
            out.append(((1, 'flag'), base + f.off))
        elif ft.tag == 'base_type' and f.name == 'mSize':
            out.append(((ft.size, 'size'), base + f.off))
        elif ft.is_record() and not is_class(ft, 'Mutex') and not is_class(ft, 'Signal'):
            out += sizes(eng, ft, base + f.off, depth + 1)
    return out


def found(ne, end):
    for s in (ne + end, -ne + end):
        a = s.single() if isinstance(s, Lin) else None
        if a is not None and a.w == 'p' and a not in end.t:
            return True
    return False


def timeout_param(f):
    for n, a in enumerate(f.args):
        if a['name'] == 'timeout':
            return n
    return None


def ops(cx):
    for f, rec in public_ops(cx, QUEUES):
        s = f.base.split('::')[-1]
        if s in ITER or s == 'iqConnect':
            continue
        yield f, rec


def wait_run(cx, objs, f, rec, cname, prep, prop, fields=None, zero=False):
    rule = WaitRule(objs, fields, prop); rule.entry = cname + f.base
    orec = owner_record(objs, rec)
    rule.cls = strip_t(orec.name)
    st = State(); eng = Engine(cx.m, rule, Models(locks=False, signals=False))
    args = eng.params(f)
    prep(eng, st, args)
    rule.start(eng, st)
    tp = timeout_param(f)
    if tp is not None:
        rule.timeout = args[tp]
        if zero:
            sts = st.assume(eq0(args[tp]))
        else:
            sts = st.assume(ge0(args[tp] - 1))
        st = sts[0]
    rule.nowait = zero
    try:
        exits = eng.run(f, st, args)
    except Budget as e:
        cx.undecided(f.base, str(e)); return None
    for x in eng.inlined:
        cx.fn(cx.m.funcs[x])
    return rule, eng, exits, args


def objects(cx):
    o = Objects(cx.m)
    o.waitcut = Cut(cx.m, QUEUES + tuple(TABLES) + ('PointerFIFO', 'ListNode'), set(o.glob))
    return o


def has_wait(cx):
    return reaches(cx.m, {'Signal::wait'}, stop={'Log::~Log', 'Log::Log'})


def waiter_fields(cx, objs, waiting):
    fields = {}
    for f, rec in ops(cx):
        if f.name not in waiting:
            continue
        for cname, prep in configs(cx, objs, f, rec):
            r = wait_run(cx, objs, f, rec, cname, prep, 'scan')
            if r is None:
                continue
            for c, k, n in r[0].waits:
                if n:
                    fields.setdefault((c, k), set()).add(n)
    return fields


def c03(cx):
    cx.rule('For every public operation of the inter-thread containers, on every path: (1) each change that can make a waiting condition true (element stored, flag raised, '
            'element removed where readers of a low-water mark wait) is followed on the way out, or preceded within the same lock hold, by a wake-up of the condition '
            'variable those waiters wait on (all of them where their conditions differ); (2) an operation that can wait returns only with its condition seen true since the '
            'last wait under the lock, or with its time used up; (3) every wait is made holding exactly the mutex that belongs to the condition variable, once.')
    objs = objects(cx)
    waiting = has_wait(cx)
    fields = waiter_fields(cx, objs, waiting)
    for need in (('InterthreadQueue', 'grow'), ('InterthreadQueueWithWait', 'grow'), ('InterthreadQueueWithWait', 'shrink'), ('InterthreadMap1', 'grow'),
                 ('InterthreadPriorityQueue', 'grow'), ('Semaphore', 'grow')):
        if need not in fields:
            cx.fail('C03/%s/waiters' % need[0], cx.record(need[0])[0].name, 'no operation of %s waits on a condition variable any more' % need[0])
    n = grows = 0
    for f, rec in ops(cx):
        for cname, prep in configs(cx, objs, f, rec):
            r = wait_run(cx, objs, f, rec, cname, prep, 'C03', fields)
            if r is None:
                continue
            rule, eng, exits, args = r
            n += 1
            if any('/wake' in k for k in rule.obl):
                grows += 1
            for x in exits:
                if x.kind != 'ret':
                    continue
                for k in x.st.ts:
                    if k[0] == 'G':
                        key = 'C03/%s/wake' % rule.entry
                        rule.met(key, False)
                        rule.report(x.st, key, f.where(), '%s makes the condition of %s waiters true but returns without waking %s on %s' % (
                            rule.entry, k[1], 'all of them' if (rule.cls, k[1]) in ALL_WOKEN else 'one', k[2]))
                if rule.waits:
                    key = 'C03/%s/returns satisfied' % rule.entry
                    ok = rule.satisfied(eng, x.st, args, rec)
                    if not ok and rule.timeout is not None and rule.expired(eng, x.st):
                        ok = True
                    rule.met(key, ok)
                    if not ok:
                        rule.report(x.st, key, x.inst.where() if x.inst is not None else f.where(),
                                    '%s can return without having seen its condition true%s' % (rule.entry, ' or its time used up' if rule.timeout is not None else ''))
            drain(cx, rule)
    prim.signals(cx, 'C03')
    cx.atleast('operations', n, 30)
    cx.atleast('operations that make a condition true', grows, 6)


def c04(cx):
    cx.rule('For every public operation with a timeout parameter: each wait on a path is timed, its duration is proved at least 1 ms and at most the time left until the '
            'entry time plus the timeout, computed from the clock read after the previous wake-up; no path waits or loops again once the deadline was seen to have passed; '
            'with timeout zero no path waits (except the two-queue wait). The wait primitives pass the given duration on to the system call unchanged.')
    objs = objects(cx)
    n = 0
    for f, rec in ops(cx):
        if timeout_param(f) is None:
            continue
        for cname, prep in configs(cx, objs, f, rec):
            for zero in (False, True):
                if zero and f.base in FOREVER:
                    continue
                r = wait_run(cx, objs, f, rec, cname, prep, 'C04', None, zero)
                if r is None:
                    continue
                rule = r[0]
                n += 1
                cx.oblig.append(('C04/%s timeout %s' % (rule.entry, 'zero' if zero else 'positive'), not rule.rep))
                if getattr(rule, 'undec', None):
                    cx.undecided(rule.entry, rule.undec)
                drain(cx, rule)
    prim.signals(cx, 'C04')
    cx.atleast('timed operations', n, 10)
