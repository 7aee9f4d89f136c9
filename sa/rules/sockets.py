"""C29: datagram reads, timed reads and the life of socket descriptors."""
import os, re
from .common import *
from ..shapes import par
from .. import build

RECV = {'recvfrom': (1, 2, 4, 5), 'recv': (1, 2, None, None), 'read': (1, 2, None, None), '__recvfrom_chk': (1, 2, 5, 6), '__recv_chk': (1, 2, None, None)}
PLAIN = {'bind', 'setsockopt', 'fcntl', 'fcntl64', 'connect', 'sendto', 'send', 'perror', 'unlink', 'listen', 'getsockopt', 'shutdown', 'sendmsg', 'htons', 'ntohs', 'printf', 'fprintf', 'ioctl'}
FD = 5


class FdRule(RuleBase):
    """descriptor typestate: ('fd', value) -> 'open' | 'closed'"""
    max_states = 48

    def __init__(self, name, m, off):
        super().__init__(); self.name = name; self.m = m; self.off = off

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items())

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if base in ('socket', 'accept', 'dup', 'open', 'open64') and i.ty == 'i32' and not (fn is not None and fn.repo):
            a = eng.fresh('descriptor', 32, kind='ret'); a.lo = 0
            s2 = st.copy()
            st.ts[('fd', lin(a))] = 'open'; st.note((i.where(), '%s succeeds' % base))
            s2.note((i.where(), '%s fails' % base))
            return [(st, lin(a)), (s2, const(-1))]
        if base == 'close':
            v = st.res(eng.tolin(st, args[0]))
            s = st.ts.get(('fd', v))
            self.met('%s: close at %s' % (self.name, i.where()))
            if s == 'closed':
                self.report(st, 'C29/%s/twice' % self.name, i.where(), '%s closes a descriptor that is closed already' % self.name)
            elif s is None and not v.t and v.c < 0:
                self.report(st, 'C29/%s/unopened' % self.name, i.where(), '%s closes a descriptor that was never opened' % self.name)
            st.ts[('fd', v)] = 'closed'
            st.note((i.where(), 'closes the descriptor'))
            return [(st, ZERO), (st.copy(), const(-1))]
        if base in PLAIN and not (fn is not None and fn.repo):
            return [(st, eng.retval(i, fn) if i.ty != 'void' else ZERO)]
        return None


class ReadRule(RuleBase):
    """one receive: lengths, the outcomes of the system calls, what is returned"""
    max_states = 64

    def __init__(self, name, m, P, buf, cap, src, ms):
        super().__init__(); self.name = name; self.m = m; self.P = P; self.buf = buf; self.cap = cap; self.src = src; self.ms = ms; self.und = set(); self.n = 0

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items())

    def bound(self, eng, st, i, what, need, cap):
        self.n += 1
        d = st.res(cap - need)
        self.met('%s: %s (%s)' % (self.name, what, i.where()))
        if not st.prove_ge0(d):
            if not d.t or all(a.kind == 'ret' for a in d.t):
                self.report(st, 'C29/%s/%s' % (self.name, what.split(' ')[0]), i.where(), '%s: %s may be %s bytes, there is room for %s' % (self.name, what, need, cap))
            else:
                self.und.add(what)

    def room(self, eng, st, ptr):
        b, o = eng.addr(st, ptr)
        if b is None:
            return None
        if b == self.buf:
            return const(self.cap) - o
        if b == self.P and not isinstance(o, Lin) and b.pt is not None:
            path, leaf, rest = self.m.field_at(b.pt, o)
            start = 0
            for rec, f in path:
                start += f.off
                if f.strip() is not None and f.strip().tag == 'array_type':
                    return const(start + f.strip().size - o)
            return None
        if b.kind == 'alloca' and b.meta and b.meta.get('size') and b.meta.get('count') is None:
            return const(b.meta['size']) - o
        return None

    def on_access(self, eng, st, i, kind, b, o, size, val, ctx):
        if b is not None and b == self.buf and kind == 'store':
            lo = st.res(o if isinstance(o, Lin) else const(o))
            if not st.prove_ge0(lo) and (not lo.t):
                self.report(st, 'C29/%s/index' % self.name, i.where(), '%s: writes at index %s of the buffer' % (self.name, lo))
            else:
                self.bound(eng, st, i, 'index of a write into the buffer', lo + size, const(self.cap))
        if b is not None and b == self.P and kind == 'load' and not isinstance(o, Lin) and self.src is not None and self.src[0] <= o < self.src[1] and ('rx',) in st.ts and st.ts[('rx',)][0] == 'fail':
            self.report(st, 'C29/%s/source' % self.name, i.where(), '%s uses the source address although no datagram was received' % self.name)

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if fn is not None and fn.repo and fn.blocks:
            return None
        if base in RECV:
            return self.recv(eng, st, i, fn, base, args)
        if base in ('select', 'pselect', 'poll', 'ppoll', '__poll_chk'):
            return self.wait(eng, st, i, fn, base, args)
        if base == 'setsockopt':
            st.ts[('opt',)] = True
        if self.src is not None and ('rx',) in st.ts and st.ts[('rx',)][0] == 'fail':
            for a in args:
                if isinstance(a, Lin):
                    b, o = eng.addr(st, a)
                    if b is not None and b == self.P and not isinstance(o, Lin) and self.src[0] <= o < self.src[1]:
                        self.report(st, 'C29/%s/source' % self.name, i.where(), '%s uses the source address although no datagram was received' % self.name)
        if base in PLAIN:
            return [(st, eng.retval(i, fn) if i.ty != 'void' else ZERO)]
        return None

    def recv(self, eng, st, i, fn, base, args):
        bi, li, ai, sl = RECV[base]
        need = st.res(eng.tolin(st, args[li]))
        cap = self.room(eng, st, args[bi])
        if cap is None:
            self.und.add('destination of %s' % base)
        else:
            self.bound(eng, st, i, 'length of a receive', need, cap)
        if ai is not None:
            a = st.res(eng.tolin(st, args[ai]))
            if a.t:
                b, o = eng.addr(st, args[sl])
                c = self.room(eng, st, args[ai])
                if b is not None and c is not None and not isinstance(o, Lin):
                    self.bound(eng, st, i, 'source address', st.res(eng.load(st, b, o, 4, 32)), c)
                    n = eng.fresh('address length', 32, kind='fresh'); n.lo = 0
                    eng.store(st, b, o, 4, lin(n))
                else:
                    self.und.add('source address of %s' % base)
        if self.ms is not None and not st.ts.get(('sel',)) and not st.ts.get(('opt',)):
            fl = st.res(eng.tolin(st, args[3])) if base in ('recvfrom', 'recv') else ZERO
            if not fl.t and not fl.c & 0x40:
                self.report(st, 'C29/%s/blocks' % self.name, i.where(), '%s receives without waiting for the given time first' % self.name)
        r = eng.fresh('received', 32, kind='ret'); r.lo = 0
        if not need.t:
            r.hi = max(0, need.c)
        else:
            st.facts = st.facts | {need - lin(r)}
        bad = st.copy()
        st.ts[('rx',)] = ('ok', lin(r)); st.note((i.where(), '%s receives a datagram' % base))
        bad.ts[('rx',)] = ('fail',); bad.note((i.where(), '%s fails' % base))
        w = int(i.ty[1:]) if i.ty[1:].isdigit() else 64
        return [(st, lin(r)), (bad, const(-1))]

    def wait(self, eng, st, i, fn, base, args):
        ms = None
        if base in ('select', 'pselect'):
            nf = st.res(eng.tolin(st, args[0]))
            b, o = eng.addr(st, args[1])
            if b is not None and not isinstance(o, Lin):
                w = st.res(eng.load(st, b, o, 8, 64))
                if not w.t and not w.c >> FD & 1 or not nf.t and nf.c <= FD:
                    self.report(st, 'C29/%s/set' % self.name, i.where(), '%s waits for other descriptors than the one of the socket' % self.name)
            t = st.res(eng.tolin(st, args[4]))
            if not t.t and t.c == 0:
                self.report(st, 'C29/%s/time' % self.name, i.where(), '%s waits without a limit' % self.name)
            else:
                tb, to = eng.addr(st, args[4])
                if tb is not None and not isinstance(to, Lin):
                    s, u = st.res(eng.load(st, tb, to, 8, 64)), st.res(eng.load(st, tb, to + 8, 8, 64))
                    k = 1000 if base == 'select' else 1000000
                    self.time(st, i, s.scale(1000 * k) + u, k)
                    top = 1000 * k - 1
                    if not st.prove_ge0(st.res(const(top) - u)) and self.exact(u):
                        self.report(st, 'C29/%s/time' % self.name, i.where(), '%s gives the system call a part of a second of %s' % (self.name, u))
        else:
            b, o = eng.addr(st, args[0])
            if b is not None and not isinstance(o, Lin):
                f = st.res(eng.load(st, b, o, 4, 32)); ev = st.res(eng.load(st, b, o + 4, 2, 16))
                if not f.t and f.c != FD or not ev.t and not ev.c & 1:
                    self.report(st, 'C29/%s/set' % self.name, i.where(), '%s waits for something else than data on the socket' % self.name)
            if base == 'ppoll':
                t = st.res(eng.tolin(st, args[2]))
                if not t.t and t.c == 0:
                    self.report(st, 'C29/%s/time' % self.name, i.where(), '%s waits without a limit' % self.name)
                else:
                    tb, to = eng.addr(st, args[2])
                    if tb is not None and not isinstance(to, Lin):
                        s, u = st.res(eng.load(st, tb, to, 8, 64)), st.res(eng.load(st, tb, to + 8, 8, 64))
                        self.time(st, i, s.scale(1000000000) + u, 1000000)
                        if not st.prove_ge0(st.res(const(999999999) - u)) and self.exact(u):
                            self.report(st, 'C29/%s/time' % self.name, i.where(), '%s gives the system call a part of a second of %s' % (self.name, u))
            else:
                t = st.res(eng.tolin(st, args[2]))
                self.time(st, i, t, 1)
        ok = st; late = st.copy(); bad = st.copy()
        ok.ts[('sel',)] = 'ok'; ok.note((i.where(), '%s finds the socket readable' % base))
        late.ts[('sel',)] = 'late'; late.note((i.where(), '%s reaches its time limit' % base))
        bad.ts[('sel',)] = 'fail'; bad.note((i.where(), '%s fails' % base))
        if b is not None and not isinstance(o, Lin):
            for s, w in ((ok, 1 << FD), (late, 0)):
                if base in ('select', 'pselect'):
                    eng.store(s, b, o, 8, const(w))
                else:
                    eng.store(s, b, o + 6, 2, const(1 if w else 0))
        return [(ok, const(1)), (late, ZERO), (bad, const(-1))]

    def exact(self, l):
        return all(a.kind in ('param', 'ret') or a.kind == 'op' and all(self.exact(x) for x in a.key[2:] if isinstance(x, Lin)) for a in l.t)

    def time(self, st, i, total, k):
        self.n += 1
        if self.ms is None:
            return
        self.met('%s: time limit at %s' % (self.name, i.where()))
        d = st.res(total - self.ms.scale(k))
        if d.t or d.c:
            if st.prove_ge0(d) and st.prove_ge0(-d):
                return
            if self.exact(d):
                self.report(st, 'C29/%s/time' % self.name, i.where(), '%s waits %s, the time given is %s ms' % (self.name, total, self.ms))
            else:
                self.und.add('time limit')


def maxudp():
    try:
        for f in sorted(os.listdir(build.REPO)):
            if f.endswith('.h'):
                x = re.search(r'^\s*#\s*define\s+MAX_UDP_LENGTH\s+\(?(\d+)\)?', open(os.path.join(build.REPO, f), errors='replace').read(), re.M)
                if x:
                    return int(x.group(1))
    except OSError:
        pass
    return 1500


def c29(cx):
    m = cx.m
    cx.rule('Every receive reachable from a public operation of the datagram sockets, with every outcome of each system call: the length asked for and every store the code makes into the buffer stay within the documented buffer '
            '(MAX_UDP_LENGTH) and the source address within its member; after a datagram its exact length is returned, after a failure the operation throws or returns a negative value and does not touch the source address. '
            'A timed read waits first, for its own descriptor and exactly the time given, returns a negative value when that time is used up, and receives when data is there. '
            'Descriptors: in every method, constructor and destructor, for an open and for no descriptor in the object: close is called only on an open descriptor, and no closed descriptor is left in the object.')
    rec = cx.record('DatagramSocket')[0]
    ints = [f for f in rec.fields() if f.tag == 'member' and f.strip() is not None and f.strip().tag == 'base_type' and f.strip().size == 4]
    arrs = [f for f in rec.fields() if f.tag == 'member' and f.strip() is not None and f.strip().tag == 'array_type']
    if len(ints) != 1:
        cx.undecided('DatagramSocket', 'descriptor member not recognised')
        off = None
    else:
        off = ints[0].off
    srcm = [f for f in arrs if 'ource' in f.name]
    src = (srcm[0].off, srcm[0].off + srcm[0].strip().size) if len(srcm) == 1 else None
    cap = maxudp()
    classes = sorted({t.name for t in m.types if t.is_record() and not t.d.get('fwd') and derived(m, t, 'DatagramSocket')})
    meth = methods_of(m, classes, ctors=True)
    rx = reaches(m, set(RECV))
    nr = nc = 0
    for f in meth:
        if f.name in rx and is_public(m, f) and not is_ctor(f) and not is_dtor(f) and off is not None:
            ps = par(f)
            ptrs = [k for k, p in enumerate(ps) if p in ('char *', 'char*', 'void *', 'void*', 'unsigned char *', 'unsigned char*')]
            nums = [k for k, p in enumerate(ps) if p in ('unsigned', 'unsigned int', 'int', 'long', 'unsigned long')]
            if not ptrs:
                cx.undecided(f.dem, 'buffer not recognised'); continue
            timed = len(ps) == 2 and len(nums) == 1 and ps[nums[0]] in ('unsigned', 'unsigned int', 'int')
            rule = ReadRule(f.base + ('(timed)' if timed else ''), m, None, None, cap, src, None)
            eng = Engine(m, rule, Models())
            st = State()
            args = eng.params(f)
            P, _ = split_ptr(eng.tolin(st, args[0])); rule.P = P
            if P.pt is None:
                P.pt = rec
            rule.buf, _ = split_ptr(eng.tolin(st, args[1 + ptrs[0]]))
            if timed:
                rule.ms = eng.tolin(st, args[1 + nums[0]])
            eng.store(st, P, off, 4, const(FD))
            try:
                ex = eng.run(f, st, args)
            except Budget as e:
                cx.undecided(f.dem, str(e)); continue
            cx.fn(f)
            for g in eng.inlined:
                cx.fn(m.funcs[g])
            nr += rule.n
            for e in ex:
                ends(rule, eng, f, e, timed)
            rule.met('%s returns what was received' % rule.name, not rule.rep)
            for u in sorted(rule.und):
                cx.undecided(f.dem, u)
            drain(cx, rule)
    cx.atleast('receives', nr, 4)
    fds = reaches(m, {'close', 'socket'})
    for f in meth:
        if off is None or f.name not in fds and not is_ctor(f) and not is_dtor(f):
            continue
        if not is_public(m, f) and not is_ctor(f) and not is_dtor(f):
            continue
        for opened in ((False,) if is_ctor(f) else (False, True)):
            rule = FdRule(f.base, m, off)
            eng = Engine(m, rule, Models())
            st = State()
            args = eng.params(f)
            P, _ = split_ptr(eng.tolin(st, args[0]))
            if not is_ctor(f):
                if opened:
                    a = eng.fresh('descriptor', 32, kind='ret'); a.lo = 0
                    st.ts[('fd', lin(a))] = 'open'
                    eng.store(st, P, off, 4, lin(a)); st.note((f.where(), 'the socket is open'))
                else:
                    eng.store(st, P, off, 4, const(-1)); st.note((f.where(), 'the socket is not open'))
            try:
                ex = eng.run(f, st, args)
            except Budget as e:
                cx.undecided(f.dem, str(e)); continue
            cx.fn(f)
            for g in eng.inlined:
                cx.fn(m.funcs[g])
            for e in ex:
                if e.kind not in ('ret', 'throw', 'unwind') or is_dtor(f):
                    continue
                v = e.st.res(eng.tolin(e.st, eng.load(e.st, P, off, 4, 32)))
                nc += 1
                if e.st.ts.get(('fd', v)) == 'closed':
                    if is_ctor(f) and e.kind != 'ret':
                        continue
                    rule.report(e.st, 'C29/%s/stale' % f.base, f.where(), '%s leaves a closed descriptor in the object, the destructor closes it again' % f.base)
            rule.met('%s on %s socket' % (f.base, 'an open' if opened else 'a closed'), not rule.rep)
            drain(cx, rule)
    cx.atleast('descriptor states', nc, 4)


def ends(rule, eng, f, e, timed):
    st = e.st
    rx = st.ts.get(('rx',)); sel = st.ts.get(('sel',))
    if e.kind == 'ret':
        v = st.res(eng.tolin(st, e.val)) if e.val is not None else None
        if v is None:
            return
        neg = st.prove_ge0(-v - 1)
        if rx is None:
            if timed and sel == 'ok':
                rule.report(st, 'C29/%s/nodata' % rule.name, f.where(), '%s returns without receiving although the socket has data' % rule.name)
            elif (sel in ('late', 'fail') or not timed) and not neg and not v.t:
                rule.report(st, 'C29/%s/result' % rule.name, f.where(), '%s returns %s although nothing was received' % (rule.name, v))
            elif timed and sel is None:
                rule.report(st, 'C29/%s/nowait' % rule.name, f.where(), '%s returns without waiting for data' % rule.name)
        elif rx[0] == 'ok':
            d = st.res(v - rx[1])
            if (d.t or d.c) and not (st.prove_ge0(d) and st.prove_ge0(-d)):
                if all(a.kind == 'ret' for a in d.t):
                    rule.report(st, 'C29/%s/result' % rule.name, f.where(), '%s returns %s after a datagram of %s bytes' % (rule.name, v, rx[1]))
                else:
                    rule.und.add('returned value')
        elif not neg and not v.t:
            rule.report(st, 'C29/%s/result' % rule.name, f.where(), '%s returns %s although the receive failed' % (rule.name, v))
    elif e.kind in ('throw', 'unwind'):
        if rx is not None and rx[0] == 'ok':
            rule.report(st, 'C29/%s/lost' % rule.name, f.where(), '%s throws although a datagram was received' % rule.name)
        elif timed and sel == 'late':
            rule.report(st, 'C29/%s/late' % rule.name, f.where(), '%s throws when its time is used up' % rule.name)
