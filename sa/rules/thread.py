"""C31: hand-over of function and argument to a new thread."""
from .common import *

FREES = ('operator delete', 'operator delete[]', 'free')


class StartRule(RuleBase):
    def __init__(self, name, taskp, argp):
        super().__init__(); self.name = name; self.taskp = taskp; self.argp = argp; self.inner = 0

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items() if k[0] in ('rc', 'given', 'freed', 'runs', 'n'))

    def k(self, x):
        return 'C31/%s/%s' % (self.name, x)

    def on_access(self, eng, st, i, kind, base, off, size, val, ctx):
        if base is None:
            return
        if st.ts.get(('freed', base)):
            self.report(st, self.k('after'), i.where(), '%s: the hand-over record is used after it was freed' % self.name)
        elif self.inner == 0 and st.ts.get(('given', base)) == 'ok':
            self.report(st, self.k('given'), i.where(), '%s: the hand-over record is used by the starter after it was given to the new thread' % self.name)

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if base in FREES and args:
            b, o = eng.addr(st, args[0])
            if b is not None:
                if st.ts.get(('freed', b)):
                    self.report(st, self.k('twice'), i.where(), '%s: the hand-over record is freed twice' % self.name)
                elif self.inner == 0 and st.ts.get(('given', b)) == 'ok':
                    self.report(st, self.k('given'), i.where(), '%s: the hand-over record is freed by the starter although the new thread owns it' % self.name)
                if b.kind == 'heap':
                    st.ts[('freed', b)] = True
            return [(st, ZERO)]
        if base == 'pthread_create':
            return self.create(eng, st, i, args, ctx)
        if fn is None and self.inner:
            cv = eng.tolin(st, eng.operand(st, i.d['callee'], ctx))
            st.ts[('runs',)] = st.ts.get(('runs',), 0) + 1
            a = eng.tolin(st, args[0]) if args else None
            if cv != st.res(self.taskp):
                if precise(cv):
                    self.report(st, self.k('task'), i.where(), 'the new thread calls %s instead of the function it was started with' % cv)
                else:
                    self.report(st, self.k('task'), i.where(), 'the new thread does not call the function it was started with')
            if a is None or a != st.res(self.argp):
                self.report(st, self.k('arg'), i.where(), 'the new thread does not pass the argument it was started with (%s instead of %s)' % (a, self.argp))
            return [(st, eng.retval(i, None))]
        return None

    def create(self, eng, st, i, args, ctx):
        m = eng.m
        st.ts[('n',)] = st.ts.get(('n',), 0) + 1
        g = eng.tolin(st, args[2]).single()
        p = eng.tolin(st, args[3])
        b, o = split_ptr(p)
        entry = m.funcs.get(g.key[1]) if g is not None and g.kind == 'g' else None
        s0 = st.copy()
        if eng.tolin(st, args[2]) == st.res(self.taskp):
            # the function itself is the thread's entry point
            if p != st.res(self.argp):
                self.report(st, self.k('arg'), i.where(), 'the new thread does not get the argument it was started with')
        elif entry is None or not entry.repo:
            self.met(self.k('entry unknown'))
            st.ts[('und',)] = True
        else:
            if b is not None and b.kind == 'alloca':
                self.report(st, self.k('record'), i.where(), '%s hands over a local variable that has ended when the thread reads it' % self.name)
            elif b is not None and b.kind == 'g':
                self.report(st, self.k('record'), i.where(), '%s hands over a shared record, concurrent starts overwrite it' % self.name)
            elif b is not None and b.kind == 'heap':
                from ..engine import Ctx
                self.inner += 1
                s1 = st.copy(); s1.ts[('runs',)] = 0; s1.ts.pop(('freed', b), None)
                try:
                    ex = eng.exec_fn(entry, [p], s1, Ctx(('thread',), 1, ctx.fns + (entry.name,), entry, ctx, i))
                finally:
                    self.inner -= 1
                for e in ex:
                    if e.kind != 'ret':
                        continue
                    r = e.st.ts.get(('runs',), 0)
                    if r != 1:
                        self.report(e.st, self.k('runs'), entry.where(), 'the new thread calls the function %d times' % r)
                    if not e.st.ts.get(('freed', b)):
                        self.report(e.st, self.k('leak'), entry.where(), 'the hand-over record is not freed by the new thread')
                    for x in (b,):
                        pass
        rc = eng.fresh('ret_pthread_create', 32); rc.lo = 0; rc.hi = 4095
        ok = st; ok.ts[('rc',)] = 'ok'; bad = s0; bad.ts[('rc',)] = 'fail'
        if b is not None:
            ok.ts[('given', b)] = 'ok'
        ok.note((i.where(), 'pthread_create succeeds')); bad.note((i.where(), 'pthread_create fails'))
        r1 = eng.fresh('error', 32); r1.lo = 1; r1.hi = 4095
        return [(ok, ZERO), (bad, lin(r1))]


def c31(cx):
    m = cx.m
    cx.rule('Thread::start: on every path exactly one pthread_create whose entry function, analysed from the memory the starter left, calls the given function once with the given argument and frees the record it was given once; '
            'the starter does not touch the record afterwards; no path on which pthread_create failed returns normally.')
    fns = [f for f in m.repo_funcs() if f.base in ('Thread::start', 'Thread::start2')]
    if not fns:
        raise core.Broken('Thread::start not found')
    for f in fns:
        models = Models()
        rule = StartRule(f.base, None, None)
        eng = Engine(m, rule, models)
        args = eng.params(f)
        rule.taskp, rule.argp = args[1], args[2]
        try:
            ex = eng.run(f, State(), args)
        except Budget as e:
            cx.undecided(f.base, str(e)); continue
        for g in eng.inlined:
            cx.fn(m.funcs[g])
        ok = 0
        for e in ex:
            if e.kind != 'ret':
                continue
            ok += 1
            n = e.st.ts.get(('n',), 0)
            if e.st.ts.get(('rc',)) == 'fail':
                rule.report(e.st, rule.k('failed'), f.where(), '%s returns as if the thread was started although pthread_create failed' % f.base)
            if n != 1:
                rule.report(e.st, rule.k('count'), f.where(), '%s creates %d threads' % (f.base, n))
        if not ok:
            raise core.Broken('%s never returns' % f.base)
        for w in ('one thread is created', 'a failure never returns', 'the record is not used after the hand-over', 'the thread calls the function once', 'with its argument', 'the record is freed once'):
            rule.met('%s: %s' % (f.base, w), not rule.rep)
        drain(cx, rule)
