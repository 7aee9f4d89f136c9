"""Shared pieces of the rules: report bookkeeping, lock model, object and member look-up."""
import re
from ..lin import *
from ..engine import Engine, Rule, Budget, split_ptr, Tup, State, Exit, cstr
from ..models import Models
from .. import core

LOCK_LAYER = ('Mutex::', 'ScopedLock::', 'ScopedLockMultiple::', 'RWLock::', 'Signal::')
HANDOVER = {'lockCout', 'unlockCout', 'lockCerr', 'unlockCerr'}


class RuleBase(Rule):
    """reports: key -> (where, message, path); kept consistent by the engine across loop iterations"""

    def __init__(self):
        self.rep = {}; self.obl = {}

    opaque = None

    def report(self, st, key, where, msg):
        if st is not None and st.ts.get(('opaque',)):
            # the path depends on a library function over a followed text that is not modelled
            self.opaque = '%s (%s not followed)' % (key, st.ts[('opaque',)]); return
        if key not in self.rep:
            self.rep[key] = (where, msg, core.pathlist(st) if st is not None else [])

    def met(self, key, ok=True):
        """an obligation instance (per site); a site fails if any path through it fails"""
        self.obl[key] = self.obl.get(key, True) and ok

    def snapshot(self):
        return (dict(self.rep), dict(self.obl))

    def restore(self, s):
        self.rep = dict(s[0]); self.obl = dict(s[1])

    def since(self, s):
        return ({k: v for k, v in self.rep.items() if k not in s[0]}, {k: v for k, v in self.obl.items() if s[1].get(k) != v})

    def merge(self, d):
        if d is None:
            return
        for k, v in d[0].items():
            self.rep.setdefault(k, v)
        for k, v in d[1].items():
            self.obl[k] = self.obl.get(k, True) and v


def precise(v):
    """the value is an exact function of the inputs (nothing was merged, forgotten or unknown)"""
    if isinstance(v, Lin):
        return all(precise_atom(a) for a in v.t)
    return False


def precise_atom(a, depth=0):
    if depth > 8:
        return False
    if a.kind in ('param', 'obj', 'alloca', 'g', 'heap', 'K', 'fconst'):
        return True
    if a.kind == 'ld':
        return precise_atom(a.key[1], depth + 1) and (isinstance(a.key[2], int) or precise(a.key[2]))
    if a.kind in ('op',):
        return all(precise(x) for x in a.key[2:] if isinstance(x, Lin))
    if a.kind == 'ret':
        return True
    return False


def subobjects(m, base, off):
    """[(record, offset of that record in base, member, offset of the member in base)] outermost first"""
    out = []
    if base is None or base.pt is None or isinstance(off, Lin) or off < 0:
        return out
    t = base.pt; start = 0
    if t.size and off >= t.size and t.is_record():
        start = off // t.size * t.size
        off %= t.size
    path, leaf, o = m.field_at(t, off)
    pos = start; rest = off
    for rec, f in path:
        if rec.is_record():
            # arrays inside: field_at reduces modulo the element size; recompute the position
            out.append((rec, pos, f, pos + f.off))
            rest -= f.off; pos += f.off
            ft = f.strip()
            if ft is not None and ft.tag == 'array_type':
                e = ft.elem(); es = e.strip().size if e is not None and e.strip() is not None else 0
                if es:
                    pos += rest // es * es; rest %= es
    return out


def is_class(t, name):
    from ..ir import strip_template
    return t is not None and strip_template(t.name) == name


def ptr_to(t, name):
    p = t.pointee() if t is not None else None
    return p is not None and p.is_record() and is_class(p, name)


def method_info(m, fn):
    """(record type, method dict) of a member function definition"""
    idx = getattr(m, '_mindex', None)
    if idx is None:
        idx = m._mindex = {}
        for t in m.types:
            if t.is_record() and not t.d.get('fwd'):
                for x in t.d.get('methods', []):
                    if x.get('lname'):
                        idx.setdefault(x['lname'], (t, x))
                    idx.setdefault((t.id, x['name']), []).append(x)
    if fn.name in idx:
        return idx[fn.name]
    # constructors and destructors have no linkage name: match by class
    for t in m.types:
        if t.is_record() and not t.d.get('fwd') and t.id == fn.cls:
            for x in t.d.get('methods', []):
                if x['name'] == fn.short:
                    return (t, x)
            return (t, None)
    return (None, None)


def access(rec, meth):
    a = meth['access'] if meth else 0
    if a == 0:
        return 1 if rec.tag == 'class_type' else 3
    return a


def is_public(m, fn):
    rec, me = method_info(m, fn)
    if rec is None:
        return not fn.d.get('internal')
    if me is None:
        return True
    return access(rec, me) == 3


def is_ctor(fn):
    return fn.short and '::' in fn.base and strip_t(fn.base.split('::')[-1]) == strip_t(fn.base.split('::')[-2])


def strip_t(s):
    from ..ir import strip_template
    return strip_template(s)


def is_dtor(fn):
    return fn.base.split('::')[-1].startswith('~')


def derived(m, t, name):
    """t is the class `name` or derives from it"""
    if t is None or not t.is_record():
        return False
    if is_class(t, name):
        return True
    return any(f.tag == 'inheritance' and derived(m, f.strip(), name) for f in t.fields())


def methods_of(m, recnames, ctors=False):
    """repo member functions of the classes (and of classes derived from them), one per emitted instance"""
    out = []; seen = set()
    for f in m.repo_funcs():
        rec, me = method_info(m, f)
        if rec is None or not any(is_class(rec, n) for n in recnames):
            continue
        if not ctors and (is_ctor(f) or is_dtor(f)):
            continue
        k = (f.dem, f.name.replace('C2E', 'C1E').replace('D2E', 'D1E').replace('D0E', 'D1E'))
        if k in seen:
            continue
        seen.add(k)
        out.append(f)
    return out


def callers(m):
    """fn name -> set of repo functions calling it directly"""
    c = getattr(m, '_callers', None)
    if c is None:
        c = m._callers = {}
        for f in m.repo_funcs():
            for i in f.insts.values() if False else (i for b in f.blocks for i in b.insts):
                if i.op in ('call', 'invoke') and i.d.get('callee') and i.d['callee'][0] == 'g':
                    c.setdefault(i.d['callee'][1], set()).add(f.name)
    return c


def calls(f):
    for b in f.blocks:
        for i in b.insts:
            if i.op in ('call', 'invoke'):
                yield i


def globals_used(f):
    g = getattr(f, '_gl', None)
    if g is None:
        g = set()

        def walk(o):
            if not o:
                return
            if o[0] == 'g':
                g.add(o[1])
            elif o[0] == 'ce':
                for x in o[2]:
                    walk(x)
        for b in f.blocks:
            for i in b.insts:
                for o in i.ops:
                    walk(o)
                if i.op == 'phi':
                    for pb, o in i.d['inc']:
                        walk(o)
        f._gl = g
    return g


NOTHROW_LIB = re.compile(r'::(find|begin|end|cbegin|cend|rbegin|rend|size|length|empty|front|back|top|pop|pop_front|pop_back|count|clear|c_str|data|'
                         r'operator\*|operator->|operator\+\+|operator--|operator==|operator!=|_M_\w+|__\w+|swap|move|forward|addressof|first|second|erase|operator bool|'
                         r'setf|flush|endl|dec|hex|fixed|width|precision|compare)$')


def can_throw(fn, base, inst):
    """may this library (non-repository) function leave by an exception?"""
    if fn is None:
        return True                      # call through a pointer
    if fn.repo:
        return False                     # analysed in place
    if fn.d.get('nounwind') or inst.d.get('nounwind'):
        return False
    if fn.dem == fn.name:                # C function
        return False
    if fn.dem.startswith('llvm.') or fn.noret:
        return False
    if base is None:
        return False
    if base.split('::')[-1].startswith('~') or base.startswith(('__cxa', '__clang', 'std::__throw')):
        return False
    if base.startswith('std::') and ('ostream' in base or 'operator<<' in base or 'ios' in base):
        return False
    if base in ('operator<<', 'std::operator<<', 'operator delete', 'operator delete[]'):
        return False
    if NOTHROW_LIB.search(base):
        return False
    return True


def with_throw(eng, st, i, fn, base, args, ctx):
    """default effect of a library call plus the exceptional continuation"""
    if not can_throw(fn, base, i):
        return None
    s2 = st.copy()
    s2.note((i.where(), 'exception leaves %s' % (base or 'indirect call')))
    r = eng.models.call(eng, st, i, fn, base, args, ctx) if eng.models is not None else None
    if r is None:
        r = []
        for k, s in eng.opaque_call(st, i, fn, base, args, ctx):
            if k == 'throw':
                r.append(('throw', s))
            else:
                r.append((s, s.env.get(i.id, ZERO) if i.id is not None else ZERO))
    return list(r) + [('throw', s2)]


class LockRule(RuleBase):
    """Mutex operations become changes of the typestate ('L', base, offset) -> times held by this thread."""
    shared_keep = ('Mutex', 'Signal')

    def loc(self, eng, st, v):
        b, o = eng.addr(st, v)
        return b, o

    def held(self, st, loc):
        return st.ts.get(('L',) + loc, 0)

    def locks(self, st):
        return {k[1:]: v for k, v in st.ts.items() if k[0] == 'L' and v}

    def keep(self, eng):
        def k(b, o):
            ty = eng.typeat(b, o)
            if ty is not None and (ptr_to(ty, 'Mutex') or ptr_to(ty, 'Signal')):
                return True
            return False
        return k

    def changed_by_others(self, eng, st):
        """another thread may have run: forget shared memory"""
        eng.havoc_shared(st, self.keep(eng))

    def acquire(self, eng, st, loc, i, ctx):
        n = self.held(st, loc)
        if n == 0:
            self.changed_by_others(eng, st)
        if n < 4:
            st.ts[('L',) + loc] = n + 1
        st.note((i.where(), 'lock %s' % self.lname(eng, loc)))

    def release(self, eng, st, loc, i, ctx):
        n = self.held(st, loc)
        if n <= 1:
            st.ts.pop(('L',) + loc, None)
        else:
            st.ts[('L',) + loc] = n - 1
        st.note((i.where(), 'unlock %s' % self.lname(eng, loc)))

    def lname(self, eng, loc):
        b, o = loc
        return eng._ldname(b, o) if b is not None else '?'

    # hooks
    def on_lock(self, eng, st, loc, i, ctx, kind):
        pass

    def on_unlock(self, eng, st, loc, i, ctx):
        pass

    def on_wait(self, eng, st, sig, mtx, timeout, i, ctx):
        pass

    def on_wake(self, eng, st, sig, all_, i, ctx):
        pass

    def on_other(self, eng, st, i, fn, base, args, ctx):
        return None

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if base in ('Mutex::lock', 'Mutex::_lock'):
            l = self.loc(eng, st, args[0])
            self.on_lock(eng, st, l, i, ctx, 'lock')
            self.acquire(eng, st, l, i, ctx)
            return [(st, ZERO)]
        if base == 'Mutex::unlock':
            l = self.loc(eng, st, args[0])
            self.on_unlock(eng, st, l, i, ctx)
            self.release(eng, st, l, i, ctx)
            return [(st, ZERO)]
        if base in ('Mutex::trylock', 'Mutex::timedlock'):
            l = self.loc(eng, st, args[0])
            self.on_lock(eng, st, l, i, ctx, 'try' if base == 'Mutex::trylock' else 'timed')
            s2 = st.copy()
            self.acquire(eng, st, l, i, ctx)
            s2.note((i.where(), '%s fails on %s' % (base, self.lname(eng, l))))
            return [(st, T), (s2, F)]
        if base == 'Mutex::lockcnt':
            return [(st, const(self.held(st, self.loc(eng, st, args[0]))))]
        if base == 'Signal::wait':
            sig = self.loc(eng, st, args[0]); mtx = self.loc(eng, st, args[1])
            t = eng.tolin(st, args[2]) if len(args) > 2 else None
            self.on_wait(eng, st, sig, mtx, t, i, ctx)
            self.changed_by_others(eng, st)
            st.note((i.where(), 'wait on %s' % self.lname(eng, sig)))
            return [(st, ZERO)]
        if base in ('Signal::signal', 'Signal::broadcast'):
            sig = self.loc(eng, st, args[0])
            self.on_wake(eng, st, sig, base.endswith('broadcast'), i, ctx)
            return [(st, ZERO)]
        return self.on_other(eng, st, i, fn, base, args, ctx)


def drain(cx, rule, prefix=''):
    """move the reports and obligations of a finished run to the check"""
    if rule.opaque:
        cx.undecided(rule.opaque); rule.opaque = None
    for k, ok in rule.obl.items():
        cx.oblig.append((prefix + str(k), bool(ok)))
    for k, (where, msg, path) in rule.rep.items():
        cx.fail(k, where, msg, path)
    rule.rep = {}; rule.obl = {}


def run(cx, rule, fn, models=None, st=None, args=None, name=None):
    """analyse one entry point; exits, or None if the analysis gave up (recorded as undecided)"""
    eng = Engine(cx.m, rule, models if models is not None else Models())
    try:
        ex = eng.run(fn, st if st is not None else State(), args)
    except Budget as e:
        cx.undecided(name or fn.base, str(e))
        rule.rep = {}; rule.obl = {}
        return None, eng
    for n in eng.inlined:
        cx.fn(cx.m.funcs[n])
    return ex, eng


def reaches(m, names, stop=()):
    """repo functions from which one of these functions (base names) is reachable through direct calls"""
    cal = callers(m)
    work = [f.name for f in m.funcs.values() if f.base in names]
    seen = set(work)
    while work:
        n = work.pop()
        for c in cal.get(n, ()):
            if c not in seen and m.funcs[c].base not in stop:
                seen.add(c); work.append(c)
    return seen


LOCK_OPS = {'Mutex::lock', 'Mutex::_lock', 'Mutex::unlock', 'Mutex::trylock', 'Mutex::timedlock', 'Signal::wait', 'Signal::signal', 'Signal::broadcast', 'Mutex::lockcnt'}


class Cut:
    """functions whose inside cannot matter to a lock rule are summarised as unknown results"""

    def __init__(self, m, keepclasses=(), keepglobals=(), names=LOCK_OPS):
        self.m = m
        # logging is cut by the models anyway, so reaching a lock only through it does not count
        self.keep = set(reaches(m, names, stop={'Log::~Log', 'Log::Log', 'Log::get', 'gGetLoggingLevel'}))
        for f in m.repo_funcs():
            if set(keepglobals) & globals_used(f):
                self.keep.add(f.name)
        self.cls = keepclasses
        self.memo = {}

    def cut(self, fn):
        r = self.memo.get(fn.name)
        if r is None:
            r = self._cut(fn)
            self.memo[fn.name] = r
        return r

    def _cut(self, fn):
        if not fn.repo or fn.name in self.keep:
            return False
        if not (fn.file or '').endswith('.cpp') or fn.file.endswith('inst.cpp'):
            return False
        for t in fn.d.get('ditypes') or []:
            t = self.m.type(t)
            p = t.pointee() if t is not None else None
            if p is not None and p.is_record() and any(derived(self.m, p, c) for c in self.cls):
                return False
        return True


def cutcall(eng, st, i, fn, args):
    for v in args:
        eng.escape(st, v)
    eng.clobber_args(st, fn, args, fn.dem.endswith(' const'))
    return [(st, eng.retval(i, fn) if i.ty != 'void' else ZERO)]


def preset(eng, st, name):
    """initial value of a variable with constant initialiser that no function of the library changes; False if it may change"""
    g = eng.m.globals.get(name)
    if g is None or 'init' not in g or written(eng.m, name):
        return False
    a = eng.glob(name)
    for o, sz, v in g['init']:
        if v[0] in ('c', 'n', 'z'):
            if v[0] != 'z' or sz <= 8:
                eng.store(st, a, o, sz, ZERO if v[0] != 'c' else const(int(v[1])))
        elif v[0] == 'g':
            eng.store(st, a, o, sz, lin(eng.glob(v[1])) + v[2])
    return True


def written(m, name):
    """some function stores to the global or passes its address on"""
    c = getattr(m, '_written', None)
    if c is None:
        c = m._written = set()

        def gl(o):
            if not o:
                return set()
            if o[0] == 'g':
                return {o[1]}
            if o[0] == 'ce':
                r = set()
                for x in o[2]:
                    r |= gl(x)
                return r
            return set()
        for f in m.funcs.values():
            if not f.blocks:
                continue
            for b in f.blocks:
                for i in b.insts:
                    gs = set()
                    for o in i.ops:
                        gs |= gl(o)
                    if not gs:
                        continue
                    if i.op == 'load':
                        continue
                    if i.op == 'getelementptr':
                        bad = any(x.op != 'load' for bb in f.blocks for x in bb.insts if any(o and o[0] == 'i' and o[1] == i.id for o in x.ops))
                        if not bad:
                            continue
                    c |= gs
    return name in c


def gname(m, dem):
    """mangled name of the global variable with this qualified name"""
    for n, g in m.globals.items():
        if g['dem'] == dem and not g.get('decl'):
            return n
    return None
