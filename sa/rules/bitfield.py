"""C13: what the bit-field writers store is what the readers return."""
import time
from .common import *
from ..bits import *
from .. import bits
from ..shapes import par
from .vectors import vrec, layout

NONE = frozenset()


def lowbits(n, L, name):
    return [(('s', name, k) if k < L else 0) for k in range(n)]


class Field:
    """one bit vector whose elements begin at `data`, in a machine"""

    def __init__(self, m, rec, slack, sym_off, w, L, choice, size=None):
        es, od, os_, oe = layout(rec)
        self.off = aff('W') if sym_off else Aff(NONE, w)
        self.mc = Machine(m, ('W',), choice)
        self.this = aff('this')
        end = addaff(self.off, Aff(NONE, L + slack)) if size is None else Aff(NONE, size)
        for o, v in ((od, aff('data')), (os_, aff('data')), (oe, addaff(aff('data'), end))):
            self.mc.store(addaff(self.this, Aff(NONE, o)), 8, v)
        self.t = self.off.t; self.c = self.off.c

    def word(self, w=64):
        return self.off if self.off.t else bits.word(self.off.c, w)

    def low(self, k):
        return self.mc.byte('data', self.t, self.c + k).b[0]

    def sub(self, x):
        return self.mc.sb(x)


def guarded(mc, fn, args):
    try:
        return ('ret', mc.run(fn, args))
    except Stop as e:
        return ('stop', str(e))
    except Thrown:
        return ('throw', None)


def methods(m, name, n):
    out = []
    for f in methods_of(m, ('BitVector',)):
        if f.short == name and len(par(f)) == n and f.blocks:
            out.append(f)
    return out


def c13(cx):
    m = cx.m
    cx.rule('Every bit-field writer, reader, packer and unpacker is interpreted over named input bits with its control flow followed exactly, for every width 0 to 64, at an arbitrary (symbolic) offset, in a vector ending right behind the field and in a longer one. '
            'Rule: a writer leaves bit (width-1-k) of the value (reversed: bit k) in element offset+k and changes no other element; a reader returns the low bits of the elements in that order, and zero above the width, whatever the elements hold; '
            'a writer followed by its reader returns the value; the cursor moves by exactly the width; pack, packToString and unpack of 0 to 24 (and 61 to 64) elements put element k into bit 7-k%8 of byte k/8.')
    fields = {'normal': lambda L, k: L - 1 - k, 'reversed': lambda L, k: k}
    byname = {}
    for n, k in (('fillField', 3), ('fillFieldReversed', 3), ('writeField', 3), ('writeFieldReversed', 3), ('peekField', 2), ('peekFieldReversed', 2), ('readField', 2), ('readFieldReversed', 2),
                 ('write0', 1), ('write1', 1), ('pack', 1), ('packToString', 0), ('unpack', 1), ('bit', 1), ('settfb', 2)):
        fs = methods(m, n, k)
        if fs:
            byname[n] = fs[0]
    if len(byname) < 8:
        raise core.Broken('bit-field methods not found')
    rec = None
    for t in m.record('BitVector'):
        rec = vrec(m, t) or rec
    if rec is None or layout(rec) is None:
        raise core.Broken('layout of BitVector not found')
    count = [0]; slow = {}; until = time.time() + 300

    def decide(f, label, key, build):
        """build(choice, symbolic offset?, concrete offset) -> (machine, (kind, value), judge)"""
        if time.time() > until or slow.get(key, 0) > 20:
            cx.undecided(label, 'time limit')
            return
        t0 = time.time()
        try:
            decide1(f, label, key, build)
        finally:
            if time.time() - t0 > 0.5:
                slow[key] = slow.get(key, 0) + time.time() - t0

    def decide1(f, label, key, build):
        for mode in ((True, 0), (False, 0), (False, 5)):
            try:
                ok = True; last = None
                for mc, res in explore(lambda ch: (lambda r: (r[0], r))(build(ch, mode[0], mode[1])), 300):
                    for g in mc.fns:
                        cx.fn(g)
                    msg = res[2](res[1])
                    if msg:
                        cx.fail('C13/' + key, f.where(), '%s: %s' % (label, msg)); ok = False
                        break
                count[0] += 1
                cx.oblig.append(('%s%s' % (label, '' if mode[0] else ' (offset %d)' % mode[1]), ok))
                if mode[0] or not ok:
                    return
            except Undecided as e:
                und = str(e)
                if mode == (False, 5):
                    cx.undecided(label, und)
                    return

    def changed(fl, lo, n):
        """an element outside [lo, lo+n) that does not hold what it held before"""
        for (t, c), v in fl.mc.mem.get('data', {}).items():
            if t == fl.t and lo <= c - fl.c < lo + n:
                continue
            if isinstance(v, tuple) or v.b != sym(('m', 'data', t, c), 8).b:
                return 'element %+d (relative to the field) is changed' % (c - fl.c) if t == fl.t else 'an element outside the field is changed'
        return None

    for L in range(65):
        for slack in (0, 3):
            for rev in ('', 'Reversed'):
                order = fields['reversed' if rev else 'normal']
                for wn in ('fillField', 'writeField'):
                    f = byname.get(wn + rev)
                    if f is None:
                        continue
                    cur = wn == 'writeField'

                    def build(ch, so, off, f=f, cur=cur, L=L, slack=slack, rev=rev, order=order):
                        fl = Field(m, rec, slack, so, off, L, ch)
                        mc = fl.mc
                        val = sym('value', 64)
                        if cur:
                            mc.store(aff('cursor'), 8, fl.word())
                            r = guarded(mc, f, [fl.this, aff('cursor'), val, word(L, 32)])
                        else:
                            r = guarded(mc, f, [fl.this, fl.word(), val, word(L, 32)])

                        def judge(r):
                            if r[0] != 'ret':
                                return 'does not complete for a field inside the vector'
                            for k in range(L):
                                b = fl.low(k); want = fl.sub(('s', 'value', order(L, k)))
                                if b is None:
                                    raise Undecided('element %d not followed' % k)
                                if b != want:
                                    return 'element offset+%d does not hold bit %d of the value' % (k, order(L, k))
                            x = changed(fl, 0, L)
                            if x:
                                return x
                            if cur:
                                c = mc.toaff(mc.load(aff('cursor'), 8, 64, False))
                                if c is None:
                                    raise Undecided('cursor not followed')
                                if c.key() != addaff(fl.off, Aff(NONE, L)).key():
                                    return 'the cursor does not advance by the width %d' % L
                            for rn in ('peekField', 'readField'):
                                g = byname.get(rn + rev)
                                if g is None:
                                    continue
                                if rn == 'readField':
                                    mc.store(aff('cursor2'), 8, fl.word())
                                    q = guarded(mc, g, [fl.this, aff('cursor2'), word(L, 32)])
                                else:
                                    q = guarded(mc, g, [fl.this, fl.word(), word(L, 32)])
                                if q[0] != 'ret':
                                    return '%s does not complete on the field written' % g.short
                                v = mc.norm(q[1], 64) if isinstance(q[1], Word) else None
                                if v is None or None in v.b:
                                    raise Undecided('result not followed')
                                if v.b != tuple(fl.sub(x) for x in lowbits(64, L, 'value')):
                                    return '%s does not return the value written' % g.short
                            return None
                        return mc, r, judge
                    decide(f, '%s, width %d, %d elements behind' % (f.short, L, slack), f.short, build)
                for rn in ('peekField', 'readField'):
                    f = byname.get(rn + rev)
                    if f is None:
                        continue
                    cur = rn == 'readField'

                    def build(ch, so, off, f=f, cur=cur, L=L, slack=slack, order=order):
                        fl = Field(m, rec, slack, so, off, L, ch)
                        mc = fl.mc
                        if cur:
                            mc.store(aff('cursor'), 8, fl.word())
                            r = guarded(mc, f, [fl.this, aff('cursor'), word(L, 32)])
                        else:
                            r = guarded(mc, f, [fl.this, fl.word(), word(L, 32)])

                        def judge(r):
                            if r[0] != 'ret':
                                return 'does not complete for a field inside the vector'
                            v = mc.norm(r[1], 64) if isinstance(r[1], Word) else None
                            if v is None:
                                raise Undecided('result not followed')
                            want = [0] * 64
                            for k in range(L):
                                want[order(L, k)] = fl.sub(('s', ('m', 'data', fl.t, fl.c + k), 0))
                            for k in range(64):
                                if v.b[k] is None:
                                    raise Undecided('bit %d not followed' % k)
                                if v.b[k] != want[k]:
                                    return 'bit %d of the result is not the bit of element offset%+d' % (k, order(L, k)) if k < L else 'bit %d of the result, above the width, is not zero' % k
                            x = changed(fl, 0, 0)
                            if x:
                                return x
                            if cur:
                                c = mc.toaff(mc.load(aff('cursor'), 8, 64, False))
                                if c is None:
                                    raise Undecided('cursor not followed')
                                if c.key() != addaff(fl.off, Aff(NONE, L)).key():
                                    return 'the cursor does not advance by the width %d' % L
                            return None
                        return mc, r, judge
                    decide(f, '%s, width %d, %d elements behind' % (f.short, L, slack), f.short, build)
    for n, v in (('write0', 0), ('write1', 1)):
        f = byname.get(n)
        if f is None:
            continue

        def build(ch, so, off, f=f, v=v):
            fl = Field(m, rec, 2, so, off, 1, ch)
            fl.mc.store(aff('cursor'), 8, fl.word())
            r = guarded(fl.mc, f, [fl.this, aff('cursor')])

            def judge(r):
                if r[0] != 'ret':
                    return 'does not complete for an element inside the vector'
                b = fl.low(0)
                if b is None:
                    raise Undecided('element not followed')
                if b != v:
                    return 'the element does not hold %d' % v
                c = fl.mc.toaff(fl.mc.load(aff('cursor'), 8, 64, False))
                if c is None:
                    raise Undecided('cursor not followed')
                if c.key() != addaff(fl.off, Aff(NONE, 1)).key():
                    return 'the cursor does not advance by one'
                return changed(fl, 0, 1)
            return fl.mc, r, judge
        decide(f, n, n, build)
    f = byname.get('bit')
    if f is not None:
        def build(ch, so, off, f=f):
            fl = Field(m, rec, 2, so, off, 1, ch)
            r = guarded(fl.mc, f, [fl.this, fl.word()])

            def judge(r):
                if r[0] != 'ret':
                    return 'does not complete for an element inside the vector'
                x = r[1].b[0] if isinstance(r[1], Word) else None
                if x is None:
                    raise Undecided('result not followed')
                return None if x == fl.sub(('s', ('m', 'data', fl.t, fl.c), 0)) else 'does not return the low bit of the element'
            return fl.mc, r, judge
        decide(f, 'bit', 'bit', build)

    sizes = list(range(25)) + [61, 62, 63, 64] + ([100, 103] if cx.tier == 'thorough' else [])
    for n in sizes:
        f = byname.get('pack')
        if f is not None:
            def build(ch, so, off, f=f, n=n):
                fl = Field(m, rec, 0, False, 0, n, ch, n)
                r = guarded(fl.mc, f, [fl.this, aff('bytes')])

                def judge(r):
                    if r[0] != 'ret':
                        return 'does not complete for %d elements' % n
                    return packed(fl, n, lambda k: fl.mc.byte('bytes', NONE, k).b) or changed(fl, 0, 0)
                return fl.mc, r, judge
            decide(f, 'pack of %d elements' % n, 'pack', build)
        f = byname.get('packToString')
        if f is not None:
            def build(ch, so, off, f=f, n=n):
                fl = Field(m, rec, 0, False, 0, n, ch, n)
                strs = {}
                fl.mc.hook = stringhook(strs)
                r = guarded(fl.mc, f, [aff('result'), fl.this])

                def judge(r):
                    if r[0] != 'ret':
                        return 'does not complete for %d elements' % n
                    s = strs.get('result')
                    if s is None:
                        raise Undecided('result string not followed')
                    if len(s) != (n + 7) // 8:
                        return 'the string for %d elements has %d bytes' % (n, len(s))
                    return packed(fl, n, lambda k: s[k].b) or changed(fl, 0, 0)
                return fl.mc, r, judge
            decide(f, 'packToString of %d elements' % n, 'packToString', build)
        f = byname.get('unpack')
        if f is not None:
            def build(ch, so, off, f=f, n=n):
                fl = Field(m, rec, 0, False, 0, n, ch, n)
                r = guarded(fl.mc, f, [fl.this, aff('bytes')])

                def judge(r):
                    if r[0] != 'ret':
                        return 'does not complete for %d elements' % n
                    for k in range(n):
                        b = fl.low(k)
                        if b is None:
                            raise Undecided('element %d not followed' % k)
                        if b != fl.sub(('s', ('m', 'bytes', NONE, k // 8), 7 - k % 8)):
                            return 'element %d of %d is not bit %d of byte %d' % (k, n, 7 - k % 8, k // 8)
                    return changed(fl, 0, n)
                return fl.mc, r, judge
            decide(f, 'unpack of %d elements' % n, 'unpack', build)
    cx.atleast('configurations', count[0], 100)


def packed(fl, n, byte):
    for k in range(n):
        b = byte(k // 8)[7 - k % 8]
        if b is None:
            raise Undecided('byte %d not followed' % (k // 8))
        if b != fl.sub(('s', ('m', 'data', NONE, k), 0)):
            return 'bit %d of byte %d is not element %d of %d' % (7 - k % 8, k // 8, k, n)
    return None


def stringhook(strs):
    def hook(mc, i, fn, args):
        n = fn.dem
        if fn.repo or 'basic_string<' not in n and not fn.base.startswith('std::'):
            return NotImplemented
        def who(a):
            a = mc.toaff(a)
            if a is None or a.c or len(a.t) != 1:
                raise Undecided('string not followed')
            x = next(iter(a.t))[0]
            return x
        b = fn.short or fn.base.split('::')[-1]
        last = fn.base.split('::')[-1]
        if 'allocator' in last or 'allocator<' in n.split('(')[0].split('::')[-1] or n.startswith(('std::allocator', 'std::__new_allocator')):
            return args[0] if args else TOP
        if last == 'basic_string':
            if len(par(fn)) == 0 or len(par(fn)) == 1 and 'allocator' in par(fn)[0]:
                strs[who(args[0])] = []; return args[0]
            if len(par(fn)) >= 1 and par(fn)[0].startswith(('std::__cxx11::basic_string', 'std::basic_string')):
                strs[who(args[0])] = list(strs.get(who(args[1]), [])); return args[0]
            if len(par(fn)) >= 2 and par(fn)[0] == 'unsigned long' and par(fn)[1] == 'char':
                k = mc.toaff(args[1])
                if k is None or k.t:
                    raise Undecided('string length')
                strs[who(args[0])] = [mc.norm(args[2], 8)] * k.c; return args[0]
            raise Undecided('string constructor')
        if last == '~basic_string':
            strs.pop(who(args[0]), None); return None
        if last in ('reserve',):
            return None
        if last in ('push_back', 'operator+=') and par(fn) == ['char']:
            strs.setdefault(who(args[0]), []).append(mc.norm(args[1], 8)); return args[0]
        if last == 'append' and par(fn) == ['unsigned long', 'char']:
            k = mc.toaff(args[1])
            if k is None or k.t:
                raise Undecided('string length')
            strs.setdefault(who(args[0]), []).extend([mc.norm(args[2], 8)] * k.c); return args[0]
        if last == 'resize':
            k = mc.toaff(args[1])
            s = strs.setdefault(who(args[0]), [])
            if k is None or k.t:
                raise Undecided('string length')
            del s[k.c:]
            while len(s) < k.c:
                s.append(word(0, 8))
            return None
        if last in ('size', 'length'):
            return word(len(strs.get(who(args[0]), [])), 64)
        raise Undecided('string operation %s' % last)
    return hook
