"""C19: string search results and exhaustive handling of the value types."""
from .common import *
from ..shapes import Shapes

FIND = ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of')
POSARG = {'substr': 0, 'erase': 0, 'insert': 0, 'replace': 0, 'at': 0, 'operator[]': 0, 'compare': 0, 'copy': 2}


def is_find(fn):
    if fn is None:
        return False
    b = fn.base.replace('__cxx11::', '')
    return b.startswith(('std::basic_string::', 'std::basic_string_view::')) and b.rsplit('::', 1)[-1] in FIND


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >= 1 << (w - 1) else v


def narrowed(cx, m):
    """forward slices of the search results through conversions; a comparison with the not-found value must still recognise it"""
    rets = {}       # function name -> (value npos becomes, width, narrowed)
    n = 0
    changed = True
    while changed:
        changed = False
        for f in m.repo_funcs():
            val = {}
            more = True
            while more:
                more = False
                for b in f.blocks:
                    for i in b.insts + [x for x in getattr(b, 'phis', []) if x not in b.insts]:
                        if i.id is None or i.id in val:
                            continue
                        r = None
                        if i.op in ('call', 'invoke'):
                            cal = i.d.get('callee')
                            g = m.funcs.get(cal[1]) if cal and cal[0] == 'g' else None
                            if is_find(g):
                                r = (-1, 64, False)
                            elif g is not None and g.name in rets:
                                r = rets[g.name]
                        elif i.op in ('trunc', 'zext', 'sext', 'freeze') and i.ops and i.ops[0][0] == 'i' and i.ops[0][1] in val:
                            v, w, nar = val[i.ops[0][1]]
                            if i.op == 'trunc':
                                r = (sgn(v, i.w), i.w, True) if i.w > 1 else None
                            elif i.op == 'zext':
                                r = (v & ((1 << w) - 1), i.w, nar)
                            else:
                                r = (v, i.w, nar)
                        elif i.op == 'phi':
                            k = [val[o[1]] for _, o in i.d['inc'] if o[0] == 'i' and o[1] in val]
                            if k and len(set(k)) == 1:
                                r = k[0]
                        elif i.op == 'select':
                            k = [val[o[1]] for o in i.ops[1:] if o[0] == 'i' and o[1] in val]
                            if k and len(set(k)) == 1:
                                r = k[0]
                        if r is not None:
                            val[i.id] = r; more = True
            f._found = val
            for b in f.blocks:
                for i in b.insts:
                    if i.op == 'ret' and i.ops and i.ops[0][0] == 'i' and i.ops[0][1] in val and f.name not in rets and i.ops[0][1] in val:
                        rets[f.name] = val[i.ops[0][1]]; changed = True
    for f in m.repo_funcs():
        val = f._found
        if not val:
            continue
        cx.fn(f)
        for b in f.blocks:
            for i in b.insts:
                if i.op != 'icmp':
                    continue
                for a, o in ((0, 1), (1, 0)):
                    if i.ops[a][0] != 'i' or i.ops[a][1] not in val or i.ops[o][0] != 'c':
                        continue
                    v, w, nar = val[i.ops[a][1]]
                    k = sgn(int(i.ops[o][1]), w)
                    # the constants a programmer compares with to ask for "not found", seen at any width
                    notfound = {sgn(-1, w)} | {sgn((1 << x) - 1, w) for x in (16, 32, 64) if x <= w}
                    if i.d.get('pred') in ('eq', 'ne') and k in notfound:
                        n += 1
                        ok = sgn(v, w) == k
                        cx.obligation('%s: comparison of a search result with not-found' % f.base, ok, i.where(),
                                      '%s: the search result was narrowed, not-found has become %d and is compared with %d' % (f.base, sgn(v, w), k), key='C19/%s/narrow' % f.base)
    return n


class FindRule(RuleBase):
    max_states = 40

    def __init__(self, name, relevant):
        super().__init__(); self.name = name; self.relevant = relevant; self.uses = 0; self.finds = 0

    def key(self, st):
        return ()

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if fn is None:
            return None
        if is_find(fn):
            self.finds += 1
            a = eng.op('position', (len(ctx.path), i.id, st.res(eng.tolin(st, args[0]))), 64, 0, (1 << 31) - 1)
            st2 = st.copy(); st2.note((i.where(), 'the text searched for is not there'))
            return [(st, lin(a)), (st2, const(-1))]
        b = base.replace('__cxx11::', '')
        if b.startswith('std::basic_string::'):
            mth = b.rsplit('::', 1)[-1]
            from ..shapes import par
            ps = par(fn)
            k = POSARG.get(mth)
            if k is not None and len(ps) > k and ps[k] == 'unsigned long':
                sret = 1 if fn.args and fn.args[0].get('sret') else 0
                v = st.res(eng.tolin(st, args[1 + sret + k]))
                self.uses += 1
                if not v.t and (v.c & ((1 << 64) - 1)) in ((1 << 64) - 1, (1 << 32) - 1, (1 << 16) - 1) :
                    self.report(st, 'C19/%s/position' % self.name, i.where(), '%s: the not-found answer (%d) is used as a position by %s' % (self.name, v.c, mth))
        if fn.repo and fn.blocks and fn.name not in self.relevant:
            return cutcall(eng, st, i, fn, args)
        return None


class TypeRule(RuleBase):
    max_states = 40

    def __init__(self, value):
        super().__init__(); self.value = value; self.val = None

    def key(self, st):
        return ()

    def on_call(self, eng, st, i, fn, base, args, ctx):
        if base == 'ConfigurationKey::getType':
            if i.ty != 'ptr':
                return [(st, const(self.value))]
            t = eng.atom('heap', ('the type',), 'the type', 'p', 1)
            eng.store(st, t, 0, 4, const(self.value))
            return [(st, lin(t))]
        b = (base or '').replace('__cxx11::', '')
        if b in ('std::basic_string::length', 'std::basic_string::size', 'std::basic_string::empty') and eng.addr(st, args[0])[0] == self.val:
            if b.endswith('empty'):
                return [(st, F)]
            a = eng.op('length of the value', (), 64, 1, 1 << 40)
            return [(st, lin(a))]
        if fn is not None and fn.repo and fn.blocks and base.rsplit('::', 1)[-1] not in ('isValidValue',) and any(x in base for x in ('isValidIP', 'isInValRange', '~', 'ConfigurationKey::ConfigurationKey', 'getValidValues')):
            return cutcall(eng, st, i, fn, args)
        return None


class NameRule(RuleBase):
    concrete = True

    def __init__(self):
        super().__init__(); self.sh = Shapes()

    def key(self, st):
        return frozenset((k, v) for k, v in st.ts.items() if k[0] == 'S')

    def on_call(self, eng, st, i, fn, base, args, ctx):
        return self.sh.call(eng, st, i, fn, base, args, ctx)


def enum(m, *names):
    for t in m.types:
        if t.tag == 'enumeration_type' and t.name == names[-1] and t.d.get('enums') and t.d.get('ident', '').endswith(''.join('%d%s' % (len(x), x) for x in names) + 'E'):
            return [(a, int(b)) for a, b in t.d['enums']]
    raise core.Broken('enumeration %s not found' % '::'.join(names))


def names(cx, m, fname, en):
    f = cx.one(fname)
    cx.fn(f)
    out = {}
    for lab, v in en + [('(undeclared)', max(x for _, x in en) + 1)]:
        rule = NameRule()
        eng = Engine(m, rule, Models())
        args = eng.params(f)
        st = State()
        k = 1 if f.args and f.args[0].get('sret') else 0
        if f.args[k].get('ty') == 'ptr' or eng.tolin(st, args[k]).single() is not None and eng.tolin(st, args[k]).single().w == 'p':
            b, o = eng.addr(st, args[k])
            eng.store(st, b, o, 4, const(v))
        else:
            args[k] = const(v)
        try:
            ex = eng.run(f, st, args)
        except Budget as e:
            cx.undecided('%s(%s)' % (fname, lab), str(e)); continue
        r = set()
        for e in ex:
            if e.kind == 'ret':
                r.add(rule.sh.sref(eng, e.st, args[0]) if k else rule.sh.cptr(eng, e.st, e.val) if e.val is not None else ('f', 0))
        if len(r) == 1 and next(iter(r))[0] == 'c':
            out[lab] = next(iter(r))[1]
        elif not r:
            out[lab] = None
        else:
            cx.undecided('%s(%s)' % (fname, lab), 'result not followed')
    un = out.pop('(undeclared)', None)
    for lab, t in out.items():
        ok = t not in (None, '') and t != un
        cx.obligation('%s: %s has a name' % (fname, lab), ok, f.where(), '%s: %s is not handled, it gets %s' % (fname, lab, 'no name' if not t else 'the text of an undeclared value ("%s")' % t), key='C19/%s/%s' % (fname, lab))
        twin = [x for x in out if x != lab and out[x] == t]
        cx.obligation('%s: %s has a name of its own' % (fname, lab), not twin or not ok, f.where(), '%s: %s and %s get the same name' % (fname, lab, ', '.join(twin)), key='C19/%s/same' % fname)


def c19(cx):
    m = cx.m
    cx.rule('Results of the string searches are followed through conversions, merges and returns: each comparison with the not-found value must compare with what that value has become; on the path on which nothing was found no position argument may get the '
            'not-found value. For every enumerator of ConfigurationKey::Type validation must have a path that accepts a value, and the name functions must give each enumerator of Type and VisibilityLevel a name of its own, different from that of an undeclared value.')
    n = narrowed(cx, m)
    users = [f for f in m.repo_funcs() if any(is_find(m.funcs.get(i.d['callee'][1])) for i in calls(f) if i.d.get('callee') and i.d['callee'][0] == 'g')]
    rel = {f.name for f in users}
    # helpers that hand a search result on
    helper = {f.name for f in m.repo_funcs() if len(f.blocks) < 30 and f.name in {h.name for h in users}}
    tot = 0
    for f in users:
        rule = FindRule(f.base, helper)
        eng = Engine(m, rule, Models())
        try:
            eng.run(f, State(), None)
        except Budget as e:
            cx.undecided(f.base, str(e)); continue
        tot += rule.finds
        rule.met('%s: not-found is never used as a position' % f.base, not rule.rep)
        drain(cx, rule)
    cx.atleast('string searches', tot, 15)
    types = enum(m, 'ConfigurationKey', 'Type')
    f = cx.one('ConfigurationTable::isValidValue')
    cx.fn(f)
    for lab, v in types:
        rule = TypeRule(v)
        eng = Engine(m, rule, Models())
        args = eng.params(f)
        rule.val = eng.addr(State(), args[2])[0]
        try:
            ex = eng.run(f, State(), args)
        except Budget as e:
            cx.undecided('isValidValue(%s)' % lab, str(e)); continue
        rets = [e for e in ex if e.kind == 'ret']
        if not rets:
            cx.undecided('isValidValue(%s)' % lab, 'no path returns'); continue
        some = any(e.val is None or e.st.decide(eng.tocond(e.st, e.val)) is not False for e in rets)
        cx.obligation('isValidValue handles %s' % lab, some, f.where(), 'ConfigurationTable::isValidValue: no non-empty value of type %s is ever accepted, the type is not handled' % lab, key='C19/isValidValue/%s' % lab)
    names(cx, m, 'ConfigurationKey::typeToString', types)
    names(cx, m, 'ConfigurationKey::visibilityLevelToString', enum(m, 'ConfigurationKey', 'VisibilityLevel'))
