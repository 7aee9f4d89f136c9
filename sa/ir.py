"""Loader for the JSON produced by tools/irdump: functions, CFG, loops, debug types."""
import json, re


class Inst:
    __slots__ = ('op', 'id', 'ty', 'w', 'ops', 'd', 'loc', 'fn', 'blk', 'idx')

    def __init__(self, d, fn, blk, idx):
        self.op = d['op']; self.id = d.get('id'); self.ty = d.get('ty'); self.w = d.get('w')
        self.ops = d.get('ops', []); self.d = d; self.fn = fn; self.blk = blk; self.idx = idx
        l = d.get('loc'); self.loc = tuple(l) if l else None

    def where(self):
        if self.loc:
            return '%s:%d' % (self.loc[0].split('/')[-1], self.loc[1])
        return self.fn.where()


class Block:
    __slots__ = ('id', 'name', 'insts', 'succ', 'pred', 'phis', 'fn', 'livein')


class Func:
    def __init__(self, m, d):
        self.m = m; self.d = d
        self.name = d['name']; self.dem = d['dem']; self.repo = d['repo']; self.decl = d['decl']
        self.short = d.get('short') or ''; self.file = d.get('file'); self.line = d.get('line')
        self.args = d['args']; self.noret = d['noret']; self.vararg = d['vararg']
        self.cls = d.get('cls', -1)
        self.blocks = []; self.entry = None
        self.base = basename(self.dem)
        if self.repo:
            self._build(d['blocks'])

    def where(self):
        return '%s:%s' % ((self.file or '?').split('/')[-1], self.line)

    def _build(self, bs):
        self.bmap = {}
        for b in bs:
            B = Block(); B.id = b['id']; B.name = b['name']; B.fn = self
            B.insts = [Inst(i, self, B, n) for n, i in enumerate(b['insts'])]
            B.phis = [i for i in B.insts if i.op == 'phi']
            B.succ = []; B.pred = []
            self.blocks.append(B); self.bmap[B.id] = B
        self.insts = {}
        self.varnames = {}      # value key -> (variable name, type id)
        for B in self.blocks:
            for i in B.insts:
                if i.id is not None:
                    self.insts[i.id] = i
                if i.op == 'dbg' and i.ops:
                    k = tuple(map(str, i.ops[0]))
                    if i.d['decl'] or k not in self.varnames:
                        self.varnames[k] = (i.d['var'], i.d['vt'])
            t = B.insts[-1]
            if t.op == 'br':
                s = t.d['succ']
            elif t.op == 'switch':
                s = [c[1] for c in t.d['cases']] + [t.d['default']]
            elif t.op == 'invoke':
                s = [t.d['normal'], t.d['unwind']]
            else:
                s = []
            seen = []
            for x in s:
                if x not in seen:
                    seen.append(x)
            B.succ = [self.bmap[x] for x in seen]
        for B in self.blocks:
            for s in B.succ:
                s.pred.append(B)
        self.entry = self.blocks[0]
        self._rpo(); self._dom(); self._loops(); self._live()

    def _rpo(self):
        seen = set(); order = []
        stack = [(self.entry, iter(self.entry.succ))]; seen.add(self.entry.id)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s.id not in seen:
                    seen.add(s.id); stack.append((s, iter(s.succ))); break
            else:
                order.append(b); stack.pop()
        self.rpo = order[::-1]
        self.rpoi = {b.id: n for n, b in enumerate(self.rpo)}

    def _dom(self):
        idom = {self.entry.id: self.entry.id}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in b.pred:
                    if p.id in idom:
                        if new is None:
                            new = p.id
                        else:
                            a, c = new, p.id
                            while a != c:
                                while self.rpoi[a] > self.rpoi[c]:
                                    a = idom[a]
                                while self.rpoi[c] > self.rpoi[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b.id) != new:
                    idom[b.id] = new; ch = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom.get(b)
            if n is None or n == b:
                return False
            b = n

    def _loops(self):
        self.loops = {}    # header id -> set of block ids
        for b in self.rpo:
            for s in b.succ:
                if s.id in self.rpoi and self.dominates(s.id, b.id):
                    body = self.loops.setdefault(s.id, {s.id})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x.id in body:
                            continue
                        body.add(x.id)
                        st.extend(p for p in x.pred if p.id in self.rpoi)

    def _live(self):
        use = {}; deff = {}
        phiuse = {}
        for b in self.blocks:
            u = set(); d = set()
            for i in b.insts:
                if i.op == 'phi':
                    d.add(i.id)
                    for pb, o in i.d['inc']:
                        for x in _ids(o):
                            phiuse.setdefault(pb, set()).add(x)
                    continue
                if i.op == 'dbg':
                    continue
                os = list(i.ops)
                if 'callee' in i.d:
                    os.append(i.d['callee'])
                if i.op == 'getelementptr':
                    pass
                for o in os:
                    for x in _ids(o):
                        if x not in d:
                            u.add(x)
                if i.id is not None:
                    d.add(i.id)
            use[b.id] = u; deff[b.id] = d
        live = {b.id: set() for b in self.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set(phiuse.get(b.id, ()))
                for s in b.succ:
                    out |= live[s.id] - {p.id for p in s.phis}
                n = use[b.id] | (out - deff[b.id]) | {p.id for p in b.phis}
                if n != live[b.id]:
                    live[b.id] = n; ch = True
        for b in self.blocks:
            b.livein = live[b.id]

    def __repr__(self):
        return '<%s>' % self.dem


def _ids(o):
    if not o:
        return ()
    if o[0] == 'i':
        return (o[1],)
    if o[0] == 'ce':
        return [x for y in o[2] for x in _ids(y)]
    return ()


def strip_template(s):
    out = []; d = 0; i = 0
    while i < len(s):
        c = s[i]
        if s.startswith('operator', i) and d == 0 and (i == 0 or not (s[i-1].isalnum() or s[i-1] == '_')):
            m = re.match(r'operator\s*(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>|\(\))', s[i:])
            if m:
                out.append('operator' + m.group(1)); i += len(m.group(0)); continue
        if c == '<':
            d += 1
        elif c == '>':
            if d:
                d -= 1
                i += 1
                continue
            out.append(c)
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def basename(dem):
    """'A::B<int>::f(int) const' -> 'A::B::f' (templates, parameters and return type removed)."""
    s = dem
    s = s.replace('(anonymous namespace)', '{anon}').replace('[abi:cxx11]', '')
    s = strip_template(s)
    # cut the parameter list: the first '(' at depth 0 that is not operator()
    m = re.search(r'operator\(\)', s)
    k = s.find('(', m.end() if m else 0)
    if k >= 0:
        s = s[:k]
    # cut return type (only templates/functions carry one)
    if 'operator' not in s:
        s = s.strip().split(' ')[-1]
    else:
        j = s.index('operator')
        pre = s[:j].split(' ')[-1]
        s = pre + s[j:]
    s = s.strip().lstrip('*&')
    return re.sub(r'^__isoc(99|23)_', '', s)


class Type:
    __slots__ = ('id', 'tag', 'name', 'size', 'base', 'off', 'd', 'm')

    def __init__(self, m, i, d):
        self.m = m; self.id = i; self.d = d; self.tag = d['tag'].replace('DW_TAG_', ''); self.name = d['name']
        self.size = d['size'] // 8; self.base = d.get('base', -1); self.off = d.get('off', 0) // 8

    def strip(self):
        """Through typedefs and cv qualifiers."""
        t = self
        while t is not None and t.tag in ('typedef', 'const_type', 'volatile_type', 'member', 'inheritance', 'restrict_type', 'atomic_type'):
            t = t.m.type(t.base)
        return t

    def pointee(self):
        t = self.strip()
        if t is not None and t.tag in ('pointer_type', 'reference_type', 'rvalue_reference_type'):
            b = t.m.type(t.base)
            return b.strip() if b else None
        return None

    def is_ptr(self):
        t = self.strip()
        return t is not None and t.tag in ('pointer_type', 'reference_type', 'rvalue_reference_type')

    def is_record(self):
        return self.tag in ('class_type', 'structure_type', 'union_type')

    def members(self):
        return [self.m.type(x) for x in self.d.get('members', [])]

    def fields(self):
        return [x for x in self.members() if x.tag in ('member', 'inheritance') and not x.d.get('static')]

    def is_unsigned(self):
        t = self.strip()
        if t is None:
            return False
        if t.tag == 'base_type':
            return t.d.get('enc') in ('DW_ATE_unsigned', 'DW_ATE_unsigned_char', 'DW_ATE_boolean', 'DW_ATE_UTF')
        if t.is_ptr():
            return True
        if t.tag == 'enumeration_type':
            return all(int(v) >= 0 for _, v in t.d.get('enums', []))
        return False

    def elem(self):
        t = self.strip()
        if t is not None and t.tag == 'array_type':
            return t.m.type(t.base)
        return None

    def qual(self):
        s = self.d.get('scope')
        return (self.m.type(s).qual() + '::' if s is not None and s >= 0 else '') + self.name

    def __repr__(self):
        return '<T %s %s>' % (self.tag, self.name)


class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.types = [Type(self, i, d) for i, d in enumerate(j['types'])]
        # resolve forward declarations to definitions by identifier
        bydef = {}
        for t in self.types:
            if t.is_record() and not t.d.get('fwd') and t.d.get('ident'):
                bydef[t.d['ident']] = t
        self.fwd = {}
        for t in self.types:
            if t.is_record() and t.d.get('fwd') and t.d.get('ident') in bydef:
                self.fwd[t.id] = bydef[t.d['ident']].id
        self.funcs = {}
        for d in j['funcs']:
            self.funcs[d['name']] = Func(self, d)
        self.globals = {g['name']: g for g in j['globals']}
        self.bybase = {}
        for f in self.funcs.values():
            self.bybase.setdefault(f.base, []).append(f)

    def type(self, i):
        if i is None or i < 0:
            return None
        i = self.fwd.get(i, i)
        return self.types[i]

    def repo_funcs(self):
        return [f for f in self.funcs.values() if f.repo]

    def find(self, base):
        """repo functions with this base name (template arguments stripped)"""
        return [f for f in self.bybase.get(base, []) if f.repo]

    def record(self, name):
        return [t for t in self.types if t.is_record() and not t.d.get('fwd') and strip_template(t.name) == name]

    def field_at(self, t, off):
        """path of members of record t at byte offset off: list of (record, member)"""
        out = []
        t = t.strip() if t else None
        while t is not None:
            if t.is_record():
                best = None
                for f in t.fields():
                    ft = f.strip()
                    sz = ft.size if ft is not None else 0
                    if f.off <= off < f.off + max(sz, 1):
                        # prefer non-empty and the most specific
                        if best is None or (sz > 0):
                            best = f
                if best is None:
                    break
                out.append((t, best)); off -= best.off
                t = best.strip()
            elif t.tag == 'array_type':
                e = t.elem(); e = e.strip() if e else None
                if e is None or e.size == 0:
                    break
                off %= e.size
                t = e
            else:
                break
        return out, t, off

    def cstr(self, gname, off=0):
        g = self.globals.get(gname)
        if not g or not g.get('const') or 'init' not in g:
            return None
        for o, sz, v in g['init']:
            if o <= off < o + sz:
                if v[0] == 'bytes':
                    b = bytes.fromhex(v[1])[off - o:]
                    return b.split(b'\0')[0].decode('latin1')
                if v[0] == 'z':
                    return ''
        return None
