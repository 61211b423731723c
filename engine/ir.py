"""Reader for the textual LLVM IR produced by the front end (build.py).

Operands are tuples:
  ('l', name)  SSA value / argument      ('g', name)  global (linked name)
  ('i', n)     integer constant          ('null',)    null pointer
  ('undef',)   undef / poison            ('ce', op, srcty, [operands])  constant expression
  ('zero',)    zeroinitializer           ('agg', [operands])  aggregate constant
  ('cstr', s)  char array constant (bytes decoded latin-1, without the final NUL)
"""
import re
from .build import AnalysisBroken

TOK = re.compile(r'''
   c"(?:[^"\\]|\\\\|\\[0-9A-Fa-f]{2})*" | [%@]"(?:[^"]*)" | "(?:[^"]*)" | [%@][-A-Za-z$._0-9]+ | ![0-9]+ | ![A-Za-z_]\w* |
   \.\.\. | -?\d+\.\d+(?:e[+-]?\d+)? | 0x[0-9A-Fa-f]+ | -?\d+ | [A-Za-z_][\w.]* | \#\d+ | [(){}\[\]<>,=*:|!]
''', re.X)

ATTRS = set('''noundef nonnull signext zeroext noalias nocapture readonly readnone writeonly returned immarg inreg
 nofree nest byval sret dereferenceable dereferenceable_or_null align nsw nuw exact inbounds volatile tail musttail notail
 fastcc ccc dso_local local_unnamed_addr unnamed_addr private internal external global constant hidden protected
 common weak linkonce linkonce_odr weak_odr available_externally disjoint nneg'''.split())


class Ins:
    __slots__ = ('op', 'res', 'ty', 'args', 'aty', 'x', 'line', 'file', 'bb', 'fn', 'idx', 'uid')

    def __init__(self, op):
        self.op = op
        self.res = None
        self.ty = None
        self.args = []
        self.aty = []
        self.x = None
        self.line = 0
        self.file = '?'

    @property
    def callee(self):
        if self.op == 'call' and self.x and self.x[0] == 'g':
            return self.x[1]
        return None

    def where(self):
        return "%s:%s" % (self.file, self.line)

    def __repr__(self):
        return "<%s %s = %s %s %s @%s>" % (self.fn.name if self.fn else '', self.res, self.op, self.x, self.args, self.line)


class Block:
    __slots__ = ('name', 'ins', 'succ', 'pred', 'fn')

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []
        self.pred = []


class Func:
    def __init__(self, name):
        self.name = name
        self.src = name
        self.module = None
        self.params = []
        self.ptypes = []
        self.pdecl = []      # DI names of parameter types
        self.retdecl = None
        self.retty = None
        self.blocks = {}
        self.order = []
        self.internal = False
        self.file = '?'
        self.line = 0
        self.varargs = False
        self.defs = {}

    def instrs(self):
        for b in self.order:
            for i in self.blocks[b].ins:
                yield i

    def entry(self):
        return self.order[0]

    def __repr__(self):
        return "<fn %s>" % self.name


class Struct:
    def __init__(self, name):
        self.name = name
        self.fields = []     # [(name, DI type string)]
        self.irtypes = []


class Global:
    def __init__(self, name):
        self.name = name
        self.ty = None
        self.init = None
        self.const = False
        self.internal = False
        self.module = None
        self.line = 0
        self.file = '?'
        self.decl = None


def unq(n):
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


def decode_c(s):
    body = s[2:-1]
    out = re.sub(r'\\(\\|[0-9A-Fa-f]{2})', lambda m: '\\' if m.group(1) == '\\' else chr(int(m.group(1), 16)), body)
    if out.endswith('\0'):
        out = out[:-1]
    return out


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def pk(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ''

    def nx(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def acc(self, v):
        if self.pk() == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        g = self.nx()
        if g != v:
            raise ValueError("expected %s got %s in %s" % (v, g, ' '.join(self.t)))

    def skip_attrs(self):
        while True:
            t = self.pk()
            if t in ATTRS:
                self.nx()
                if self.pk() == '(' and t in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'align'):
                    d = 0
                    while True:
                        x = self.nx()
                        d += (x == '(') - (x == ')')
                        if d == 0:
                            break
                elif t == 'align' and re.match(r'\d+$', self.pk()):
                    self.nx()
            elif t.startswith('#'):
                self.nx()
            elif t == 'range' and self.pk(1) == '(':
                while self.nx() != ')':
                    pass
            else:
                return

    def type(self):
        t = self.nx()
        if t == '{':
            parts = []
            while not self.acc('}'):
                parts.append(self.type())
                self.acc(',')
            r = '{%s}' % ','.join(parts)
        elif t == '[':
            n = self.nx()
            self.exp('x')
            e = self.type()
            self.exp(']')
            r = '[%s x %s]' % (n, e)
        elif t == '<':
            parts = []
            while not self.acc('>'):
                parts.append(self.nx())
            r = '<%s>' % ' '.join(parts)
        elif t.startswith('%'):
            r = '%' + unq(t)
        else:
            r = t
        if self.pk() == '(' and r != 'label':   # function type
            # only when followed by a type list and ')'
            save = self.i
            try:
                self.nx()
                parts = []
                while not self.acc(')'):
                    if self.acc('...'):
                        parts.append('...')
                    else:
                        parts.append(self.type())
                    self.acc(',')
                r = 'fn(%s)->%s' % (','.join(parts), r)
            except Exception:
                self.i = save
        return r

    def value(self, ty=None):
        t = self.nx()
        if t.startswith('%'):
            return ('l', unq(t))
        if t.startswith('@'):
            return ('g', unq(t))
        if t in ('null',):
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'true':
            return ('i', 1)
        if t == 'false':
            return ('i', 0)
        if t == 'zeroinitializer':
            return ('zero',)
        if t.startswith('c"'):
            return ('cstr', decode_c(t))
        if re.match(r'-?\d+$', t):
            return ('i', int(t))
        if re.match(r'-?\d+\.', t) or t.startswith('0x'):
            return ('fp', t)
        if t in ('getelementptr',):
            self.skip_attrs()
            self.exp('(')
            src = self.type()
            ops = []
            while self.acc(','):
                self.skip_attrs()
                ot = self.type()
                ops.append(self.value(ot))
            self.exp(')')
            return ('ce', 'getelementptr', src, ops)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.exp('(')
            ot = self.type()
            v = self.value(ot)
            self.exp('to')
            self.type()
            self.exp(')')
            return ('ce', t, ot, [v])
        if t in ('sub', 'add', 'mul', 'icmp', 'select', 'xor'):
            self.skip_attrs()
            if t == 'icmp':
                self.nx()
            self.exp('(')
            ops = []
            while True:
                ot = self.type()
                ops.append(self.value(ot))
                if not self.acc(','):
                    break
            self.exp(')')
            return ('ce', t, None, ops)
        if t in ('{', '[', '<'):
            if t == '<' and self.pk() == '{':
                self.nx()
                close = ['}', '>']
            else:
                close = [{'{': '}', '[': ']', '<': '>'}[t]]
            ops = []
            while self.pk() != close[0]:
                ot = self.type()
                ops.append(self.value(ot))
                self.acc(',')
            for c in close:
                self.exp(c)
            return ('agg', ops)
        if t == 'metadata':
            while self.i < len(self.t) and self.pk() not in (',', ')'):
                self.nx()
            return ('md',)
        raise ValueError("value? %s in %s" % (t, ' '.join(self.t)))


MDREF = re.compile(r'(\w+): (!\d+|"[^"]*"|[\w|]+)')


class Module:
    def __init__(self, name):
        self.name = name
        self.md = {}
        self.types = {}


class Program:
    def __init__(self):
        self.funcs = {}
        self.decls = set()
        self.globals = {}
        self.structs = {}
        self.enums = {}
        self.enumvals = {}
        self.modules = []

    # ------------------------------------------------------------ parsing
    def add_module(self, name, text):
        m = Module(name)
        self.modules.append(name)
        lines = text.split('\n')
        mdt = {}
        for ln in lines:
            if ln.startswith('!') and ' = ' in ln:
                k, v = ln.split(' = ', 1)
                mdt[k] = v
        m.md = mdt
        self._files = {}
        self._scopes = {}
        self._locs = {}
        self._read_di(m)
        i = 0
        rename = {}
        raw_f = []
        raw_g = []
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                nm, body = ln.split(' = type ', 1)
                nm = unq(nm)
                if body != 'opaque':
                    p = P(TOK.findall(body))
                    if p.pk() == '{' or p.pk() == '<':
                        p.acc('<')
                        p.exp('{')
                        parts = []
                        while not p.acc('}'):
                            parts.append(p.type())
                            p.acc(',')
                        m.types[nm] = parts
            elif ln.startswith('@'):
                raw_g.append(ln)
            elif ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                raw_f.append((ln, lines[i + 1:j]))
                i = j
            elif ln.startswith('declare '):
                mm = re.search(r'@("?[-A-Za-z$._0-9]+"?)\(', ln)
                if mm:
                    self.decls.add(mm.group(1))
            i += 1
        for ln in raw_g:
            nm = unq(ln.split(' = ', 1)[0])
            rest = ln.split(' = ', 1)[1]
            if re.match(r'(private|internal)\b', rest):
                rename[nm] = "%s#%s" % (name, nm)
        for hd, body in raw_f:
            mm = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', hd)
            nm = mm.group(1).strip('"')
            if re.match(r'define\s+internal', hd):
                rename[nm] = nm if nm not in self.funcs else "%s#%s" % (name, nm)
        m.rename = rename
        for ln in raw_g:
            self._global(m, ln)
        for hd, body in raw_f:
            self._func(m, hd, body)
        m.md = None
        # structs of this module
        for nm, parts in m.types.items():
            base = nm.split('.', 1)[1] if '.' in nm else nm
            key = '%' + nm
            st = self.structs.get(key)
            if st is None:
                st = Struct(key)
                self.structs[key] = st
                st.irtypes = parts
            if not st.fields and base in m.di_structs:
                st.fields = m.di_structs[base]

    def _read_di(self, m):
        m.di_structs = {}
        for k, v in m.md.items():
            if 'DICompositeType(' in v:
                d = dict(MDREF.findall(v))
                if 'DW_TAG_structure_type' in v or 'DW_TAG_union_type' in v:
                    nm = d.get('name', '').strip('"')
                    if 'elements' in d:
                        el = []
                        for e in re.findall(r'!\d+', m.md.get(d['elements'], '')):
                            ev = dict(MDREF.findall(m.md[e]))
                            el.append((ev.get('name', '').strip('"'), self._ty(m, ev.get('baseType'))))
                        if nm:
                            m.di_structs[nm] = el
                elif 'DW_TAG_enumeration_type' in v and 'elements' in d:
                    nm = d.get('name', '').strip('"')
                    vals = {}
                    for e in re.findall(r'!\d+', m.md.get(d['elements'], '')):
                        ev = dict(re.findall(r'(\w+): ("[^"]*"|-?\d+|\w+)', m.md[e]))
                        vals[ev['name'].strip('"')] = int(ev['value'])
                    if not nm:
                        nm = 'anon:' + k
                    self.enums.setdefault(nm, {}).update(vals)
                    for a, b in vals.items():
                        self.enumvals[a] = b

    def _ty(self, m, ref, depth=0):
        if ref is None or ref == 'null':
            return 'void'
        v = m.md.get(ref, '')
        d = dict(MDREF.findall(v))
        if 'DIBasicType' in v:
            return d.get('name', '?').strip('"')
        if 'DICompositeType' in v:
            nm = d.get('name', '').strip('"')
            if 'structure_type' in v:
                return 'struct ' + nm
            if 'union_type' in v:
                return 'union ' + nm
            if 'enumeration' in v:
                return 'enum ' + nm
            if 'array' in v:
                return self._ty(m, d.get('baseType'), depth + 1) + '[]'
        if 'DIDerivedType' in v:
            if 'pointer_type' in v:
                return self._ty(m, d.get('baseType'), depth + 1) + '*'
            if 'const_type' in v:
                return 'const ' + self._ty(m, d.get('baseType'), depth + 1)
            if 'typedef' in v:
                r = self._ty(m, d.get('baseType'), depth + 1)
                nm = d.get('name', '').strip('"')
                if nm == 'bool' or r.startswith('enum') or r.endswith('*'):
                    return r
                return nm if not r.startswith('struct') else r
            return self._ty(m, d.get('baseType'), depth + 1)
        if 'DISubroutineType' in v:
            return 'fn'
        return '?'

    def _fileof(self, m, ref):
        if ref in self._files:
            return self._files[ref]
        v = m.md.get(ref, '')
        r = '?'
        mm = re.search(r'filename: "([^"]*)"', v)
        if mm:
            r = mm.group(1)
            if r.startswith('./'):
                r = r[2:]
        self._files[ref] = r
        return r

    def _scopefile(self, m, ref):
        if ref in self._scopes:
            return self._scopes[ref]
        v = m.md.get(ref, '')
        d = dict(MDREF.findall(v))
        r = '?'
        if 'file' in d and d['file'].startswith('!'):
            r = self._fileof(m, d['file'])
        elif 'scope' in d:
            r = self._scopefile(m, d['scope'])
        self._scopes[ref] = r
        return r

    def _loc(self, m, ref):
        if ref in self._locs:
            return self._locs[ref]
        v = m.md.get(ref, '')
        d = dict(re.findall(r'(\w+): (!?\d+)', v))
        r = (int(d.get('line', '0')), self._scopefile(m, d.get('scope', '')))
        self._locs[ref] = r
        return r

    def _rn(self, m, v):
        if v[0] == 'g' and v[1] in m.rename:
            return ('g', m.rename[v[1]])
        if v[0] == 'ce':
            return ('ce', v[1], v[2], [self._rn(m, x) for x in v[3]])
        if v[0] == 'agg':
            return ('agg', [self._rn(m, x) for x in v[1]])
        return v

    def _global(self, m, ln):
        nm, rest = ln.split(' = ', 1)
        nm = unq(nm)
        g = Global(m.rename.get(nm, nm))
        g.module = m.name
        g.src = nm
        g.internal = bool(re.match(r'(private|internal)\b', rest))
        g.const = bool(re.search(r'^(?:\w+\s+)*?constant\b', rest))
        ext = rest.startswith('external')
        dbg = re.search(r'!dbg (!\d+)', rest)
        rest2 = re.sub(r', (align \d+|!dbg !\d+|section "[^"]*"|comdat.*)', '', rest) if 'c"' not in rest else rest
        p = P(TOK.findall(rest2))
        while p.pk() in ATTRS:
            p.nx()
        g.ty = p.type()
        if dbg:
            v = m.md.get(dbg.group(1), '')
            d = dict(MDREF.findall(v))
            if 'var' in d:
                v = m.md.get(d['var'], '')
                d = dict(MDREF.findall(v))
                g.line = int(d.get('line', '0'))
                g.file = self._fileof(m, d.get('file', ''))
                g.decl = self._ty(m, d.get('type'))
                if 'DILexicalBlock' in m.md.get(d.get('scope', ''), '') or 'DISubprogram' in m.md.get(d.get('scope', ''), ''):
                    g.local_static = True
        if not ext and p.i < len(p.t):
            g.init = self._rn(m, p.value(g.ty))
        if ext and g.name in self.globals:
            return
        if g.name in self.globals and self.globals[g.name].init is not None and g.init is None:
            return
        self.globals[g.name] = g

    def _func(self, m, hd, body):
        mm = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', hd)
        nm = mm.group(1).strip('"')
        f = Func(m.rename.get(nm, nm))
        f.src = nm
        f.module = m.name
        f.internal = bool(re.match(r'define\s+internal', hd))
        pre = P(TOK.findall(hd[len('define '):mm.start()]))
        pre.skip_attrs()
        f.retty = pre.type()
        # params
        tail = hd[mm.end():]
        p = P(TOK.findall(tail))
        while not p.acc(')'):
            if p.acc('...'):
                f.varargs = True
                continue
            t = p.type()
            p.skip_attrs()
            v = p.nx()
            f.params.append(unq(v))
            f.ptypes.append(t)
            p.acc(',')
        dbg = re.search(r'!dbg (!\d+)', hd)
        if dbg:
            v = m.md.get(dbg.group(1), '')
            d = dict(MDREF.findall(v))
            f.file = self._fileof(m, d.get('file', ''))
            f.line = int(d.get('line', '0'))
            tv = m.md.get(d.get('type', ''), '')
            td = dict(MDREF.findall(tv))
            tl = m.md.get(td.get('types', ''), '')
            refs = re.findall(r'!\d+|null', tl[1:] if tl.startswith('!') else tl)
            tys = [self._ty(m, r if r != 'null' else None) for r in refs]
            if tys:
                f.retdecl = tys[0]
                f.pdecl = tys[1:]
        while len(f.pdecl) < len(f.params):
            f.pdecl.append('?')
        cur = Block(None)
        first = True
        i = 0
        while i < len(body):
            ln = body[i]
            if not ln.strip() or ln.startswith(';'):
                i += 1
                continue
            if not ln.startswith(' '):
                mm = re.match(r'("[^"]*"|[-A-Za-z$._0-9]+):', ln)
                if not mm:
                    raise ValueError(ln)
                cur = Block(mm.group(1).strip('"'))
                cur.fn = f
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                i += 1
                continue
            s = ln
            if s.lstrip().startswith('switch ') and ']' not in s:
                while ']' not in body[i]:
                    i += 1
                    s += ' ' + body[i]
            i += 1
            if 'llvm.dbg.' in s or 'llvm.lifetime' in s or '#dbg_' in s:
                continue
            ins = self._ins(m, f, s.strip())
            ins.bb = cur
            ins.fn = f
            ins.idx = len(cur.ins)
            cur.ins.append(ins)
            if ins.res is not None:
                f.defs[ins.res] = ins
        for b in f.order:
            t = f.blocks[b].ins[-1]
            if t.op == 'br':
                f.blocks[b].succ = [t.x[0]] if len(t.x) == 1 else [t.x[0], t.x[1]]
            elif t.op == 'switch':
                f.blocks[b].succ = [t.x[0]] + [c[1] for c in t.x[1]]
            seen = []
            for sx in f.blocks[b].succ:
                if sx not in seen:
                    seen.append(sx)
            f.blocks[b].succ = seen
        for b in f.order:
            for sx in f.blocks[b].succ:
                f.blocks[sx].pred.append(b)
        self.funcs[f.name] = f

    def _ins(self, m, f, s):
        dbg = re.search(r', !dbg (!\d+)', s)
        if dbg:
            s = s[:dbg.start()]
        s = re.sub(r', !(\w+) !\d+', '', s)
        res = None
        mm = re.match(r'(%"[^"]*"|%[-A-Za-z$._0-9]+) = ', s)
        if mm:
            res = unq(mm.group(1))
            s = s[mm.end():]
        p = P(TOK.findall(s))
        op = p.nx()
        if op in ('tail', 'musttail', 'notail'):
            op = p.nx()
        ins = Ins(op)
        ins.res = res
        if dbg:
            ins.line, ins.file = self._loc(m, dbg.group(1))
        rn = lambda v: self._rn(m, v)
        if op == 'alloca':
            ins.ty = 'ptr'
            ins.x = p.type()
            if p.acc(','):
                if p.pk() != 'align':
                    t = p.type()
                    ins.args = [rn(p.value())]
        elif op == 'load':
            p.skip_attrs()
            ins.ty = p.type()
            p.exp(',')
            p.type()
            ins.args = [rn(p.value())]
        elif op == 'store':
            p.skip_attrs()
            t = p.type()
            v = rn(p.value(t))
            p.exp(',')
            p.type()
            ins.ty = t
            ins.args = [v, rn(p.value())]
        elif op == 'getelementptr':
            p.skip_attrs()
            ins.x = p.type()
            ins.ty = 'ptr'
            while p.acc(','):
                t = p.type()
                ins.args.append(rn(p.value()))
                ins.aty.append(t)
        elif op in ('icmp', 'fcmp'):
            p.skip_attrs()
            ins.x = p.nx()
            t = p.type()
            a = rn(p.value())
            p.exp(',')
            b = rn(p.value())
            ins.args = [a, b]
            ins.aty = [t]
            ins.ty = 'i1'
        elif op == 'br':
            if p.acc('label'):
                ins.x = [unq(p.nx())]
            else:
                p.type()
                ins.args = [rn(p.value())]
                p.exp(',')
                p.exp('label')
                a = unq(p.nx())
                p.exp(',')
                p.exp('label')
                b = unq(p.nx())
                ins.x = [a, b]
                if a == b:
                    ins.x = [a]
                    ins.args = []
        elif op == 'switch':
            t = p.type()
            ins.args = [rn(p.value())]
            p.exp(',')
            p.exp('label')
            dflt = unq(p.nx())
            p.exp('[')
            cs = []
            while not p.acc(']'):
                p.type()
                c = p.value()
                p.exp(',')
                p.exp('label')
                cs.append((c[1], unq(p.nx())))
            ins.x = (dflt, cs)
        elif op == 'ret':
            t = p.type()
            if t != 'void':
                ins.args = [rn(p.value())]
            ins.ty = t
        elif op == 'phi':
            ins.ty = p.type()
            inc = []
            while True:
                p.exp('[')
                v = rn(p.value())
                p.exp(',')
                b = unq(p.nx())
                p.exp(']')
                inc.append((v, b))
                if not p.acc(','):
                    break
            ins.x = inc
            ins.args = [v for v, _ in inc]
        elif op == 'call':
            p.skip_attrs()
            # return type or function type
            t = p.type()
            ins.ty = t
            if t.startswith('fn('):
                ins.ty = t[t.rindex('->') + 2:]
            p.skip_attrs()
            cal = rn(p.value())
            ins.x = cal
            p.exp('(')
            while not p.acc(')'):
                t = p.type()
                p.skip_attrs()
                if t == 'metadata':
                    while p.pk() not in (',', ')'):
                        p.nx()
                    v = ('md',)
                else:
                    v = rn(p.value())
                ins.args.append(v)
                ins.aty.append(t)
                p.acc(',')
        elif op in ('sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'addrspacecast'):
            p.skip_attrs()
            t = p.type()
            ins.args = [rn(p.value())]
            ins.aty = [t]
            p.exp('to')
            ins.ty = p.type()
        elif op == 'select':
            p.type()
            c = rn(p.value())
            p.exp(',')
            ins.ty = p.type()
            a = rn(p.value())
            p.exp(',')
            p.type()
            b = rn(p.value())
            ins.args = [c, a, b]
        elif op == 'unreachable':
            pass
        elif op == 'extractvalue':
            ins.ty = p.type()
            ins.args = [rn(p.value())]
        elif op == 'insertvalue':
            ins.ty = p.type()
            ins.args = [rn(p.value())]
            p.exp(',')
            p.type()
            ins.args.append(rn(p.value()))
        elif op == 'freeze':
            ins.ty = p.type()
            ins.args = [rn(p.value())]
        elif op in ('fneg',):
            ins.ty = p.type()
            ins.args = [rn(p.value())]
        elif op == 'va_arg':
            p.type()
            ins.args = [rn(p.value())]
            p.exp(',')
            ins.ty = p.type()
        else:  # binary
            p.skip_attrs()
            ins.ty = p.type()
            a = rn(p.value())
            p.exp(',')
            b = rn(p.value())
            ins.args = [a, b]
        return ins

    # ------------------------------------------------------------ linking
    def link(self):
        n = 0
        for f in self.funcs.values():
            for i in f.instrs():
                i.uid = n
                n += 1
        self.externals = set()
        for f in self.funcs.values():
            for i in f.instrs():
                c = i.callee
                if c and c not in self.funcs and not c.startswith('llvm.'):
                    self.externals.add(c)

    # ------------------------------------------------------------ helpers
    def cstring(self, gname):
        g = self.globals.get(gname)
        if g is None or g.init is None:
            return None
        if g.init[0] == 'cstr':
            return g.init[1]
        if g.init[0] == 'zero' and re.match(r'\[\d+ x i8\]', g.ty or ''):
            return ''
        return None

    def field(self, structty, idx):
        st = self.structs.get(structty)
        if st and idx < len(st.fields):
            return st.fields[idx][0]
        return 'f%d' % idx

    def fieldtype(self, structty, idx):
        st = self.structs.get(structty)
        if st and idx < len(st.fields):
            return st.fields[idx][1]
        return '?'

    def callers(self, name):
        for f in self.funcs.values():
            for i in f.instrs():
                if i.callee == name:
                    yield i

    def address_taken(self):
        """function name -> list of instructions/globals that take its address"""
        out = {}

        def walk(v, src):
            if v[0] == 'g' and v[1] in self.funcs:
                out.setdefault(v[1], []).append(src)
            elif v[0] == 'ce':
                for x in v[3]:
                    walk(x, src)
            elif v[0] == 'agg':
                for x in v[1]:
                    walk(x, src)
        for f in self.funcs.values():
            for i in f.instrs():
                for a in i.args:
                    walk(a, i)
        for g in self.globals.values():
            if g.init is not None:
                walk(g.init, g)
        return out

    def fn(self, name):
        f = self.funcs.get(name)
        if f is None:
            raise AnalysisBroken("anchor function %s not found in the current tree" % name)
        return f

    def enum(self, name):
        if name not in self.enumvals:
            raise AnalysisBroken("enumerator %s not found in the current tree" % name)
        return self.enumvals[name]
