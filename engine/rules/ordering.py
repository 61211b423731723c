"""R31: C-001 - the section, the place within it and the order of two statements, on scenarios of every kind of statement."""
import multiprocessing
import os
from fractions import Fraction
from itertools import product
from ..absint import NULL, State
from ..core import Result, loc
from .. import pretty
from .required import ShapeI, Endless, build_list, text, place
from .terminate import World

MOD = 'alpha'
META = ('al', 'scen', 'meta')
# interfaces: name -> module; modules -> layer
IFS = {'alpha_do': 'alpha', 'alpha_more': 'alpha', 'alpha_extra_do': 'alpha_extra', 'alphabet_do': 'alphabet', 'kernel_read': 'kernel', 'dev_read': 'devices', 'fs_get': 'filesystem',
       'init_use': 'init', 'logging_send': 'logging', 'apache_use': 'apache', 'zebra_use': 'zebra', 'nolay_use': 'nolay'}
LAYER = {'alpha': 'services', 'alpha_extra': 'services', 'alphabet': 'services', 'kernel': 'kernel', 'devices': 'kernel', 'filesystem': 'kernel', 'init': 'system', 'logging': 'system', 'apache': 'services', 'zebra': 'apps'}
TEMPLATES = {'alpha_template'}
TRANSFORM = {'fs_get', 'both_flags'}
FILETRANS = {'logging_send', 'both_flags'}
ROLEIF = {'apache_use'}
KIND = {'a_t': 'DECL_TYPE', 'a_exec_t': 'DECL_TYPE', 'b_t': 'DECL_TYPE', 'own_attr': 'DECL_ATTRIBUTE', 'other_attr': 'DECL_ATTRIBUTE', 'a_r': 'DECL_ROLE', 'b_r': 'DECL_ROLE', 'a_bool': 'DECL_BOOL', 'b_bool': 'DECL_BOOL'}
DECLMOD = {'a_t': 'alpha', 'a_exec_t': 'alpha', 'b_t': 'beta', 'own_attr': 'alpha', 'other_attr': 'beta', 'a_r': 'alpha', 'b_r': 'beta', 'a_bool': 'alpha', 'b_bool': 'beta'}
NON, DECLS = '_non_ordered', '_declaration'
WRAP = ('NODE_OPTIONAL_POLICY', 'NODE_OPTIONAL_ELSE', 'NODE_BOOLEAN_POLICY', 'NODE_TUNABLE_POLICY', 'NODE_IFDEF', 'NODE_IFELSE')
OUTER = {'NODE_OPTIONAL_POLICY': 'LSS_OPTIONAL', 'NODE_OPTIONAL_ELSE': 'LSS_OPTIONAL', 'NODE_BOOLEAN_POLICY': 'LSS_BOOLEAN', 'NODE_TUNABLE_POLICY': 'LSS_TUNABLE', 'NODE_IFDEF': 'LSS_BUILD_OPTION', 'NODE_IFELSE': 'LSS_BUILD_OPTION'}
ORDER = {'ORDER_REF': ('LSS_SELF', 'LSS_OWN', 'LSS_KERNEL_MOD', 'LSS_KERNEL', 'LSS_SYSTEM', 'LSS_OTHER', 'LSS_BUILD_OPTION', 'LSS_BOOLEAN', 'LSS_TUNABLE', 'LSS_OPTIONAL'),
         'ORDER_LIGHT': ('LSS_SELF', 'LSS_OWN', 'LSS_RELATED', 'LSS_KERNEL_MOD', 'LSS_OTHER', 'LSS_BUILD_OPTION', 'LSS_BOOLEAN', 'LSS_TUNABLE', 'LSS_OPTIONAL'),
         'ORDER_LAX': ('LSS_SELF', 'LSS_OWN')}
SUFFIX = {'ORDER_REF': '', 'ORDER_LIGHT': '_light', 'ORDER_LAX': '_lax'}


class Stmt:
    """kind, payload dict, children (behind the start of the block), parent, prev/next by position"""

    def __init__(self, kind, kids=None, **pay):
        self.kind, self.kids, self.pay = kind, kids, pay
        self.parent = self.prev = self.next = None
        self.o = None
        self.title = ''

    def names(self):
        p = self.pay
        out = []
        for k in ('sources', 'targets', 'args', 'perms'):
            if k == 'perms':
                continue
            out += [n.lstrip('-') for n in p.get(k) or ()]
        return out


def av(src, tgt, perms=('read',), flavor='AV_RULE_ALLOW', kind='NODE_AV_RULE'):
    s = Stmt(kind, sources=src, targets=tgt, object_classes=('file',), perms=perms, flavor=flavor)
    s.title = '%s %s %s %s' % (flavor[8:].lower() + ('xperm' if kind == 'NODE_XAV_RULE' else ''), ' '.join(src), ' '.join(tgt), ' '.join(perms))
    return s


def tt(src, tgt, flavor='TT_TT'):
    s = Stmt('NODE_TT_RULE', sources=src, targets=tgt, object_classes=('file',), default_type='b_t', flavor=flavor)
    s.title = '%s %s %s' % (flavor, ' '.join(src), ' '.join(tgt))
    return s


def call(name, *args):
    s = Stmt('NODE_IF_CALL', name=name, args=args)
    s.title = '%s(%s)' % (name, ', '.join(args))
    return s


def decl(flavor, name):
    s = Stmt('NODE_DECL', name=name, flavor=flavor)
    s.title = '%s %s' % (flavor[5:].lower(), name)
    return s


def block(kind, *kids):
    s = Stmt(kind, kids=list(kids))
    s.title = '%s { %s }' % (kind[5:].lower(), '; '.join(k.title for k in kids))
    return s


def plain(kind):
    s = Stmt(kind)
    s.title = kind[5:].lower()
    return s


# ------------------------------------------------------------------ the documented answers
def chain(s):
    while s is not None:
        yield s
        s = s.parent


def outermost(s):
    w = [x.kind for x in chain(s) if x.kind in OUTER]
    return OUTER[w[-1]] if w else None


def section(s):
    k, p = s.kind, s.pay
    if k in ('NODE_AV_RULE', 'NODE_XAV_RULE'):
        if p['flavor'] in ('AV_RULE_NEVERALLOW', 'AV_RULE_AUDITALLOW') or {'associate', 'mounton'} & set(p['perms']):
            return NON
        return p['sources'][0]
    if k == 'NODE_TT_RULE':
        return p['sources'][0]
    if k in ('NODE_DECL', 'NODE_ALIAS', 'NODE_TYPE_ALIAS', 'NODE_TYPE_ATTRIBUTE', 'NODE_ROLE_ATTRIBUTE'):
        return NON if any(x.kind in ('NODE_REQUIRE', 'NODE_GEN_REQ') for x in chain(s.parent)) else DECLS
    if k in WRAP:
        return section(s.kids[0]) if s.kids else NON
    if k == 'NODE_START_BLOCK':
        return section(s.next) if s.next else NON
    if k == 'NODE_IF_CALL':
        if p['name'] in FILETRANS:
            return NON
        if outermost(s) is None and p['name'] in TEMPLATES | TRANSFORM | ROLEIF:
            return DECLS
        return p['args'][0] if p['args'] else NON
    if k in ('NODE_TE_FILE', 'NODE_IF_FILE', 'NODE_FC_FILE', 'NODE_SPT_FILE', 'NODE_AV_FILE', 'NODE_TEMP_DEF', 'NODE_INTERFACE_DEF', 'NODE_FC_ENTRY', 'NODE_CLEANUP'):
        return None
    return NON


def lss(s, variant):
    o = outermost(s)
    if o:
        return o
    rule = s.kind in ('NODE_AV_RULE', 'NODE_XAV_RULE')
    if rule and s.pay['targets'][0] == 'self':
        return 'LSS_SELF'
    mod = IFS.get(s.pay.get('name')) if s.kind == 'NODE_IF_CALL' else None
    if rule or s.kind == 'NODE_IF_CALL' and not mod:
        if not any(DECLMOD[n] != MOD for n in s.names() if KIND.get(n) in ('DECL_TYPE', 'DECL_ATTRIBUTE')):
            return 'LSS_OWN'
    if mod:
        if mod == MOD:
            return 'LSS_OWN'
        if variant != 'ORDER_REF' and mod.split('_')[0] == MOD.split('_')[0]:
            return 'LSS_RELATED'
        if mod == 'kernel':
            return 'LSS_KERNEL_MOD'
        if variant != 'ORDER_LIGHT' and LAYER.get(mod) == 'kernel':
            return 'LSS_KERNEL'
        if variant != 'ORDER_LIGHT' and LAYER.get(mod) == 'system':
            return 'LSS_SYSTEM'
    return 'LSS_OTHER' if s.kind == 'NODE_IF_CALL' else 'LSS_UNKNOWN'


def bare(n):
    return n[:-2] if len(n) >= 3 and n[-2:] in ('_t', '_r') else n


def order(a, b, variant, avg):
    """(sign, reason)"""
    sa, sb = section(a), section(b)
    if sa is None or sb is None:
        return (1, 'ORDERING_ERROR')
    if NON in (sa, sb):
        return (0, 'ORDER_EQUAL')
    if bare(sa) != bare(sb):
        back = sa != DECLS and (sb == DECLS or avg[sa] > avg[sb] and not (sa[0] != '_' and sb[0] != '_' and sa < sb))
        return (-1 if back else 1, 'ORDER_SECTION')
    if sa == DECLS:
        if a.kind == b.kind == 'NODE_DECL' and a.pay['flavor'] != b.pay['flavor']:
            for fl in ('DECL_BOOL', 'DECL_ATTRIBUTE'):
                if fl in (a.pay['flavor'], b.pay['flavor']):
                    return (1 if a.pay['flavor'] == fl else -1, 'ORDER_DECLARATION_SUBSECTION')
        return (0, 'ORDER_EQUAL')
    la, lb = lss(a, variant), lss(b, variant)
    if 'LSS_UNKNOWN' in (la, lb):
        return (0, 'ORDER_EQUAL')
    if la != lb:
        for x in ORDER[variant]:
            if x in (la, lb):
                return (1 if la == x else -1, 'ORDER_LOCAL_SUBSECTION')
    if variant == 'ORDER_LAX':
        return (0, 'ORDER_EQUAL')
    first = lambda s: s.prev is not None and s.prev.kind == 'NODE_START_BLOCK'
    if la not in ('LSS_BUILD_OPTION', 'LSS_BOOLEAN', 'LSS_TUNABLE') and (la != 'LSS_OPTIONAL' or lb == la and first(a) and first(b)) and a.kind == b.kind == 'NODE_IF_CALL':
        ma, mb = IFS.get(a.pay['name']), IFS.get(b.pay['name'])
        if ma and mb and ma != mb:
            return (1 if ma < mb else -1, 'ORDER_ALPHABETICAL')
    if la == lb == 'LSS_OPTIONAL' and a.kids and b.kids:
        return order(a.kids[0], b.kids[0], variant, avg)
    return (0, 'ORDER_EQUAL')


# ------------------------------------------------------------------ the heap
class Heap:
    def __init__(self, prog):
        self.prog, self.w, self.k = prog, World(), 0
        self.w.kinds = {n: prog.enum(k) for n, k in KIND.items()}
        self.w.mods = dict(DECLMOD)
        self.w.avg, self.w.payload = {}, {}

    def add(self, s, parent=None):
        st, p = self.w.st, self.prog
        o = s.o = ('al', 'scen', 'N%d' % self.k)
        d = ('al', 'scen', 'D%d' % self.k)
        self.k += 1
        s.parent = parent
        f = lambda m, v: st.mem.__setitem__(('fld', o, 'policy_node.' + m), v)
        f('flavor', ('i', p.enum(s.kind)))
        f('parent', parent.o if parent else NULL)
        f('exceptions', s.pay['exceptions'] if 'exceptions' in s.pay else NULL)
        f('lineno', ('i', s.pay.get('line', self.k)))
        for m in ('next', 'prev', 'first_child'):
            f(m, NULL)
        f('data', d if s.pay else NULL)
        S = {'NODE_AV_RULE': 'av_rule_data.', 'NODE_XAV_RULE': 'xav_rule_data.', 'NODE_TT_RULE': 'type_transition_data.', 'NODE_IF_CALL': 'if_call_data.', 'NODE_DECL': 'declaration_data.'}.get(s.kind)
        if S:
            for k, v in s.pay.items():
                if k in ('exceptions', 'line'):
                    continue
                if isinstance(v, tuple):
                    v = build_list(st, 'L%d.%s' % (self.k, k), v)
                elif k == 'flavor':
                    v = ('i', p.enum(v))
                else:
                    v = ('s', v)
                st.mem[('fld', d, S + k)] = v
                self.w.payload[d] = (s.kind, S[:-1])
                if s.kind == 'NODE_XAV_RULE':
                    st.mem[('fld', d, 'av_rule_data.' + k)] = v
        self.w.names[o] = tuple(s.names())
        if s.kids is not None:
            sb = Stmt('NODE_START_BLOCK')
            self.siblings([sb] + s.kids, s)
            f('first_child', sb.o)
        return o

    def siblings(self, ss, parent=None):
        for s in ss:
            self.add(s, parent)
        for a, b in zip(ss, ss[1:]):
            a.next, b.prev = b, a
            self.w.st.mem[('fld', a.o, 'policy_node.next')] = b.o
            self.w.st.mem[('fld', b.o, 'policy_node.prev')] = a.o

    def run(self, fn, args, **kw):
        it = OrderI(self.prog, self.w, **kw)
        try:
            return it, it.call_function(self.prog.fn(fn), tuple(args), self.w.st.copy())
        except Endless:
            return it, []


class OrderI(ShapeI):
    TABS = {'look_up_in_ifs_map': lambda n: IFS.get(n), 'look_up_in_mod_layers_map': lambda n: LAYER.get(n), 'look_up_in_template_map': lambda n: n if n in TEMPLATES else None,
            'is_filetrans_if': lambda n: n in FILETRANS, 'is_transform_if': lambda n: n in TRANSFORM, 'is_role_if': lambda n: n in ROLEIF}

    def __init__(self, prog, scen, avg=True, **kw):
        self.avg = avg
        super().__init__(prog, scen, more_opaque=tuple(self.TABS) + (('get_avg_line_by_name',) if avg else ()), depth=60, **kw)

    def default_call(self, st, ins, name, args):
        if name in self.prog.funcs and name in self.stack and self.inline(name):
            if len(self.stack) > 60:
                raise Endless()
            return self.call_function(self.prog.funcs[name], args, st)
        return super().default_call(st, ins, name, args)

    def on_call(self, st, ins, name, args):
        if name in self.TABS:
            t = text(args[0])
            if t is None:
                self.scen.odd.append('%s: %s of %s' % (ins.where(), name, pretty.pt(args[0])))
                return None
            r = self.TABS[name](t)
            return [(('i', int(r)) if isinstance(r, bool) else NULL if r is None else ('s', r), st)]
        if name == 'get_avg_line_by_name' and self.avg:
            return [(('i', self.scen.avg.get(text(args[0]), -1)), st)]
        if name in ('strchr', 'strrchr', 'strstr') and text(args[0]) is not None:
            n = text(args[1]) if name == 'strstr' else chr(args[1][1] & 255) if args[1][0] == 'i' and args[1][1] else None
            if n is not None:
                i = text(args[0]).rfind(n) if name == 'strrchr' else text(args[0]).find(n)
                b, k = place(args[0])
                return [(NULL if i < 0 else args[0] if i == 0 else ('idx', b, ('i', k + i)), st)]
        if name == 'strlen' and text(args[0]) is not None:
            return [(('i', len(text(args[0]))), st)]
        if name == 'strdup' and text(args[0]) is not None:
            return [(('s', text(args[0])), st)]
        if name in ('calloc', 'malloc'):
            k = sum(1 for e in st.cl if isinstance(e, tuple) and e[0] == 'fresh')
            st.cl = st.cl + (('fresh', k),)
            o = ('al', 'scen', 'F%d' % k)
            if name == 'calloc':
                st.mem[('zero', o)] = ('i', 1)
            return [(o, st)]
        if name == 'free':
            return [(NULL, st)]
        return super().on_call(st, ins, name, args)

    def on_load(self, st, ins, addr, val):
        k = addr[0] == 'fld' and self.scen.payload.get(addr[1])
        if k:
            r = addr[2].split('.')[0]
            if r != k[1] and not (r == 'av_rule_data' and k[1] == 'xav_rule_data') and not (r == 'xav_rule_data' and k[1] == 'av_rule_data' and addr[2] != 'xav_rule_data.operation'):
                self.scen.bad.append('%s: reads the data of a %s as %s' % (ins.where(), k[0][5:].lower(), r))
        super().on_load(st, ins, addr, val)

    def _simple(self, f, ins, env, st):
        if ins.op in ('uitofp', 'sitofp', 'fpext', 'fptrunc', 'fdiv', 'fmul', 'fadd', 'fsub', 'fcmp'):
            vs = [num(st.val(self.operand(env, a))) for a in ins.args]
            if None not in vs:
                if ins.op == 'fcmp':
                    a, b = vs
                    r = {'gt': a > b, 'lt': a < b, 'ge': a >= b, 'le': a <= b, 'eq': a == b, 'ne': a != b}[ins.x[1:]]
                    env[ins.res] = ('i', int(r))
                elif len(vs) == 1:
                    env[ins.res] = vs and unnum(vs[0])
                elif ins.op == 'fdiv' and vs[1] == 0:
                    self.scen.bad.append('%s: divides by zero' % ins.where())
                    env[ins.res] = ('i', 0)
                else:
                    a, b = vs
                    env[ins.res] = unnum({'fdiv': lambda: a / b, 'fmul': lambda: a * b, 'fadd': lambda: a + b, 'fsub': lambda: a - b}[ins.op]())
                return
        return super()._simple(f, ins, env, st)


def num(v):
    return Fraction(v[1]) if v[0] == 'i' else Fraction(v[1], v[2]) if v[0] == 'q' else None


def unnum(q):
    return ('i', int(q)) if q.denominator == 1 else ('q', q.numerator, q.denominator)


# ------------------------------------------------------------------ the statements tried
def statements():
    out = []
    for fl in ('AV_RULE_ALLOW', 'AV_RULE_DONTAUDIT', 'AV_RULE_AUDITALLOW', 'AV_RULE_NEVERALLOW'):
        for k in ('NODE_AV_RULE', 'NODE_XAV_RULE'):
            out.append(lambda fl=fl, k=k: av(('a_t',), ('a_exec_t',), flavor=fl, kind=k))
            out.append(lambda fl=fl, k=k: av(('b_t', 'a_t'), ('self',), flavor=fl, kind=k))
    for p in (('associate',), ('read', 'mounton'), ('mount', 'associated'), ('mounton', 'read')):
        out.append(lambda p=p: av(('a_t',), ('b_t',), perms=p))
    for src, tgt in ((('a_t',), ('self',)), (('a_t',), ('b_t',)), (('a_t', 'b_t'), ('a_t',)), (('own_attr',), ('a_t',)), (('own_attr',), ('other_attr',)), (('a_t',), ('b_bool', 'a_t')),
                     (('a_t',), ('a_t', 'self')), (('nowhere_t',), ('a_t',)), (('a_t',), ('self', 'b_t')), (('a_t',), ('b_r',)), (('a_r',), ('a_t', 'a_exec_t', 'b_t'))):
        out.append(lambda src=src, tgt=tgt: av(src, tgt))
        out.append(lambda src=src, tgt=tgt: av(src, tgt, kind='NODE_XAV_RULE'))
    for fl in ('TT_TT', 'TT_TM', 'TT_TC', 'TT_RT'):
        out.append(lambda fl=fl: tt(('a_t', 'own_attr'), ('b_t', 'a_t'), fl))
    for n in list(IFS) + ['alpha_template', 'both_flags', 'some_pattern']:
        out.append(lambda n=n: call(n, 'a_t', 'b_t'))
        out.append(lambda n=n: call(n, 'b_t'))
    out += [lambda: call('some_pattern'), lambda: call('apache_use'), lambda: call('zebra_use'), lambda: call('some_pattern', 'a_t', 'own_attr'), lambda: call('some_pattern', 'a_t', 'other_attr')]
    for fl, n in (('DECL_TYPE', 'a_t'), ('DECL_ATTRIBUTE', 'own_attr'), ('DECL_BOOL', 'a_bool'), ('DECL_ROLE', 'a_r'), ('DECL_ATTRIBUTE_ROLE', 'ar'), ('DECL_CLASS', 'c')):
        out.append(lambda fl=fl, n=n: decl(fl, n))
    for k in ('NODE_TE_FILE', 'NODE_IF_FILE', 'NODE_FC_FILE', 'NODE_HEADER', 'NODE_RT_RULE', 'NODE_ROLE_ALLOW', 'NODE_ROLE_TYPES', 'NODE_ALIAS', 'NODE_TYPE_ALIAS', 'NODE_TYPE_ATTRIBUTE', 'NODE_ROLE_ATTRIBUTE', 'NODE_M4_CALL',
              'NODE_M4_SIMPLE_MACRO', 'NODE_DEFINE', 'NODE_M4_ARG', 'NODE_TEMP_DEF', 'NODE_INTERFACE_DEF', 'NODE_PERMISSIVE', 'NODE_COMMENT', 'NODE_EMPTY', 'NODE_SEMICOLON', 'NODE_ERROR', 'NODE_FC_ENTRY'):
        out.append(lambda k=k: plain(k))
    return out


CONTEXTS = [(), ('NODE_REQUIRE',), ('NODE_GEN_REQ',)] + [(w,) for w in WRAP] + \
    [('NODE_IFDEF', 'NODE_M4_ARG'), ('NODE_OPTIONAL_POLICY', 'NODE_GEN_REQ'), ('NODE_IFDEF', 'NODE_OPTIONAL_POLICY'), ('NODE_OPTIONAL_POLICY', 'NODE_IFDEF'), ('NODE_OPTIONAL_POLICY', 'NODE_TUNABLE_POLICY'),
     ('NODE_TUNABLE_POLICY', 'NODE_OPTIONAL_ELSE'), ('NODE_BOOLEAN_POLICY', 'NODE_IFELSE'), ('NODE_IFELSE', 'NODE_BOOLEAN_POLICY', 'NODE_OPTIONAL_POLICY'), ('NODE_TUNABLE_POLICY', 'NODE_BOOLEAN_POLICY'), ('NODE_BOOLEAN_POLICY', 'NODE_TUNABLE_POLICY'),
     ('NODE_OPTIONAL_POLICY', 'NODE_OPTIONAL_POLICY', 'NODE_BOOLEAN_POLICY')]


MORE = [c for c in product(WRAP, WRAP) if c not in CONTEXTS]


def contexts(mk):
    k = mk().kind
    return CONTEXTS + (MORE if k == 'NODE_IF_CALL' else [])


def within(mk, ctx):
    """(the statement, what to put on the heap) with the statement first in nested blocks"""
    s = mk()
    top = s
    for k in reversed(ctx):
        top = block(k, top)
    return s, top


def one(prog, R, rule, fn, h, args, title):
    it, outs = h.run(fn, args)
    R.n('scenarios')
    R.functions |= it.visited_fn
    f = prog.fn(fn)
    if h.w.bad:
        R.v(rule, loc(f), '%s: %s' % (title, h.w.bad[0]), key='%s|bad' % fn)
        return None
    if h.w.odd or it.truncated or not outs or len({v for v, _ in outs}) != 1:
        R.u(rule, '%s: %s' % (title, h.w.odd[0] if h.w.odd else '%d outcomes' % len(outs)))
        return None
    return outs[0][0]


def show(prog, enumname, v):
    if v[0] != 'i':
        return pretty.pt(v)
    return next((n for n, x in prog.enumvals.items() if n.startswith(enumname) and x == v[1]), str(v[1]))


def _sections(i):
    prog, R = PROG[0], Part()
    fs, fl = prog.fn('get_section'), prog.fn('get_local_subsection')
    for mk in statements()[i:i + 1]:
        for ctx in contexts(mk):
            s, top = within(mk, ctx)
            h = Heap(prog)
            h.siblings([top])
            for x in [s] + ([top] if ctx in CONTEXTS[3:9] else []):
                if x.kind == 'NODE_FC_ENTRY' and x is not s:
                    continue
                want = section(x)
                v = one(prog, R, 'section', 'get_section', h, [x.o], '%s in %s' % (x.title, ctx))
                if v is not None:
                    got = text(v) if v != NULL else None
                    if v != NULL and got is None:
                        R.u('section', '%s in %s: %s' % (x.title, ctx, pretty.pt(v)))
                    elif got != want:
                        R.v('section', loc(fs), '"%s"%s belongs to the section %s, not %s' % (x.title, ' in ' + '/'.join(c[5:].lower() for c in ctx) if ctx and x is s else '', want, got), key='section|%s|%s' % (want, got))
    for mk in statements()[i:i + 1]:
        for ctx in contexts(mk):
            if ctx and mk().kind not in ('NODE_AV_RULE', 'NODE_IF_CALL', 'NODE_DECL'):
                continue
            s, top = within(mk, ctx)
            if s.kind in ('NODE_TE_FILE', 'NODE_IF_FILE', 'NODE_FC_FILE'):
                continue
            for variant in ORDER:
                h = Heap(prog)
                h.siblings([top])
                want = lss(s, variant)
                v = one(prog, R, 'subsection', 'get_local_subsection', h, [('s', MOD), s.o, ('i', prog.enum(variant))], '%s in %s' % (s.title, ctx))
                if v is not None and v != ('i', prog.enum(want)):
                    if v[0] != 'i':
                        R.u('subsection', '%s: %s' % (s.title, pretty.pt(v)))
                        continue
                    R.v('subsection', loc(fl), '"%s"%s is %s under %s, not %s' % (s.title, ' in ' + '/'.join(c[5:].lower() for c in ctx) if ctx else '', want, variant, show(prog, 'LSS_', v)), key='lss|%s|%s' % (want, show(prog, 'LSS_', v)))
    return R.done()


def check_sections(prog):
    R = Result()
    R.rule('section', 'the section of a statement is that of its first source (rules), its first argument (calls), the declarations (declarations outside of require blocks, calls of templates and of transforming and role interfaces outside of conditional blocks), that of its first statement (blocks), or none')
    R.rule('subsection', 'the place of a statement within its section: its outermost conditional block, a rule on self, names of the own module only, or the module and layer of the called interface, as the variant orders them')
    fs = prog.fn('get_section')
    PROG[:] = [prog]
    for part in spread(_sections, range(len(statements()))):
        merge(R, part)
    for e in (('empty block', w) for w in WRAP):
        h = Heap(prog)
        b = block(e[1])
        h.siblings([b])
        v = one(prog, R, 'section', 'get_section', h, [b.o], 'an empty %s' % e[1])
        if v is not None and text(v) != NON:
            R.v('section', loc(fs), 'an empty block belongs to the section %s' % pretty.pt(v), key='empty')
    R.atleast('scenarios', 500)
    return R


def check_order(prog):
    R = Result()
    R.rule('order', 'two statements are ordered by section (declarations first, then by the average line of the section, later alphabetical sections allowed), kind of declaration, subsection in the documented order of the variant, and name of the called module; the answer is turned around when they are')
    A = ('a_t',)
    base = [lambda: av(A, ('self',)), lambda: av(A, A), lambda: av(A, ('b_t',)), lambda: av(('b_t',), ('b_t',)), lambda: av(('own_attr',), ('self',)), lambda: av(('z_t',), A), lambda: av(('a',), ('self',)), lambda: av(('a_r',), A),
            lambda: av(('m_t',), A), lambda: av(('_odd',), A), lambda: tt(A, ('b_t',)), lambda: av(A, A, flavor='AV_RULE_NEVERALLOW'),
            lambda: decl('DECL_TYPE', 'a_t'), lambda: decl('DECL_ATTRIBUTE', 'own_attr'), lambda: decl('DECL_BOOL', 'a_bool'), lambda: decl('DECL_ROLE', 'a_r'), lambda: plain('NODE_TYPE_ATTRIBUTE'), lambda: plain('NODE_INTERFACE_DEF'), lambda: plain('NODE_COMMENT')] + \
        [lambda n=n: call(n, 'a_t') for n in ('alpha_do', 'alpha_extra_do', 'alphabet_do', 'kernel_read', 'dev_read', 'init_use', 'apache_use', 'zebra_use', 'nolay_use', 'some_pattern')] + \
        [lambda: call('fs_get', 'a_t'), lambda: call('zebra_use', 'b_t')]
    wrapped = [lambda k=k, n=n: block(k, call(n, 'a_t')) for k in WRAP for n in ('zebra_use', 'kernel_read')] + \
        [lambda: block('NODE_OPTIONAL_POLICY', call('some_pattern', 'a_t')), lambda: block('NODE_OPTIONAL_POLICY', block('NODE_OPTIONAL_POLICY', call('dev_read', 'a_t'))), lambda: block('NODE_OPTIONAL_POLICY'),
         lambda: block('NODE_OPTIONAL_POLICY', av(A, A)), lambda: block('NODE_OPTIONAL_POLICY', call('init_use', 'b_t'))]
    inner = lambda mk: (lambda s: (s.kids[-1], s))(mk())
    cases = [lambda mk=mk: (lambda s: (s, s))(mk()) for mk in base + wrapped] + \
        [lambda k=k, n=n: inner(lambda: block(k, call(n, 'a_t'))) for k in WRAP for n in ('zebra_use', 'apache_use')] + \
        [lambda: inner(lambda: block('NODE_OPTIONAL_POLICY', call('zebra_use', 'a_t'), call('dev_read', 'a_t'))), lambda: inner(lambda: block('NODE_OPTIONAL_POLICY', call('dev_read', 'a_t'), av(A, A)))]
    CASES[:] = cases
    PROG[:] = [prog]
    for part in spread(_row, [(variant, i) for variant in ORDER for i in range(len(cases))]):
        merge(R, part)
    R.atleast('pairs', 1000)
    return R


CASES, PROG = [], []
AVG = {'a_t': 10, 'b_t': 20, 'own_attr': 5, 'z_t': 15, 'a': 12, 'a_r': 11, DECLS: 40, NON: 1, 'm_t': 10, '_odd': 30}


def spread(fn, work):
    """results of fn over work, on the cores there are (the workers inherit what is loaded)"""
    try:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(8, os.cpu_count() or 1)) as pool:
            return pool.map(fn, work, chunksize=4)
    except OSError:
        return [fn(w) for w in work]


def merge(R, part):
    counts, fns, viol, und = part
    for k, n in counts.items():
        R.n(k, n)
    R.functions |= fns
    for v in viol:
        R.v(*v[:3], key=v[3])
    for u in und:
        R.u(*u)


class Part:
    def __init__(self):
        self.counts, self.functions, self.viol, self.und = {}, set(), [], []

    def n(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def v(self, rule, where, msg, key=None):
        self.viol.append((rule, where, msg, key))

    def u(self, rule, msg):
        self.und.append((rule, msg))

    def done(self):
        return self.counts, self.functions, self.viol, self.und


def _row(job):
    variant, i = job
    prog, R, ca = PROG[0], Part(), CASES[i]
    fn = 'compare_nodes_refpolicy' + SUFFIX[variant]
    f = prog.fn(fn)
    for cb in CASES:
        h = Heap(prog)
        h.w.avg = AVG
        h.w.st.mem[('fld', META, 'ordering_metadata.mod_name')] = ('s', MOD)
        (a, ta), (b, tb) = ca(), cb()
        h.siblings([plain('NODE_HEADER'), ta, tb])
        sign, why = order(a, b, variant, AVG)
        v = one(prog, R, 'order', fn, h, [META, a.o, b.o], '%s / %s' % (a.title, b.title))
        if v is None:
            continue
        R.n('pairs')
        n = signed(prog.enum(why)) * (sign if why != 'ORDERING_ERROR' else 1)
        if v[0] != 'i':
            R.u('order', '%s / %s: %s' % (a.title, b.title, pretty.pt(v)))
        elif signed(v[1]) != n:
            R.v('order', loc(f), 'under %s "%s" against "%s" gives %d instead of %d (%s)' % (variant, a.title, b.title, signed(v[1]), n, why), key='%s|%s|%d' % (variant, why, signed(v[1])))
    return R.done()


def signed(n):
    return n - (1 << 32) if n >= 1 << 31 else n


# ------------------------------------------------------------------ the walk over a file, and what is reported
class FileI(OrderI):
    """whole file: the comparison of two statements is that of their ranks (a rank of None ties with all)"""
    LINES = ('compare_nodes_refpolicy', 'compare_nodes_refpolicy_light', 'compare_nodes_refpolicy_lax', 'compare_nodes_refpolicy_generic')

    def __init__(self, prog, scen, **kw):
        super().__init__(prog, scen, avg=False, **kw)
        if scen.rank is not None:
            self.opq = self.opq | set(self.LINES) | {'get_local_subsection', 'get_section'}

    def on_call(self, st, ins, name, args):
        if self.scen.rank is not None and name in self.LINES:
            r = [self.scen.rank.get(a, 'odd') for a in args[1:3]]
            if 'odd' in r:
                self.scen.odd.append('%s: compares %s' % (ins.where(), pretty.pt(args[1])))
                return None
            want = args[3] if len(args) > 3 else ('i', self.prog.enum({'compare_nodes_refpolicy': 'ORDER_REF', 'compare_nodes_refpolicy_light': 'ORDER_LIGHT', 'compare_nodes_refpolicy_lax': 'ORDER_LAX'}[name]))
            if want != ('i', self.prog.enum(self.scen.variant)):
                self.scen.bad.append('%s: the order of another variant is used' % ins.where())
            d = 0 if None in r else (r[1] > r[0]) - (r[1] < r[0])
            return [(('i', d * self.prog.enum('ORDER_SECTION') & 0xffffffff if False else d * self.prog.enum('ORDER_SECTION')), st)]
        if self.scen.rank is not None and name == 'get_section':
            return [(('s', DECLS if self.scen.rank.get(args[0]) == 0 else 'sec%s_t' % self.scen.rank.get(args[0])), st)]
        if self.scen.rank is not None and name == 'get_local_subsection':
            return [(('i', self.prog.enum('LSS_UNKNOWN')), st)]
        if name in ('snprintf', 'sprintf'):
            self.scen.said.append(args)
            return [(('i', 60), st)]
        if name == 'asprintf':
            st.mem[args[0]] = ('s', 'followup')
            return [(('i', 9), st)]
        if name in ('strncat', 'strcat'):
            return [(args[0], st)]
        return super().on_call(st, ins, name, args)

    def default_call(self, st, ins, name, args):
        if name == 'make_check_result':
            return [(('al', 'scen', 'res'), st)]
        return super().default_call(st, ins, name, args)

    def guard(self, ins, addr):
        while addr[0] in ('fld', 'idx'):
            if addr[0] == 'idx' and addr[1][0] == 'fld' and addr[1][2] == 'ordering_metadata.nodes' and addr[2][0] == 'i' and not 0 <= addr[2][1] < self.scen.count:
                self.scen.bad.append('%s: entry %d of %d statements is used' % (ins.where(), addr[2][1], self.scen.count))
                raise Endless()
            addr = addr[1]

    def on_load(self, st, ins, addr, val):
        self.guard(ins, addr)
        super().on_load(st, ins, addr, val)

    def on_store(self, st, ins, addr, val):
        self.guard(ins, addr)

    def run(self, fn, args, st):
        try:
            return self.call_function(self.prog.fn(fn), tuple(args), st)
        except Endless:
            return []


def file_heap(prog, stmts):
    h = Heap(prog)
    h.siblings([plain('NODE_TE_FILE')] + stmts)
    h.w.rank, h.w.said, h.w.variant = None, [], 'ORDER_REF'
    return h


def walk_all(stmts):
    """all statements, a block before what it holds"""
    for s in stmts:
        yield s
        yield from walk_all(s.kids or ())


SHAPES = (((),), (0, ()), ((0,),), (0, (0,)), ((0,), 0), ((0, 0),), (((0,),),), ((0,), (0,)), (0, (0,), 0), ((0, 0), 0), (0, ((0,), 0)), ((0, 0), (0,)), (((0,), 0), 0))


def build(shape):
    """the statements of a nested shape: 0 is a rule, a tuple a block"""
    return [av(('a_t',), ('self',)) if x == 0 else block('NODE_OPTIONAL_POLICY', *build(x)) for x in shape]


def weak_orders(n):
    """all rank sequences of n statements, up to renaming"""
    for r in product(range(n), repeat=n):
        if set(r) == set(range(max(r) + 1)):
            yield r


def longest(r):
    best = [1] * len(r)
    for i in range(len(r)):
        for j in range(i):
            if r[j] <= r[i]:
                best[i] = max(best[i], best[j] + 1)
    return max(best)


def _file(job):
    ranks, variant, exempt, shape = job
    prog, R = PROG[0], Part()
    f = prog.fn('check_te_order')
    head = plain('NODE_HEADER')
    top = build(shape or (0,) * len(ranks))
    stmts = list(walk_all(top))
    EX = ('s', 'C-001')
    for i in exempt:
        stmts[i].pay['exceptions'] = EX
    h = file_heap(prog, [head] + top)
    w, st = h.w, h.w.st
    w.variant = variant
    w.count = 1 + len(ranks) - len(exempt) + sum(1 for s in stmts if s.kids is not None)   # the start of a block has an entry, too
    w.lines = {st.mem[('fld', s.o, 'policy_node.lineno')]: j for j, s in enumerate(stmts)}
    w.rank = {s.o: r for s, r in zip(stmts, ranks)}
    w.rank[head.o] = None
    DATA, CFG = ('al', 'scen', 'DATA'), ('al', 'scen', 'CFG')
    st.mem[('fld', DATA, 'check_data.config_check_data')] = CFG
    st.mem[('fld', DATA, 'check_data.flavor')] = ('i', prog.enum('FILE_TE_FILE'))
    st.mem[('fld', DATA, 'check_data.mod_name')] = ('s', MOD)
    st.mem[('fld', CFG, 'config_check_data.order_conf')] = ('i', prog.enum(variant))
    shown = 'statements of ranks %s' % (list(ranks),) + (' (%s exempt)' % list(exempt) if exempt else '') + (' nested as %s' % (shape,) if shape else '')
    R.n('files')
    file_o = ('al', 'scen', 'N0')
    reported, live = [], [i for i in range(len(ranks)) if i not in exempt]
    for step in ['file'] + live + ['end']:
        o = file_o if step == 'file' else stmts[step].o if step != 'end' else ('al', 'scen', 'END')
        if step == 'end':
            st.mem[('fld', o, 'policy_node.flavor')] = ('i', prog.enum('NODE_CLEANUP'))
        it = FileI(prog, w)
        w.said = []
        outs = it.run('check_te_order', [DATA, o], st)
        R.functions |= it.visited_fn
        if w.bad:
            R.v('reported', loc(f), '%s: %s' % (shown, w.bad[0]), key='bad')
            return R.done()
        if w.odd or it.truncated or len(outs) != 1:
            R.u('reported', '%s at %s: %s' % (shown, step, w.odd[:1] or '%d outcomes' % len(outs)))
            return R.done()
        v, st = outs[0]
        errs = [e for e in st.cl if getattr(e, 'name', None) == 'alloc_internal_error']
        if errs:
            R.v('reported', errs[-1].where, '%s: ends in an internal error (%s)' % (shown, ' '.join(str(a[1]) for a in errs[-1].args if a[0] == 's')), key='internal')
            return R.done()
        if step in ('file', 'end'):
            if v != NULL:
                R.v('reported', loc(f), '%s: the %s of the file is reported' % (shown, step), key='ends')
            continue
        if v != NULL:
            reported.append(step)
            if ranks[step] is None:
                R.v('reported', loc(f), '%s: a statement without a place is reported' % shown, key='none')
                continue
            named(prog, R, f, w, stmts, ranks, step, live, variant, shown)
    rest = [ranks[i] for i in live if i not in reported]
    if None in [ranks[i] for i in live[1:-1]]:
        return R.done()          # the order is none where a statement ties with all and others on both sides of it do not
    rest, live = [r for r in rest if r is not None], [i for i in live if ranks[i] is not None]
    if any(a > b for a, b in zip(rest, rest[1:])):
        R.v('reported', loc(f), '%s: the lines not reported (%s) are not in order' % (shown, rest), key='order')
    elif live and len(rest) != longest([ranks[i] for i in live]):
        R.v('reported', loc(f), '%s: %d lines are reported where %d would do' % (shown, len(reported), len(live) - longest([ranks[i] for i in live])), key='many')
    NAMED.clear()
    return R.done()


NAMED = []


def named(prog, R, f, w, stmts, ranks, i, live, variant, shown):
    """the line the report refers to"""
    R.n('reports')
    if len(w.said) != 1:
        R.u('named', '%s: %d texts are made' % (shown, len(w.said)))
        return
    lines = w.lines
    words = [text(a) for a in w.said[0]]
    other = [lines[a] for a in w.said[0][2:] if a in lines and a[0] == 'i']
    side = [x for x in words if x in ('before', 'after')]
    if len(other) != 1 or len(side) != 1:
        R.u('named', '%s: the text names %s %s' % (shown, other, side))
        return
    j = other[0]
    ok = ranks[j] is not None and (j > i and side[0] == 'before' and ranks[i] > ranks[j] or j < i and side[0] == 'after' and ranks[j] > ranks[i])
    if not ok or j not in live:
        R.v('named', loc(prog.fn('get_ordering_reason')), '%s: statement %d is reported as out of order %s statement %d' % (shown, i, side[0], j), key='named')


# ------------------------------------------------------------------ the average line of a section
class AvgI(FileI):
    def on_call(self, st, ins, name, args):
        if name == 'free':
            return [(NULL, st)]
        return super().on_call(st, ins, name, args)


def _average(job):
    kinds, exempt = job
    prog, R = PROG[0], Part()
    MK = {'decl': lambda: decl('DECL_TYPE', 'a_t'), 'a': lambda: av(('a_t',), ('b_t',)), 'b': lambda: av(('b_t',), ('b_t',)), 'call': lambda: call('zebra_use', 'a_t'), 'non': lambda: plain('NODE_COMMENT')}
    LINES = (3, 4, 9, 26, 27)
    head = plain('NODE_HEADER')
    stmts = [MK[k]() for k in kinds]
    h = Heap(prog)
    h.w.rank, h.w.said, h.w.variant, h.w.count = None, [], 'ORDER_REF', 1 + len(kinds) - len(exempt)
    h.siblings([plain('NODE_TE_FILE'), head] + stmts)
    w, st = h.w, h.w.st
    for s, n in zip([head] + stmts, (1,) + LINES):
        st.mem[('fld', s.o, 'policy_node.lineno')] = ('i', n)
    for i in exempt:
        st.mem[('fld', stmts[i].o, 'policy_node.exceptions')] = ('s', 'C-001')
    DATA = ('al', 'scen', 'DATA')
    st.mem[('fld', DATA, 'check_data.mod_name')] = ('s', MOD)
    per = {NON: [1]}
    for i, (s, n) in enumerate(zip(stmts, LINES)):
        if i not in exempt:
            per.setdefault(section(s), []).append(n)
    shown = 'statements %s on lines %s' % (list(kinds), list(LINES[:len(kinds)])) + (', %s exempt' % list(exempt) if exempt else '')
    f = prog.fn('prepare_ordering_metadata')
    R.n('files with averages')
    it = AvgI(prog, w)
    outs = it.run('prepare_ordering_metadata', [DATA, ('al', 'scen', 'N0')], st)
    if w.bad:
        R.v('average', loc(f), '%s: %s' % (shown, w.bad[0]), key='bad')
        return R.done()
    if w.odd or it.truncated or len(outs) != 1 or outs[0][0][0] != 'al':
        R.u('average', '%s: %s' % (shown, w.odd[:1] or '%d outcomes' % len(outs)))
        return R.done()
    meta, st = outs[0]
    sec = st.val(st.mem.get(('fld', meta, 'ordering_metadata.sections'), NULL))
    R.functions |= it.visited_fn
    for name in sorted(per):
        want = Fraction(sum(per[name]), len(per[name]))
        it = AvgI(prog, w)
        outs = it.run('get_avg_line_by_name', [('s', name), sec], st.copy())
        R.functions |= it.visited_fn
        got = num(outs[0][0]) if len(outs) == 1 else None
        if w.odd or got is None:
            R.u('average', '%s: %s' % (shown, w.odd[:1] or '%d outcomes' % len(outs)))
        elif got != want:
            R.v('average', loc(prog.fn('get_avg_line_by_name')), '%s: the section %s is placed at line %s, not %s' % (shown, name, float(got), float(want)), key='average')
        R.n('averages')
    return R.done()


def check_averages(prog):
    R = Result()
    R.rule('average', 'a section is placed at the mean line of its statements that are not exempt')
    PROG[:] = [prog]
    jobs = []
    for n in range(0, 5):
        for k, kinds in enumerate(product(('decl', 'a', 'b', 'call', 'non'), repeat=n)):
            if n < 4 or k % 7 == 0:
                jobs.append((kinds, ()))
                if n > 1:
                    jobs.append((kinds, (k % n,)))
    for part in spread(_average, jobs):
        merge(R, part)
    R.atleast('averages', 300)
    return R


def check_files(prog, thorough=False):
    R = Result()
    R.rule('reported', 'the statements of a file not reported by C-001 are in order, and as many as possible; suppressed statements take no part, one without a place is never reported; the check ends without an internal error')
    R.rule('named', 'the line a report refers to lies on the named side and is in the wrong order with the reported one')
    PROG[:] = [prog]
    jobs = []
    top = 6 if thorough else 5
    for n in range(1, top + 1):
        for k, r in enumerate(weak_orders(n)):
            jobs.append((r, list(ORDER)[k % 3], (), None))
            if n in (3, 4) and k % 5 == 0:
                jobs.append((r, list(ORDER)[k % 3], (k % n,), None))
                jobs.append((r, list(ORDER)[k % 3], tuple(sorted({k % n, (k + 1) % n})), None))
    for n in range(2, top + 1):                                     # a statement that ties with all others
        for k, r in enumerate(weak_orders(n - 1)):
            for j in range(n):
                if n < 5 or (k + j) % 4 == 0:
                    jobs.append((r[:j] + (None,) + r[j:], list(ORDER)[k % 3], (), None))
    for shape in SHAPES:
        ss = list(walk_all(build(shape)))
        for k, r in enumerate(weak_orders(len(ss))):
            if thorough or len(ss) < 4 or k % 3 == 0:
                jobs.append((r, list(ORDER)[k % 3], (), shape))
                jobs.append((r, list(ORDER)[k % 3], (k % len(ss),), shape))
    for part in spread(_file, jobs):
        merge(R, part)
    R.atleast('files', 100)
    return R
