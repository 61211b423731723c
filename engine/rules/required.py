"""W-002 / W-003: the names required (used) in an interface are collected from every require block (statement) of it.
Shape analysis: the check is interpreted over small interface trees of every relevant shape; names and lists are followed object by object."""
from itertools import product
from ..absint import State, NULL
from ..core import Result, loc
from ..paths import PathI, Ev, events, fnz
from ..tables import strip
from .. import pretty

PN, SL = 'policy_node.', 'string_list.'


class Endless(Exception):
    pass


class ShapeI(PathI):
    """everything the function looks at is an object of the scenario; loops are followed"""
    deadline_steps = 400000

    def __init__(self, prog, scen, real=(), more_opaque=(), **kw):
        self.scen, self.real = scen, real
        op = ('get_names_in_node', 'get_names_required', 'look_up_in_decl_map', 'make_check_result', 'alloc_internal_error', 'free_string_list')
        super().__init__(prog, opaque=tuple(o for o in op if o not in real) + tuple(more_opaque),
                         quiet=(), stores=False, **kw)
        self.loop_limit = 10 ** 6

    def unrolled(self, cfg, ph, ind, val):
        while val[0] == 'idx' and val[2][0] == 'i':
            val = val[1]
        return val[0] in ('al', 'i', 's', 'dup')

    def on_enter(self, st, f, header):
        pass

    def on_backedge(self, st, f, header, killed):
        n = sum(1 for e in st.cl if isinstance(e, tuple) and e[0] == 'turn')
        if n > 400:
            raise Endless()
        st.cl = st.cl + (('turn', header),)

    def on_call(self, st, ins, name, args):
        s = self.scen
        if name in self.real:
            return super().on_call(st, ins, name, args)
        if name in ('get_names_in_node', 'get_names_required'):
            n = args[0]
            tab = s.names if name == 'get_names_in_node' else s.req
            if n not in tab:
                s.odd.append('%s: %s of %s' % (ins.where(), name, pretty.pt(n)))
                return None
            s.asked.add(n)
            k = sum(1 for e in st.cl if isinstance(e, tuple) and e[0] == 'list')
            head = build_list(st, 'L%d' % k, tab[n])
            st.cl = st.cl + (('list', k, tab[n]),)
            return [(head, st)]
        if name == 'look_up_in_decl_map':
            if args[0][0] != 's' or args[1][0] != 'i':
                s.odd.append('%s: look-up of %s' % (ins.where(), pretty.pt(args[0])))
                return None
            k = s.kinds.get(args[0][1])
            return [(('s', s.mods.get(args[0][1], 'alpha')) if k == args[1][1] else NULL, st)]
        if name in ('make_check_result', 'alloc_internal_error'):
            st.cl = st.cl + (Ev('call', name, args, None, ins.where()),)
            return [(('al', 'scen', 'res'), st)]
        if name == 'free_string_list':
            st.cl = st.cl + (Ev('call', name, args, None, ins.where()),)
            a, n = args[0], 0
            while a[0] == 'al' and n < 60:
                if ('gone', a) in st.cl:
                    s.bad.append('%s: a list element is released twice' % ins.where())
                st.cl = st.cl + (('gone', a),)
                a, n = st.mem.get(('fld', a, SL + 'next'), NULL), n + 1
            return [(('i', 0), st)]
        if name in ('strncmp', 'strcmp', 'memcmp', 'strncasecmp'):
            a, b = text(args[0]), text(args[1])
            n = args[2][1] if len(args) > 2 and args[2][0] == 'i' else None
            if a is not None and b is not None and (len(args) < 3 or n is not None):
                if name == 'strncasecmp':
                    a, b = a.lower(), b.lower()
                a, b = a[:n], b[:n]
                return [(('i', (a > b) - (a < b)), st)]
        return super().on_call(st, ins, name, args)

    def decide(self, st, pred, a, b):
        if pred in ('eq', 'ult', 'slt'):
            (ra, i), (rb, j) = place(a), place(b)
            if ra[0] == 's' and ra == rb:
                return i == j if pred == 'eq' else i < j
            if ra[0] == 's' and rb == NULL and pred == 'eq':
                return False
        return super().decide(st, pred, a, b)

    def init_load(self, st, addr):
        if addr[0] in ('s', 'idx'):
            t = text(addr)
            if t is not None:
                return ('i', ord(t[0]) if t else 0)
            b, k = addr, 0
            while b[0] == 'idx' and b[2][0] == 'i':
                b, k = b[1], k + b[2][1]
            if b[0] == 's' and not 0 <= k <= len(b[1]):
                self.scen.bad.append('reads character %d of "%s"' % (k, b[1]))
                return NULL
        return super().init_load(st, addr)

    def on_load(self, st, ins, addr, val):
        a = addr
        while a[0] in ('fld', 'idx'):
            a = a[1]
        if a == NULL:
            self.scen.bad.append('%s: reads through NULL' % ins.where())
        elif ('gone', a) in st.cl:
            self.scen.bad.append('%s: reads a released list' % ins.where())


def place(t):
    k = 0
    while t[0] == 'idx' and t[2][0] == 'i':
        t, k = t[1], k + t[2][1]
    return t, k


def text(t):
    t = strip(t)
    if t[0] == 's':
        return t[1]
    if t[0] == 'idx' and t[2][0] == 'i' and text(t[1]) is not None and 0 <= t[2][1] <= len(text(t[1])):
        return text(t[1])[t[2][1]:]
    return None


def build_list(st, tag, names):
    head = NULL
    for i in reversed(range(len(names))):
        o = ('al', 'scen', '%s.%d' % (tag, i))
        st.mem[('fld', o, SL + 'string')] = ('s', names[i])
        st.mem[('fld', o, SL + 'next')] = head
        st.mem[('fld', o, SL + 'has_incorrect_space')] = ('i', 0)
        head = o
    return head


class Scen:
    """tree: (kind, payload, children)"""

    def __init__(self, prog, tree, ftype='FILE_IF_FILE'):
        self.prog, self.st = prog, State()
        self.names, self.req, self.kinds, self.mark, self.mods = {}, {}, {}, {}, {}
        self.under = {}
        self.odd, self.bad, self.asked, self.endless = [], [], set(), False
        self.n = 0
        self.root = self.add(tree, NULL)
        self.link(self.root, NULL, NULL)
        D = ('al', 'scen', 'data')
        self.data = D
        self.st.mem[('fld', D, 'check_data.flavor')] = ('i', prog.enum(ftype))
        self.st.mem[('fld', D, 'check_data.mod_name')] = ('s', 'alpha')
        self.st.mem[('fld', D, 'check_data.filename')] = ('s', 'alpha.if')

    def add(self, t, parent):
        kind, pay, kids = t
        o = ('al', 'scen', 'n%d' % self.n)
        self.n += 1
        m = self.st.mem
        m[('fld', o, PN + 'flavor')] = ('i', self.prog.enum(kind))
        m[('fld', o, PN + 'parent')] = parent
        m[('fld', o, PN + 'lineno')] = ('i', self.n)
        m[('fld', o, PN + 'exceptions')] = NULL
        pay = dict(pay)
        self.names[o] = tuple(pay.get('names', ()))
        self.req[o] = ()
        if 'mark' in pay:
            self.mark[pay['mark']] = o
        d = NULL
        if 'name' in pay:
            d = ('s', pay['name'])
        if 'decl' in pay:
            d = ('al', 'scen', 'd%d' % self.n)
            m[('fld', d, 'declaration_data.flavor')] = ('i', self.prog.enum(pay['decl']))
            m[('fld', d, 'declaration_data.name')] = ('s', pay['names'][0])
            m[('fld', d, 'declaration_data.attrs')] = build_list(self.st, 'A%d' % self.n, pay['names'][1:])
        m[('fld', o, PN + 'data')] = d
        cs = [self.add(c, o) for c in kids]
        self.under[o] = tuple(x for c in cs for x in self.names[c] + self.under[c])
        if kind in ('NODE_GEN_REQ', 'NODE_REQUIRE'):
            self.req[o] = self.under[o]
        m[('fld', o, PN + 'first_child')] = cs[0] if cs else NULL
        for i, c in enumerate(cs):
            self.link(c, cs[i - 1] if i else NULL, cs[i + 1] if i + 1 < len(cs) else NULL)
        return o

    def link(self, o, prev, nxt):
        self.st.mem[('fld', o, PN + 'prev')] = prev
        self.st.mem[('fld', o, PN + 'next')] = nxt


def START():
    return ('NODE_START_BLOCK', {}, ())


def DECL(name, kind='DECL_TYPE', **kw):
    return ('NODE_DECL', dict(names=(name,), decl=kind, **kw), ())


def REQ(names, kind='NODE_GEN_REQ', **kw):
    return (kind, kw, (START(),) + tuple(DECL(n) if isinstance(n, str) else n for n in names))


def DECLS(names, kind='DECL_TYPE', **kw):
    return ('NODE_DECL', dict(names=tuple(names), decl=kind, **kw), ())


def ST(*names, **kw):
    return ('NODE_AV_RULE', dict(names=names, **kw), ())


def BL(*kids, kind='NODE_OPTIONAL_POLICY'):
    return (kind, {}, (START(),) + kids)


def IF(*kids, kind='NODE_INTERFACE_DEF', name='alpha_read'):
    return (kind, dict(name=name), (START(),) + kids)


def FILE(*kids):
    return ('NODE_IF_FILE', {}, kids)


def w2_scenarios():
    """(what, tree, reported name or None); the statement under test is marked N"""
    u = 'unreq_t'

    def both(what, mk, req):
        yield what, mk(ST(*(req + (u,)), mark='N')), u
        if req:
            yield what + ', nothing else used', mk(ST(*req, mark='N')), None
        yield what + ', the unrequired name first', mk(ST(*((u,) + req), mark='N')), u
    for k in range(4):
        for sizes in product(range(4), repeat=k):
            if k == 3 and 0 in sizes and sizes.count(0) > 1:
                continue
            bl, req, c = [], (), 0
            for j, n in enumerate(sizes):
                ns = tuple('r%d_t' % (c + x) for x in range(n))
                c += n
                req += ns
                bl.append((ns, 'NODE_REQUIRE' if j % 2 else 'NODE_GEN_REQ'))
            yield from both('require blocks of %s names' % list(sizes), lambda N, bl=bl: FILE(IF(*([REQ(ns, kd) for ns, kd in bl] + [N]))), req)
    a, b, c3 = 'a_t', 'b_t', 'c_t'
    yield from both('a require block inside an ifdef before the statement', lambda N: FILE(IF(BL(REQ((a, b)), kind='NODE_IFDEF'), N)), (a, b))
    yield from both('statements between require blocks', lambda N: FILE(IF(REQ((a,)), ST('x'), REQ((b, c3)), ST('y'), N)), (a, b, c3))
    yield from both('a statement inside an optional block', lambda N: FILE(IF(REQ((a,)), BL(REQ((b,)), N))), (a, b))
    yield from both('a statement two blocks deep', lambda N: FILE(IF(REQ((a,)), BL(ST('x'), BL(REQ((b, c3)), ST('y'), N, kind='NODE_IFDEF')))), (a, b, c3))
    yield from both('an earlier interface', lambda N: FILE(IF(REQ((a,)), ST('x')), IF(REQ((b,)), N)), (b,))
    ifd = lambda *k: BL(*k, kind='NODE_IFDEF')
    yield from both('a requirement in an ifdef of the require block', lambda N: FILE(IF(REQ((ifd(DECL(a)), DECL(b))), N)), (a, b))
    yield from both('a requirement in an ifdef at the end of the require block', lambda N: FILE(IF(REQ((a, ifd(DECL(b)))), N)), (a, b))
    yield from both('a requirement two ifdefs deep in the require block', lambda N: FILE(IF(REQ((ifd(DECL(a), ifd(DECL(b))), DECL(c3))), REQ(('d_t',)), N)), (a, b, c3, 'd_t'))
    yield from both('a template', lambda N: FILE(IF(REQ((a, b)), N, kind='NODE_TEMP_DEF')), (a, b))
    yield 'a name required only after the statement', FILE(IF(ST(a, mark='N'), REQ((a,)))), a
    yield 'a name required only in another interface', FILE(IF(REQ((a,)), ST('x')), IF(ST(a, mark='N'))), a
    yield 'system_r', FILE(IF(ST('system_r', mark='N'))), None
    yield 'system_r before another name', FILE(IF(ST('system_r', u, mark='N'))), u
    yield 'an unknown name before another name', FILE(IF(ST('$1', u, mark='N'))), u
    yield 'no names', FILE(IF(REQ((a,)), ST(mark='N'))), None
    yield 'outside of interfaces', FILE(REQ((a,)), ST(u, mark='N')), None
    yield 'a declaration of a new name', FILE(IF(DECL(u, mark='N'))), None


def judge(prog, R, rule, f, what, tree, want, kinds, flavor_word=None, ftype='FILE_IF_FILE', mods={}, at=-1):
    sc = Scen(prog, tree, ftype)
    sc.kinds, sc.mods = kinds, mods
    N = sc.mark['N']
    it = ShapeI(prog, sc)
    R.n('interfaces interpreted')
    try:
        rets = it.call_function(f, (sc.data, N), sc.st)
    except Endless:
        rets = None
    R.functions |= it.visited_fn
    if rets is None:
        R.v(rule, loc(f), '%s: a loop does not come to an end' % what)
        return
    if sc.odd:
        R.u(rule, '%s: %s' % (what, sc.odd[0]))
        return
    if len(rets) != 1 or it.truncated:
        R.u(rule, '%s: %d outcomes' % (what, len(rets)))
        return
    for b in sc.bad[:1]:
        R.v(rule, loc(f), '%s: %s' % (what, b))
    v, st = rets[0]
    evs = [e for e in events(st) if e.name == 'make_check_result']
    if any(e.name == 'alloc_internal_error' for e in events(st)):
        R.v(rule, loc(f), '%s: an internal error is reported' % what)
        return
    got = None
    if v != NULL:
        if len(evs) != 1:
            R.u(rule, '%s: %d results made' % (what, len(evs)))
            return
        texts = [strip(a) for a in evs[0].args[3:]]
        got = texts[at][1] if texts and texts[at][0] == 's' else pretty.pt(texts[at]) if texts else '?'
        if want and flavor_word and texts and texts[0] != ('s', flavor_word):
            R.v(rule, evs[0].where, '%s: the finding calls %s a %s' % (what, want, pretty.pt(texts[0])))
    elif evs:
        R.v(rule, evs[0].where, '%s: a finding is made and lost' % what)
    if got != want:
        R.v(rule, evs[0].where if evs else loc(f), '%s: %s, but %s' % (
            what, 'reported is "%s"' % got if got else 'nothing is reported', '"%s" is to be reported' % want if want else 'nothing is to be reported'))
    # every list taken is released once
    gone = {e[1] for e in st.cl if isinstance(e, tuple) and e[0] == 'gone'}
    for e in st.cl:
        if isinstance(e, tuple) and e[0] == 'list':
            left = [i for i in range(len(e[2])) if ('al', 'scen', 'L%d.%d' % (e[1], i)) not in gone]
            if left:
                R.v('released', loc(f), '%s: the list [%s] taken from a statement is not released completely' % (what, ' '.join(e[2])))
                break


def check_required(prog):
    R = Result()
    R.rule('required', 'a name counts as required exactly if some require block before the statement, in the same interface, lists it; the first other known name is reported')
    R.rule('used', 'a required name counts as used exactly if a statement behind the require block, at any depth, mentions it; otherwise it is reported as unused')
    R.rule('declared', 'a name of another module is reported exactly if no require block before or around the statement lists it with its kind, at any nesting, as any of the names of a declaration')
    R.rule('released', 'every list of names taken is released completely, once')
    f = prog.fn('check_name_used_but_not_required_in_if')
    T = prog.enum('DECL_TYPE')
    kinds = {n: T for n in ('unreq_t', 'a_t', 'b_t', 'c_t')}
    kinds.update({'r%d_t' % i: T for i in range(12)})
    kinds['system_r'] = prog.enum('DECL_ROLE')
    for what, tree, want in w2_scenarios():
        judge(prog, R, 'required', f, 'W-002, ' + what, tree, want, kinds, 'Type')
    for k, w in (('DECL_ATTRIBUTE', 'Attribute'), ('DECL_ATTRIBUTE_ROLE', 'Role Attribute'), ('DECL_ROLE', 'Role'), ('DECL_USER', None), ('DECL_CLASS', None), ('DECL_BOOL', None)):
        judge(prog, R, 'required', f, 'W-002, an unrequired name of kind ' + k, FILE(IF(REQ(('a_t',)), ST('a_t', 'q', mark='N'))), 'q' if w else None, {'q': prog.enum(k), 'a_t': T}, w)
    g = prog.fn('check_name_required_but_not_used_in_if')
    for what, tree, want, kw in w3_scenarios():
        judge(prog, R, 'used', g, 'W-003, ' + what, tree, want, {}, kw)
    h = prog.fn('check_no_explicit_declaration')
    for what, tree, want, kinds, mods in w1_scenarios(prog):
        judge(prog, R, 'declared', h, 'W-001, ' + what, tree, want, kinds, None, 'FILE_TE_FILE', mods, at=0)
    judge(prog, R, 'declared', h, 'W-001, in an interface file', FILE(ST('x_t', mark='N')), None, {'x_t': T}, None, 'FILE_IF_FILE', {'x_t': 'beta'}, at=0)
    R.atleast('interfaces interpreted', 200)
    return R


def w3_scenarios():
    def N(k='DECL_TYPE'):
        return DECL('a_t', k, mark='N')
    rq = lambda k='DECL_TYPE', more=('b_t',), kd='NODE_GEN_REQ': REQ((N(k),) + tuple(more), kd)
    yield 'never used', FILE(IF(rq(), ST('x'), ST('b_t'))), 'a_t', 'Type'
    yield 'nothing behind the require block', FILE(IF(rq())), 'a_t', 'Type'
    for i in range(3):
        for j in range(3):
            ss = [('p%d' % x, 'q%d' % x, 's%d' % x) for x in range(3)]
            ss[i] = ss[i][:j] + ('a_t',) + ss[i][j + 1:]
            yield 'name %d of statement %d' % (j + 1, i + 1), FILE(IF(rq(), *[ST(*s) for s in ss])), None, None
    yield 'statements without names between', FILE(IF(rq(), ST(), ST('x'), ST(), ST('a_t'))), None, None
    shapes = [('in an optional block', lambda s: (BL(ST('x'), s),)), ('first in a block', lambda s: (BL(s), ST('y'))),
              ('two blocks deep', lambda s: (BL(ST('x'), BL(ST('y'), s)),)), ('behind a block', lambda s: (BL(ST('x')), s)),
              ('behind a block two deep', lambda s: (BL(BL(ST('x'), ST('z'))), s)), ('behind an inner block', lambda s: (BL(BL(ST('x')), s), ST('y'))),
              ('behind three levels', lambda s: (BL(BL(BL(ST('x')))), ST('y'), s)), ('three levels up at once, then on', lambda s: (BL(BL(BL(ST('x'))), s), ST('y'))),
              ('in the second of two blocks', lambda s: (BL(ST('x')), BL(ST('y'), s)))]
    for w, mk in shapes:
        yield 'used %s' % w, FILE(IF(rq(), *mk(ST('k', 'a_t'))), IF(ST('o'))), None, None
        yield 'not used %s' % w, FILE(IF(rq(), *mk(ST('k', 'm'))), IF(ST('a_t'))), 'a_t', 'Type'
    yield 'used only before the require block', FILE(IF(ST('a_t'), rq(), ST('x'))), 'a_t', 'Type'
    yield 'used only in the next interface', FILE(IF(rq(), ST('x')), IF(ST('a_t'))), 'a_t', 'Type'
    yield 'used only in the previous interface', FILE(IF(ST('a_t')), IF(rq(), ST('x'))), 'a_t', 'Type'
    yield 'the require block in an optional block, used behind it', FILE(IF(BL(rq(), ST('a_t')), ST('x'))), None, None
    yield 'the require block in an optional block, never used', FILE(IF(BL(rq(), ST('y')), ST('x'))), 'a_t', 'Type'
    yield 'another block behind the require block of an optional block', FILE(IF(BL(rq(), BL(ST('y')), ST('a_t')), ST('x'))), None, None
    yield 'a conditional requirement, used', FILE(IF(REQ((BL(N(), kind='NODE_IFDEF'),)), ST('a_t'))), None, None
    yield 'a conditional requirement, not used', FILE(IF(REQ((BL(N(), kind='NODE_IFDEF'),)), ST('b'))), 'a_t', 'Type'
    yield 'in a template, used', FILE(IF(rq(), ST('a_t'), kind='NODE_TEMP_DEF')), None, None
    yield 'in a template, not used', FILE(IF(rq(), ST('b'), kind='NODE_TEMP_DEF')), 'a_t', 'Type'
    yield 'in a require block, not used', FILE(IF(rq(kd='NODE_REQUIRE'), ST('b'))), 'a_t', 'Type'
    yield 'in a stub interface', FILE(IF(rq(), name='alpha_stub')), None, None
    yield 'in a template named like a stub', FILE(IF(rq(), name='alpha_stub', kind='NODE_TEMP_DEF')), 'a_t', 'Type'
    yield 'in an interface whose name only contains _stub', FILE(IF(rq(), name='alpha_stub_read')), 'a_t', 'Type'
    yield 'outside of interfaces', FILE(rq(), ST('b')), None, None
    yield 'not in a require block', FILE(IF(REQ(('q',)), N(), ST('b'))), None, None
    for k, w in (('DECL_ATTRIBUTE', 'Attribute'), ('DECL_ATTRIBUTE_ROLE', 'Role Attribute'), ('DECL_ROLE', 'Role'), ('DECL_USER', None), ('DECL_CLASS', None), ('DECL_BOOL', None), ('DECL_PERM', None)):
        yield 'an unused requirement of kind ' + k, FILE(IF(rq(k), ST('b'))), 'a_t' if w else None, w
        yield 'a used requirement of kind ' + k, FILE(IF(rq(k), ST('a_t'))), None, None


def TE(*kids):
    return ('NODE_TE_FILE', {}, kids)


def w1_scenarios(prog):
    """(what, tree, reported name, kinds, modules)"""
    T, A, RA = 'DECL_TYPE', 'DECL_ATTRIBUTE', 'DECL_ATTRIBUTE_ROLE'
    ifd = lambda *k: BL(*k, kind='NODE_IFDEF')

    def K(kind=T, *names):
        return {n: prog.enum(kind) for n in names or ('x_t', 'y_t', 'z_t')}

    far = {n: 'beta' for n in ('x_t', 'y_t', 'z_t')}
    N = ST('x_t', mark='N')
    for kd in ('NODE_GEN_REQ', 'NODE_REQUIRE'):
        r = lambda *n, **k: REQ(n, kd)
        for what, tree in (('before', TE(r('x_t'), N)), ('among others', TE(r('a', 'x_t', 'b'), N)), ('last of several', TE(r('a', 'b', 'x_t'), N)), ('with statements between', TE(r('x_t'), ST('q'), ST('p'), N)),
                           ('first of several blocks', TE(r('x_t'), r('a'), r('b', 'c'), N)), ('second of several blocks', TE(r('a'), r('x_t'), r('b', 'c'), N)), ('last of several blocks', TE(r('a', 'd'), r('b'), r('x_t'), N)),
                           ('before the block of the statement', TE(r('x_t'), BL(ST('q'), N))), ('in the block of the statement', TE(BL(r('a', 'x_t'), ST('q'), N))),
                           ('two levels out', TE(r('x_t'), BL(BL(ST('q'), N)))), ('one of two levels out', TE(BL(r('x_t'), ST('q'), BL(ST('p'), N)))),
                           ('behind an empty-handed inner block', TE(r('x_t'), BL(r('a'), ST('q'), N))),
                           ('in an ifdef of the require block', TE(r(ifd(DECL('x_t')), DECL('a')), N)), ('in an ifdef at its end', TE(r('a', ifd(DECL('b'), DECL('x_t'))), N)),
                           ('behind an ifdef of the require block', TE(r(ifd(DECL('a')), ifd(DECL('b')), 'x_t'), N)), ('two ifdefs deep', TE(r(ifd(ifd(DECL('a')), ifd(DECL('x_t'))), 'b'), r('c'), N)),
                           ('behind two ifdefs deep', TE(r(ifd(ifd(DECL('a'))), 'x_t'), r('c'), N))):
            yield 'required ' + what, tree, None, K(), far
            def swap(t):
                k, pay, kids = t
                if pay.get('decl'):
                    pay = dict(pay, names=tuple('other_t' if n == 'x_t' else n for n in pay['names']))
                return (k, pay, tuple(swap(c) for c in kids))
            yield 'another name required ' + what, swap(tree), 'x_t', K(), far
        yield 'required only behind the statement', TE(N, r('x_t')), 'x_t', K(), far
        yield 'required only behind its block', TE(BL(N), r('x_t')), 'x_t', K(), far
        yield 'required only in a block before', TE(BL(r('x_t')), N), 'x_t', K(), far
        yield 'an empty require block', TE((kd, {}, ()), N), 'x_t', K(), far
        for k1 in (T, A, RA):
            for k2 in (T, A, RA, 'DECL_ROLE', 'DECL_CLASS', 'DECL_BOOL'):
                yield 'a %s required as %s' % (k1, k2), TE(REQ((DECL('x_t', k2),), kd), N), None if k1 == k2 else 'x_t', K(k1), far
            for i in range(4):
                ns = ['a', 'b', 'c', 'd']
                ns[i] = 'x_t'
                yield 'name %d of a required declaration' % (i + 1), TE(REQ((DECLS(ns, k1), DECL('e', k1)), kd), N), None, K(k1), far
        yield 'a statement of the require block itself', TE(REQ((DECL('a'), DECLS(('y_t', 'x_t'), mark='N')), kd)), None, {'x_t': prog.enum(T)}, {'x_t': 'beta'}
    for kd in ('NODE_OPTIONAL_POLICY', 'NODE_IFDEF', 'NODE_BOOLEAN_POLICY', 'NODE_TUNABLE_POLICY'):
        yield 'declared in a %s, which is no require block' % kd, TE(BL(DECL('x_t'), kind=kd), N), 'x_t', K(), far
        yield 'declared around it in a %s, which is no require block' % kd, TE(BL(DECL('x_t'), N, kind=kd)), 'x_t', K(), far
    for k in (T, A, RA):
        yield 'a %s of the own module' % k, TE(N), None, K(k), {}
        yield 'a %s of another module' % k, TE(N), 'x_t', K(k), far
    for k in ('DECL_ROLE', 'DECL_USER', 'DECL_CLASS', 'DECL_PERM', 'DECL_BOOL'):
        yield 'a %s of another module' % k, TE(N), None, K(k), far
    yield 'an unknown name', TE(N), None, {}, {}
    yield 'an unknown name first', TE(ST('q', 'x_t', mark='N')), 'x_t', K(), far
    yield 'an own name first', TE(ST('q', 'x_t', mark='N')), 'x_t', dict(K(), q=prog.enum(T)), far
    yield 'a role first', TE(ST('q', 'x_t', mark='N')), 'x_t', dict(K(), q=prog.enum('DECL_ROLE')), dict(far, q='beta')
    for i in range(3):
        req = [n for j, n in enumerate(('x_t', 'y_t', 'z_t')) if j != i]
        yield 'one name of three not required', TE(REQ(req), ST('x_t', 'y_t', 'z_t', mark='N')), ('x_t', 'y_t', 'z_t')[i], K(), far
    yield 'all of three required', TE(REQ(('z_t', 'x_t')), REQ(('y_t',)), ST('x_t', 'y_t', 'z_t', mark='N')), None, K(), far
    yield 'none of three required', TE(ST('x_t', 'y_t', 'z_t', mark='N')), 'x_t', K(), far
    yield 'the declared name of a declaration', TE(DECLS(('x_t', 'a'), mark='N')), None, K(), far
    yield 'an attribute of a declaration', TE(DECLS(('a', 'x_t'), mark='N')), 'x_t', K(), far
    yield 'a required attribute of a declaration', TE(REQ(('x_t',)), DECLS(('a', 'x_t'), mark='N')), None, K(), far
    yield 'no names', TE(ST(mark='N')), None, K(), far


def check_required_names(prog):
    """get_names_required: the names of all statements of a require block, nested ones included, in order"""
    R = Result()
    R.rule('required names', 'the names of a require block are those of all its statements, at any depth, in order')
    f = prog.fn('get_names_required')
    ifd = lambda *k: BL(*k, kind='NODE_IFDEF')
    D = DECLS
    blocks = []
    for k in range(4):
        for sizes in product((0, 1, 3), repeat=k):
            c, ks = 0, []
            for n in sizes:
                ns = tuple('n%d' % (c + i) for i in range(n))
                ks.append(('NODE_AV_RULE', dict(names=ns), ()))
                c += n
            decls = tuple(('NODE_DECL', dict(names=x[1]['names'], decl=kk), ()) if x[1]['names'] else x for x, kk in zip(ks, ('DECL_TYPE', 'DECL_CLASS', 'DECL_ROLE')))
            if ks:
                blocks.append(('declarations of %s names' % list(sizes), decls))
                blocks.append(('a declaration and other statements of %s names' % list(sizes), decls[:1] + tuple(ks[1:])))
            blocks.append(('statements with %s names' % list(sizes), tuple(ks)))
    a, b, c, d = (ST(x + '1', x + '2') for x in 'abcd')
    blocks += [('a block first', (ifd(a), b)), ('a block last', (a, ifd(b))), ('only a block', (ifd(a),)), ('blocks in blocks', (ifd(ifd(a), b), c)), ('blocks in blocks, last', (a, ifd(b, ifd(c)))),
               ('two blocks', (ifd(a, b), ifd(c), d)), ('three deep', (ifd(ifd(ifd(a))), b)), ('three deep, then on', (ifd(ifd(ifd(a)), b), c, d)), ('an empty block', (('NODE_IFDEF', {}, ()), a))]
    for what, ks in blocks:
        for start in (True, False):
            for kd in ('NODE_GEN_REQ', 'NODE_REQUIRE'):
                tree = TE(ST('before'), (kd, dict(mark='N'), ((START(),) if start else ()) + ks), ST('behind'))
                sc = Scen(prog, tree)
                want = list(sc.under[sc.mark['N']])
                it = ShapeI(prog, sc, real=('get_names_required', 'free_string_list'))
                R.n('require blocks interpreted')
                try:
                    rets = it.call_function(f, (sc.mark['N'],), sc.st)
                except Endless:
                    R.v('required names', loc(f), 'a require block of %s: a loop does not come to an end' % what)
                    continue
                finally:
                    R.functions |= it.visited_fn
                if sc.odd or len(rets) != 1 or it.truncated:
                    R.u('required names', 'a require block of %s: %s' % (what, sc.odd[:1] or '%d outcomes' % len(rets)))
                    continue
                for m in sc.bad[:1]:
                    R.v('required names', loc(f), 'a require block of %s: %s' % (what, m))
                v, st = rets[0]
                got = read_list(st, v)
                if got is None:
                    R.u('required names', 'a require block of %s: the result is no list of known names' % what)
                elif got != want:
                    R.v('required names', loc(f), 'a require block of %s: the names are [%s], but the statements mention [%s]' % (what, ' '.join(got), ' '.join(want)))
    R.atleast('require blocks interpreted', 100)
    return R


def read_list(st, v):
    out = []
    while v != NULL and len(out) < 60:
        if v[0] != 'al':
            return None
        s = text(st.mem.get(('fld', v, SL + 'string'), ('?',)))
        if s is None:
            return None
        out.append(s)
        v = st.mem.get(('fld', v, SL + 'next'), NULL)
    return out if v == NULL else out + ['...']
