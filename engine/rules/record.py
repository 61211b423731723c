"""R10: what the parser's building blocks record: one tree node per statement, its operands in their slots, blocks
opened and closed in pairs, names entered into the symbol tables."""
from ..absint import State, NULL, contains, walk
from ..core import Result, loc, run_specs
from ..paths import PathI, events, fnz, fval, known_null
from ..tables import strip, rewrite, Spec, And, Or, Not, eq, isnull, nonnull, truth, streq, call, char, field, Exists, Atom, Const, SLIST
from .. import pretty

NEXT, CHILD = 'insert_policy_node_next', 'insert_policy_node_child'
EFFECT = ('insert_into_decl_map', 'insert_decl_into_template_map', 'insert_call_into_template_map', 'add_template_declarations', 'insert_into_ifs_map',
          'insert_template_into_template_map', 'mark_transform_if', 'mark_filetrans_if', 'mark_role_if')
OPQ = (NEXT, CHILD, 'free_policy_node', 'free_string_list', 'free_header_data', 'free_av_rule_data', 'free_xav_rule_data', 'free_ra_data', 'free_rtyp_data', 'free_type_transition_data',
       'free_role_transition_data', 'free_if_call_data', 'free_declaration_data', 'free_attribute_data') + EFFECT
PURE = ('is_in_require', 'get_name_if_in_template', 'str_in_sl', 'is_transform_interface')

# function, kind of node, payload: {field: operand}; an operand is a parameter position, ('dup', position), ('c', enum name)
D = lambda i: ('dup', i)
PAYLOAD = (
    ('insert_header', 'NODE_HEADER', {'header_data.flavor': 2, 'header_data.module_name': D(1)}, 3),
    ('insert_comment', 'NODE_COMMENT', None, 1),
    ('insert_declaration', 'NODE_DECL', {'declaration_data.flavor': 1, 'declaration_data.name': D(2), 'declaration_data.attrs': 3}, 4),
    ('insert_type_alias', 'NODE_TYPE_ALIAS', D(1), 2),
    ('insert_av_rule', 'NODE_AV_RULE', {'av_rule_data.flavor': 1, 'av_rule_data.sources': 2, 'av_rule_data.targets': 3, 'av_rule_data.object_classes': 4, 'av_rule_data.perms': 5}, 6),
    ('insert_xperm_av_rule', 'NODE_XAV_RULE', {'xav_rule_data.flavor': 1, 'xav_rule_data.sources': 2, 'xav_rule_data.targets': 3, 'xav_rule_data.object_classes': 4,
                                               'xav_rule_data.operation': D(5), 'xav_rule_data.perms': 6}, 7),
    ('insert_role_allow', 'NODE_ROLE_ALLOW', {'role_allow_data.from': 1, 'role_allow_data.to': 2}, 3),
    ('insert_role_types', 'NODE_ROLE_TYPES', {'role_types_data.role': D(1), 'role_types_data.types': 2}, 3),
    ('insert_type_transition', 'NODE_TT_RULE', {'type_transition_data.flavor': 1, 'type_transition_data.sources': 2, 'type_transition_data.targets': 3,
                                                'type_transition_data.object_classes': 4, 'type_transition_data.default_type': D(5), 'type_transition_data.name': ('dupnull', 6)}, 7),
    ('insert_role_transition', 'NODE_RT_RULE', {'role_transition_data.sources': 1, 'role_transition_data.targets': 2, 'role_transition_data.object_classes': 3,
                                                'role_transition_data.default_role': D(4)}, 5),
    ('insert_interface_call', 'NODE_IF_CALL', {'if_call_data.name': D(1), 'if_call_data.args': 2}, 3),
    ('insert_permissive_statement', 'NODE_PERMISSIVE', D(1), 2),
    ('insert_semicolon', 'NODE_SEMICOLON', None, 1),
    ('insert_m4simplemacro', 'NODE_M4_SIMPLE_MACRO', 1, 2),
    ('insert_type_attribute', 'NODE_TYPE_ATTRIBUTE', {'attribute_data.flavor': ('c', 'ATTR_TYPE'), 'attribute_data.type': D(1), 'attribute_data.attrs': 2}, 3),
    ('insert_role_attribute', 'NODE_ROLE_ATTRIBUTE', {'attribute_data.flavor': ('c', 'ATTR_ROLE'), 'attribute_data.type': D(1), 'attribute_data.attrs': 2}, 3),
)
BLOCKS = (('define', 'NODE_DEFINE'), ('optional_policy', 'NODE_OPTIONAL_POLICY'), ('optional_else', 'NODE_OPTIONAL_ELSE'), ('boolean_policy', 'NODE_BOOLEAN_POLICY'),
          ('tunable_policy', 'NODE_TUNABLE_POLICY'), ('gen_require', 'NODE_GEN_REQ'), ('require', 'NODE_REQUIRE'), ('ifdef', 'NODE_IFDEF'), ('ifelse', 'NODE_IFELSE'),
          ('m4_argument', 'NODE_M4_ARG'))


def P(f, i):
    return ('p', f.name, f.params[i])


def F(t, sf):
    return ('ld', ('fld', t, sf))


def canon_next(cur):
    """(*cur)->next is the node just inserted: its parent is (*cur)'s parent, its prev is *cur"""
    nx = F(cur, 'policy_node.next')

    def fn(x):
        if x == F(nx, 'policy_node.parent'):
            return F(cur, 'policy_node.parent')
        if x == F(nx, 'policy_node.prev'):
            return cur
        return None
    return fn


def isdup(v, src):
    return v is not None and v[0] == 'call' and v[1] in ('strdup', '__strdup') and strip(v[2][0]) == strip(src)


def odd(v):
    """a value the rule cannot read"""
    return v is not None and any(x[0] in ('hv', 'phi', 'op', 'sel', 'undef') for x in walk(v))


def check_payload(prog):
    R = Result()
    R.rule('node', 'recording a statement appends exactly one node of its kind, at its line, after the current node, and makes it the current node')
    R.rule('operands', 'the node carries every operand of the statement in the slot the checks read it from; text operands are copied')
    R.rule('failure', 'when the node cannot be inserted the current node stays and the failure is returned')
    for fn, kind, pay, lno in PAYLOAD:
        f = prog.fn(fn)
        it = PathI(prog, opaque=OPQ, pure=PURE)
        args = tuple(P(f, i) for i in range(len(f.params)))
        pc, cur = args[0], ('ld', args[0])
        R.n('recording functions')
        ok_paths = 0
        for v, st in it.call_function(f, args, State()):
            R.n('paths')
            ev = events(st)
            ins = [e for e in ev if e.name in (NEXT, CHILD)]
            mv = [e for e in ev if e.kind == 'store' and e.addr == pc]
            r = fnz(st, v)
            if len(ins) > 1:
                R.v('node', ins[1].where, '%s inserts %d nodes for one statement' % (f.src, len(ins)))
                continue
            good = bool(ins) and fnz(st, ins[0].ret) is False
            if not good:
                if mv:
                    R.v('failure', mv[0].where, '%s moves the current node although nothing was inserted' % f.src)
                if r is False:
                    R.v('failure', loc(f), '%s reports success without inserting a node, on the path [%s]' % (f.src, pretty.pfacts(st.facts)))
                continue
            ok_paths += 1
            e = ins[0]
            if r is not False:
                R.v('failure', loc(f), '%s returns %s after a successful insertion' % (f.src, pretty.pt(v)))
                continue
            if e.name != NEXT or strip(e.args[0]) != cur:
                R.v('node', e.where, '%s inserts its node with %s at %s, not after the current node' % (f.src, e.name, pretty.pt(e.args[0])))
            if e.args[1] != ('i', prog.enum(kind)):
                (R.u if odd(e.args[1]) else lambda a, m: R.v(a, e.where, m))('node', '%s inserts a node of kind %s instead of %s' % (f.src, pretty.pt(e.args[1]), kind))
            if e.args[3] != args[lno]:
                R.v('node', e.where, '%s records line %s instead of the line of the statement' % (f.src, pretty.pt(e.args[3])))
            if not mv or strip(mv[-1].val) != F(cur, 'policy_node.next'):
                R.v('node', e.where, '%s does not make the inserted node the current one%s' % (f.src, ' (but %s)' % pretty.pt(mv[-1].val) if mv else ''))
            d = e.args[2]
            if not isinstance(pay, dict):
                want = NULL if pay is None else None
                if pay is None and d != NULL:
                    R.v('operands', e.where, '%s stores %s with a node that carries nothing' % (f.src, pretty.pt(d)))
                elif isinstance(pay, tuple) and not isdup(d, args[pay[1]]):
                    R.v('operands', e.where, '%s stores %s instead of a copy of its operand' % (f.src, pretty.pt(d)))
                elif isinstance(pay, int) and d != args[pay] and not isdup(d, args[pay]):
                    R.v('operands', e.where, '%s stores %s instead of its operand' % (f.src, pretty.pt(d)))
                continue
            last = {}
            zero = False
            for x in ev:
                if x.kind == 'store' and x.addr[0] == 'fld' and x.addr[1] == d:
                    last[x.addr[2]] = x
                if x.name == 'memset' and x.args[0] == d and x.args[1] == NULL or x.name == 'calloc' and x.ret == d:
                    zero = True
            for sf, op in pay.items():
                R.n('operand slots')
                x = last.get(sf)
                val = x.val if x else NULL if zero else None
                w = x.where if x else e.where
                if isinstance(op, int):
                    ok = val == args[op] or val is not None and fval(st, args[op]) is not None and fval(st, args[op]) == val
                elif op[0] == 'c':
                    ok = val == ('i', prog.enum(op[1]))
                elif op[0] == 'dup':
                    ok = isdup(val, args[op[1]])
                else:
                    nn = fnz(st, args[op[1]])
                    ok = nn is False and (val == NULL or val == args[op[1]]) or nn is True and isdup(val, args[op[1]])
                if not ok:
                    m = '%s: slot %s of the node receives %s instead of %s' % (f.src, sf, pretty.pt(val) if val is not None else 'nothing',
                                                                            pretty.pt(args[op if isinstance(op, int) else op[1]]) if not isinstance(op, tuple) or op[0] != 'c' else op[1])
                    if odd(val):
                        R.u('operands', m)
                    else:
                        R.v('operands', w, m)
            for x in ev:
                if x.name in ('free', 'free_string_list') or x.name and x.name.startswith('free_'):
                    t = strip(x.args[0])
                    if t == d or t in [strip(l.val) for l in last.values()]:
                        R.v('operands', x.where, '%s releases what it just recorded' % f.src)
        if not ok_paths:
            R.v('node', loc(f), '%s has no path on which the statement is recorded' % f.src)
        R.functions |= it.visited_fn
    R.atleast('recording functions', len(PAYLOAD))
    R.atleast('operand slots', 25)
    return R


def check_blocks(prog):
    R = Result()
    R.rule('open', 'opening a block appends a node of its kind with one start-of-block child, which becomes the current node')
    R.rule('close', 'closing a block succeeds exactly inside a block of that kind and makes the block itself current; otherwise it fails and changes nothing')
    R.rule('module', 'the opening of an interface or template is recorded under its name with the current module')

    def opening(f, kind, extra=None, data=None, st0=None, args=None):
        it = PathI(prog, opaque=OPQ, pure=PURE)
        args = args or tuple(P(f, i) for i in range(len(f.params)))
        pc, cur = args[0], ('ld', args[0])
        line = args[-1]
        good = 0
        for v, st in it.call_function(f, args, st0 or State()):
            R.n('paths')
            ev = events(st)
            nx = [e for e in ev if e.name == NEXT]
            ch = [e for e in ev if e.name == CHILD]
            mv = [e for e in ev if e.kind == 'store' and e.addr == pc]
            r = fnz(st, v)
            ok = nx and fnz(st, nx[0].ret) is False and ch and fnz(st, ch[0].ret) is False
            if not ok:
                if r is False:
                    R.v('open', loc(f), '%s reports success although the block was not opened, on the path [%s]' % (f.src, pretty.pfacts(st.facts)))
                if not nx or fnz(st, nx[0].ret) is not False:
                    if mv:
                        R.v('open', mv[0].where, '%s moves the current node although the block was not opened' % f.src)
                continue
            good += 1
            if r is not False:
                R.v('open', loc(f), '%s returns %s after opening the block' % (f.src, pretty.pt(v)))
            if len(nx) != 1 or len(ch) != 1:
                R.v('open', nx[0].where, '%s inserts %d nodes and %d children' % (f.src, len(nx), len(ch)))
                continue
            blk = F(cur, 'policy_node.next')
            if strip(nx[0].args[0]) != cur or nx[0].args[1] != ('i', prog.enum(kind)) or nx[0].args[3] != line:
                R.v('open', nx[0].where, '%s appends (%s) instead of a %s block after the current node at its line' % (f.src, ', '.join(map(pretty.pt, nx[0].args)), kind))
            if strip(ch[0].args[0]) != blk or ch[0].args[1] != ('i', prog.enum('NODE_START_BLOCK')) or ch[0].args[2] != NULL:
                R.v('open', ch[0].where, '%s gives (%s) a first child, not the start of the new block' % (f.src, ', '.join(map(pretty.pt, ch[0].args))))
            if not mv or strip(mv[-1].val) != F(blk, 'policy_node.first_child'):
                R.v('open', loc(f), '%s leaves %s current instead of the start of the block' % (f.src, pretty.pt(mv[-1].val) if mv else 'the old node'))
            if data:
                data(nx[0], st, ev)
        R.functions |= it.visited_fn
        R.n('block functions')
        if not good:
            R.v('open', loc(f), '%s has no path that opens the block' % f.src)

    def closing(f, kinds, unq=None):
        it = PathI(prog, opaque=OPQ, pure=PURE)
        args = tuple(P(f, i) for i in range(len(f.params)))
        pc, cur = args[0], ('ld', args[0])
        par = F(cur, 'policy_node.parent')
        R.n('block functions')
        good = 0
        for v, st in it.call_function(f, args, State()):
            R.n('paths')
            ev = events(st)
            mv = [e for e in ev if e.kind == 'store' and e.addr == pc]
            has = fnz(st, par)
            fl = [x for k, x in st.facts.items() if strip(k) == F(par, 'policy_node.flavor')]
            ks = {prog.enum(k) for k in kinds}
            inside = None
            if has is False:
                inside = False
            elif fl and fl[0].eq is not None:
                inside = fl[0].eq[1] in ks if has else None
            elif fl and all(('i', k) in fl[0].ne for k in ks):
                inside = False
            r = fnz(st, v)
            if inside is None:
                R.v('close', loc(f), '%s closes without knowing whether it is inside a block of its kind, on the path [%s]' % (f.src, pretty.pfacts(st.facts)))
            elif inside:
                good += 1
                if r is not False or not mv or strip(mv[-1].val) != par:
                    R.v('close', loc(f), '%s inside its block returns %s and makes %s current' % (f.src, pretty.pt(v), pretty.pt(mv[-1].val) if mv else 'nothing'))
                if unq is not None:
                    s = [e for e in ev if e.kind == 'store' and e.addr[0] == 'fld' and e.addr[2] == 'gen_require_data.unquoted']
                    if not s or strip(s[-1].val) != args[unq] or strip(s[-1].addr[1]) != F(par, 'policy_node.data'):
                        R.v('close', loc(f), '%s does not record whether the block was quoted' % f.src)
            else:
                if r is False or mv:
                    R.v('close', loc(f), '%s outside its block %s, on the path [%s]' % (f.src, 'reports success' if r is False else 'moves the current node', pretty.pfacts(st.facts)))
        if not good:
            R.v('close', loc(f), '%s never closes a block' % f.src)
        R.functions |= it.visited_fn

    for n, k in BLOCKS:
        opening(prog.fn('begin_' + n), k)
        closing(prog.fn('end_' + n), [k], unq=1 if n == 'gen_require' else None)
    f = prog.fn('begin_interface_def')
    name = P(f, 2)
    for k in ('NODE_INTERFACE_DEF', 'NODE_TEMP_DEF'):
        a = (P(f, 0), ('i', prog.enum(k)), name, P(f, 3))

        def data(e, st, ev, k=k):
            if not isdup(e.args[2], name):
                R.v('module', e.where, 'the %s node stores %s instead of a copy of the name' % (k, pretty.pt(e.args[2])))
            ifs = [x for x in ev if x.name == 'insert_into_ifs_map']
            tm = [x for x in ev if x.name == 'insert_template_into_template_map']
            if len(ifs) != 1 or ifs[0].args[0] != name or strip(ifs[0].args[1]) != ('ld', ('g', 'module_name')):
                R.v('module', e.where, 'a %s is entered into the interface table as %s' % (k, [tuple(map(pretty.pt, x.args)) for x in ifs]))
            want = 1 if k == 'NODE_TEMP_DEF' else 0
            if len(tm) != want or any(x.args[0] != name for x in tm):
                R.v('module', e.where, 'a %s is entered into the template table %d times' % (k, len(tm)))
        opening(f, k, data=data, args=a)
    it = PathI(prog, opaque=OPQ, pure=PURE)
    st0 = State()
    for k in ('NODE_INTERFACE_DEF', 'NODE_TEMP_DEF'):
        st0.assume_ne(P(f, 1), ('i', prog.enum(k)))
    for v, st in it.call_function(f, tuple(P(f, i) for i in range(4)), st0):
        if fnz(st, v) is not True or events(st):
            R.v('open', loc(f), 'begin_interface_def opens a block of a kind that is neither interface nor template')
    closing(prog.fn('end_interface_def'), ['NODE_INTERFACE_DEF', 'NODE_TEMP_DEF'])
    R.atleast('block functions', 2 * len(BLOCKS) + 3)
    return R


def _success(v, st):
    return fnz(st, v) is False


def _cls(v, evs, st):
    """label of a successful path: did the marked event happen?"""
    r = fnz(st, v)
    if r is not False:
        return None
    if 'odd' in evs:
        return 'other'
    if 'bad' in evs:
        return 'wrong'
    return 'report' if 'yes' in evs else 'none'


def recording_specs(prog):
    E = lambda n: ('i', prog.enum(n))

    def mk(fn, evname, want_args, cond, title, vocab=(), canon=None):
        f = prog.fn(fn)
        a = [P(f, i) for i in range(len(f.params))]
        cur = ('ld', a[0])
        wa = want_args(a, cur)

        def event(name, args, st, it):
            if name != evname:
                return None
            c = canon_next(cur)
            got = tuple(rewrite(strip(x), c) for x in args)
            same = lambda w, g: g == strip(w) or g[0] == 'i' and fval(st, w) == g
            if all(w is None or (w(g) if callable(w) else same(w, g)) for w, g in zip(wa, got)):
                return 'yes'
            return 'odd' if any(odd(g) for g in got) else 'bad'
        return Spec(fn, cond(a, cur), vocab=PURE + ('strcmp', 'strrchr', 'strncmp', 'malloc', 'calloc', NEXT), opaque=OPQ, event=event, classify=_cls,
                    title='%s (%s)' % (fn, title), canon=canon_next(cur))

    def inif(cur):
        par = field(cur, 'policy_node.parent')
        return And(nonnull(par), eq(field(par, 'policy_node.flavor'), E('NODE_INTERFACE_DEF')))

    ifname = lambda cur: field(field(cur, 'policy_node.parent'), 'policy_node.data')
    mod = ('ld', ('g', 'module_name'))
    tmpl = lambda cur: call('get_name_if_in_template', cur)
    out = []
    # -- declarations
    req = lambda cur: truth(call('is_in_require', cur))
    out.append(mk('insert_declaration', 'insert_into_decl_map', lambda a, c: (a[2], mod, a[1]),
                  lambda a, c: And(Not(req(c)), isnull(tmpl(c)), Not(eq(char(a[2], 0), ('i', 36)))), 'declared names'))
    out.append(mk('insert_declaration', 'insert_decl_into_template_map', lambda a, c: (tmpl(c), a[1], a[2]),
                  lambda a, c: And(Not(req(c)), nonnull(tmpl(c))), 'names declared by a template'))
    # -- interface calls
    out.append(mk('insert_interface_call', 'insert_call_into_template_map', lambda a, c: (tmpl(c), None), lambda a, c: nonnull(tmpl(c)), 'calls made by a template'))
    out.append(mk('insert_interface_call', 'add_template_declarations', lambda a, c: (a[1], a[2], NULL, mod), lambda a, c: isnull(tmpl(c)), 'names declared by calling a template'))
    sfx = lambda a: call('strrchr', a[1], ('i', 95))
    out.append(mk('insert_interface_call', 'mark_filetrans_if', lambda a, c: (ifname(c),),
                  lambda a, c: And(inif(c), Or(streq(a[1], 'filetrans_pattern'), streq(a[1], 'filetrans_add_pattern'), And(nonnull(sfx(a)), streq(sfx(a), '_filetrans')))),
                  'file transition interfaces'))
    out.append(mk('insert_type_transition', 'mark_filetrans_if', lambda a, c: (ifname(c),),
                  lambda a, c: And(inif(c), Not(truth(call('str_in_sl', ('s', 'process'), a[4])))), 'file transition interfaces'))
    out.append(mk('insert_av_rule', 'mark_transform_if', lambda a, c: (ifname(c),),
                  lambda a, c: And(inif(c), truth(call('str_in_sl', ('s', 'associate'), a[5]))), 'transform interfaces'))
    out.append(mk('insert_role_types', 'mark_role_if', lambda a, c: (ifname(c),),
                  lambda a, c: And(inif(c), Exists(a[2], lambda e: eq(char(field(e, 'string_list.string'), 0), ('i', 36)), name='dollar')), 'role interfaces'))
    for fn in ('insert_type_attribute', 'insert_role_attribute'):
        out.append(mk(fn, 'mark_transform_if', lambda a, c: (ifname(c),),
                      lambda a, c: And(inif(c), Or(truth(call('is_transform_interface', ifname(c))), streq(mod, 'mls'), streq(mod, 'mcs'))), 'transform interfaces'))
    return out


def check_recording(prog):
    R = Result()
    R.rule('recorded', 'a name is entered into the symbol tables, and an interface is marked, exactly when the statement at hand declares or marks it there')
    run_specs(prog, R, 'recorded', [('parse', s) for s in recording_specs(prog)])
    # aliases: one per element, all elements
    R.rule('aliases', 'every alias of a statement is recorded under its module (or template) and gets its own node below the statement')
    f = prog.fn('insert_aliases')
    a = tuple(P(f, i) for i in range(4))
    cur = ('ld', a[0])
    n = [0]

    def judge(st, evs, e, fn, leaving):
        n[0] += 1
        R.n('alias iterations')
        name = F(e, 'string_list.string')
        ch = [x for x in evs if x.name == CHILD]
        rec = [x for x in evs if x.name in EFFECT]
        t = fnz(st, ('call', 'get_name_if_in_template', (cur,), None)) if False else None
        for k in st.facts:
            if k[0] == 'call' and k[1] == 'get_name_if_in_template':
                t = fnz(st, k)
                tn = k
        if t is None:
            R.v('aliases', loc(fn), 'an alias is recorded without asking whether the statement is inside a template')
        elif t:
            if len(rec) != 1 or rec[0].name != 'insert_decl_into_template_map' or tuple(strip(x) for x in rec[0].args) != (strip(tn), a[2], name):
                R.v('aliases', loc(fn), 'an alias inside a template is recorded by %s' % (rec or 'nothing'))
        elif not leaving or ch:
            if len(rec) != 1 or rec[0].name != 'insert_into_decl_map' or tuple(strip(x) for x in rec[0].args) != (name, ('ld', ('g', 'module_name')), a[2]):
                R.v('aliases', loc(fn), 'an alias is recorded by %s' % (rec or 'nothing'))
        if not leaving:
            if len(ch) != 1 or strip(ch[0].args[0]) != cur or ch[0].args[1] != ('i', prog.enum('NODE_ALIAS')) or ch[0].args[3] != a[3] or not isdup(ch[0].args[2], name):
                R.v('aliases', loc(fn), 'an alias gets the node %s' % (ch or 'none'))

    def on_iter(it, st, fn, header, evs, killed):
        els = [g for g in killed if g[0] == 'elem' and strip(g[1]) == a[1]]
        if els and fn.name == f.name:
            judge(st, evs, strip(els[0]), fn, False)
    it = PathI(prog, opaque=OPQ, pure=PURE, on_iter=on_iter)
    for v, st in it.call_function(f, a, State()):
        r = fnz(st, v)
        done = any(k[0] == 'elem' and strip(k[1]) == a[1] and x.eq == NULL for k, x in st.facts.items()) or fnz(st, a[1]) is False
        if r is False and not done:
            R.v('aliases', loc(f), 'the aliases are left before the last one on the path [%s]' % pretty.pfacts(st.facts))
    R.functions |= it.visited_fn
    R.atleast('alias iterations', 1)
    R.atleast('decision tables', 10)
    return R


def check_command(prog):
    R = Result()
    R.rule('command', 'a suppression comment stores, with the statement, exactly the text after "selint-disable:"; any other command is refused and changes nothing')
    f = prog.fn('save_command')
    node, comm = P(f, 0), P(f, 1)
    it = PathI(prog)
    good = 0
    for v, st in it.call_function(f, (node, comm), State()):
        R.n('paths')
        ev = events(st)
        s = [e for e in ev if e.kind == 'store']
        r = fnz(st, v)
        if r is not False:
            if s:
                R.v('command', s[0].where, 'a refused command still changes %s' % pretty.pt(s[0].addr))
            if r is None:
                R.u('command', 'save_command returns %s' % pretty.pt(v))
            nn = (fnz(st, node), fnz(st, comm))
            if False not in nn:
                m = [k for k in st.facts if k[0] == 'call' and k[1] in ('strncmp', 'strstr', 'strcmp', 'memcmp')]
                if not any(fnz(st, k) for k in m):
                    R.v('command', loc(f), 'a command is refused without its text being looked at, on the path [%s]' % pretty.pfacts(st.facts))
            continue
        good += 1
        if len(s) != 1 or s[0].addr != ('fld', node, 'policy_node.exceptions'):
            R.v('command', loc(f), 'a suppression comment is stored by %s' % s)
            continue
        val = s[0].val
        pref = {}
        for k in st.facts:
            if k[0] == 'call' and k[1] == 'strncmp' and fnz(st, k) is False:
                lit = [x for x in k[2] if x[0] == 's']
                oth = [x for x in k[2][:2] if x[0] != 's']
                if lit and oth and k[2][2][0] == 'i' and k[2][2][1] == len(lit[0][1]):
                    pref[strip(oth[0])] = lit[0][1]
        if val[0] != 'call' or val[1] not in ('strdup',):
            R.u('command', 'the stored text is %s' % pretty.pt(val))
            continue
        tgt = strip(val[2][0])
        # walk back over matched prefixes
        base, off = split(tgt)
        have = {}
        for p, lit in pref.items():
            b, o = split(p)
            if b == base:
                have[o] = lit
        text, o = '', 0
        while o in have:
            text += have[o]
            o += len(have[o])
        if 'selint-disable:' != text or o != off:
            if not have:
                R.u('command', 'the stored text starts at %s, matched prefixes %s' % (pretty.pt(tgt), pref))
            else:
                R.v('command', s[0].where, 'what is stored starts %d characters into the command, of which "%s" was matched' % (off, text))
        if base[0] not in ('iter', 'p') or not contains(base, {comm}):
            R.u('command', 'the stored text is taken from %s' % pretty.pt(base))
    R.functions |= it.visited_fn
    if not good:
        R.v('command', loc(f), 'no command is ever accepted')
    R.atleast('paths', 3)
    return R


def split(t):
    if t[0] == 'idx' and t[2][0] == 'i':
        b, o = split(t[1])
        return b, o + t[2][1]
    return t, 0
