"""R11-R13: the tree and list building blocks every check relies on: where a node is linked, which names a statement mentions,
what is inside what, and that releasing gives back everything exactly once."""
from ..absint import State, NULL, contains, walk
from ..core import Result, loc, run_specs
from ..paths import PathI, events, fnz, fval, known_null, marks
from ..tables import strip, rewrite, Spec, And, Or, Not, eq, isnull, nonnull, truth, streq, call, char, field, Exists, Atom, Const, SLIST, PARENT, inset
from .. import pretty

SL = 'string_list'
NX = {'string_list': ('%struct.string_list', 1)}


def P(f, i):
    return ('p', f.name, f.params[i])


def F(t, sf):
    return ('ld', ('fld', t, sf))


def N(t):
    """the element behind t, as facts name it"""
    return strip(F(strip(t), 'string_list.next'))


def odd(v):
    return v is not None and any(x[0] in ('hv', 'phi', 'op', 'sel', 'undef', 'prev', 'al') for x in walk(v))


# ------------------------------------------------------------------ names of a statement
# kind -> ordered sources: ('list', data member) copies a list, ('str', data member) one name
AVD = [('list', 'av_rule_data.sources'), ('list', 'av_rule_data.targets')]
NAMES = {
    'NODE_AV_RULE': AVD, 'NODE_XAV_RULE': AVD,
    'NODE_TT_RULE': [('list', 'type_transition_data.sources'), ('list', 'type_transition_data.targets'), ('str', 'type_transition_data.default_type')],
    'NODE_RT_RULE': [('list', 'role_transition_data.sources'), ('list', 'role_transition_data.targets'), ('str', 'role_transition_data.default_role')],
    'NODE_DECL': [('str', 'declaration_data.name'), ('list', 'declaration_data.attrs')],
    'NODE_IF_CALL': [('list', 'if_call_data.args')],
    'NODE_ROLE_ALLOW': [('list', 'role_allow_data.from'), ('list', 'role_allow_data.to')],
    'NODE_ROLE_TYPES': [('str', 'role_types_data.role'), ('list', 'role_types_data.types')],
    'NODE_TYPE_ATTRIBUTE': [('str', 'attribute_data.type'), ('list', 'attribute_data.attrs')],
    'NODE_ROLE_ATTRIBUTE': [('str', 'attribute_data.type'), ('list', 'attribute_data.attrs')],
    'NODE_ALIAS': [('str', None)], 'NODE_TYPE_ALIAS': [('str', None)], 'NODE_PERMISSIVE': [('str', None)],
}
# members of structs with a common prefix name the same memory
SAME = {'xav_rule_data.sources': 'av_rule_data.sources', 'xav_rule_data.targets': 'av_rule_data.targets'}
MAKERS = ('copy_string_list', 'sl_from_str', 'sl_from_strn', 'sl_from_str_consume', 'concat_string_lists')


def same_member(t):
    def fn(x):
        if x[0] == 'fld' and x[2] in SAME:
            return ('fld', x[1], SAME[x[2]])
        return None
    return rewrite(strip(t), fn)


class Unread(Exception):
    pass


def chain(st, evs, t, seen=()):
    """ordered makers of the list t, following the links stored on this path"""
    if t == NULL or fnz(st, t) is False:
        return []
    if t in seen:
        raise Unread('cyclic list')
    if t[0] == 'elem':
        # some element of a list whose tail was reached
        raise Unread(pretty.pt(t))
    if t[0] != 'call':
        raise Unread(pretty.pt(t))
    if t[1] == 'concat_string_lists':
        return chain(st, evs, t[2][0], seen + (t,)) + chain(st, evs, t[2][1], seen + (t,))
    if t[1] not in MAKERS:
        raise Unread(pretty.pt(t))
    out = [t]
    ext = [e for e in evs if e.kind == 'store' and e.addr[0] == 'fld' and e.addr[2] == 'string_list.next' and belongs(e.addr[1], t)]
    for e in ext:
        if t[1].startswith('sl_from') or tail(st, e.addr[1], t):
            out += chain(st, evs, e.val, seen + (t,))
        elif e.addr[1] == t:
            raise Unread('the rest of %s is replaced' % pretty.pt(t))
    # elements appended behind what was appended
    return out


def belongs(x, t):
    return x == t or x[0] == 'elem' and x[1] == t


def tail(st, x, t):
    """x is known to be the last element of list t"""
    for k, v in st.facts.items():
        s = strip(k)
        if s == N(x) and v.eq == NULL:
            return True
    return False


def chain2(st, evs, t):
    """as chain, but links may be made through the tail of the whole list"""
    if t == NULL:
        return []
    if t[0] == 'call' and t[1] in MAKERS and t[1] != 'concat_string_lists':
        out = [t]
    elif t[0] == 'call' and t[1] == 'concat_string_lists':
        out = chain2(st, (), t[2][0]) + chain2(st, (), t[2][1])
    else:
        raise Unread(pretty.pt(t))
    first = t
    for e in evs:
        if e.kind == 'store' and e.addr[0] == 'fld' and e.addr[2] == 'string_list.next':
            b = e.addr[1]
            root = b
            while root[0] == 'elem' or root[0] == 'ld' and root[1][0] == 'fld' and root[1][2] == 'string_list.next':
                root = root[1] if root[0] == 'elem' else root[1][1]
            if root != first and root not in out:
                continue
            single = len(out) == 1 and out[0][1].startswith('sl_from') and b == first
            single = single or b == out[-1] and out[-1][1].startswith('sl_from')
            if not single and not tail(st, b, first):
                raise Unread('%s is not known to be the last element' % pretty.pt(b))
            out += chain2(st, (), e.val) if not (e.val != NULL and fnz(st, e.val) is False) else []
    return out


def check_names(prog):
    R = Result()
    R.rule('names', 'the names of a statement are those of every list and every single name it carries, in order, and nothing else')
    R.rule('exclusion', 'a leading "-" is removed from every name, and only there')
    f = prog.fn('get_names_in_node')
    node = P(f, 0)
    data = F(node, 'policy_node.data')
    allk = {prog.enum(k): k for k in NAMES}
    flav = F(node, 'policy_node.flavor')
    for num in list(range(0, prog.enum('NODE_ERROR') + 1)):
        kind = allk.get(num)
        want = NAMES.get(kind, [])
        st0 = State()
        st0.facts[flav] = __import__('engine.absint', fromlist=['VS']).VS(('i', num))
        iters = []

        def on_iter(it, st, fn, header, evs, killed, iters=iters):
            iters.append((st.copy(), fn, evs, [k for k in killed if k[0] == 'elem']))
        it = PathI(prog, opaque=MAKERS + ('memmove',), on_iter=on_iter, deref=True, merge=False)
        res = it.call_function(f, (node,), st0)
        R.n('statement kinds')
        nm = kind or 'kind %d' % num
        for v, st in res:
            R.n('paths')
            evs = events(st)
            try:
                got = chain2(st, evs, v)
            except Unread as e:
                R.u('names', '%s: the list returned is %s' % (nm, e))
                continue
            exp = []
            for how, m in want:
                src = F(data, m) if m else data
                mk = 'copy_string_list' if how == 'list' else 'sl_from_str'
                nul = [k for k, x in st.facts.items() if k[0] == 'call' and k[1] == mk and same_member(k[2][0]) == src and x.eq == NULL]
                if how == 'list' and (nul or fnz(st, src) is False):
                    continue
                exp.append((mk, src))
            g = [(t[1], same_member(t[2][0])) for t in got]
            if kind is None and g:
                R.v('names', loc(f), 'a statement of kind %d, which names nothing, yields %s' % (num, g))
            elif g != exp:
                if any(odd(t) for t in got) or any(x[0] not in ('copy_string_list', 'sl_from_str') for x in g):
                    R.u('names', '%s yields %s' % (nm, [pretty.pt(t) for t in got]))
                else:
                    R.v('names', loc(f), 'the names of a %s are taken from [%s] instead of [%s], on the path [%s]' % (
                        nm, ', '.join('%s %s' % (a, pretty.pt(b)) for a, b in g), ', '.join('%s %s' % (a, pretty.pt(b)) for a, b in exp), pretty.pfacts(st.facts)))
            # every element examined for '-'
            if g and kind:
                done = [k for k, x in st.facts.items() if k[0] == 'elem' and k[1] == v and x.eq == NULL]
                if not done:
                    R.v('exclusion', loc(f), 'the names of a %s are not all examined for a leading "-", on the path [%s]' % (nm, pretty.pfacts(st.facts)))
        for st, fn, evs, els in iters:
            for e in els:
                s = strip(e)
                c = fval2(st, char(F(s, 'string_list.string'), 0))
                mv = [x for x in evs if x.name in ('memmove', 'memcpy', 'strcpy')]
                if not mv and c is None and not any(strip(k) == char(F(s, 'string_list.string'), 0) for k in st.facts):
                    continue            # a walk to the end of the list
                R.n('names examined')
                want_mv = c == 45
                bad_mv = [x for x in mv if not good_move(x, F(s, 'string_list.string'))]
                if bad_mv:
                    (R.u if any(odd(a) for a in bad_mv[0].args) and not plain_len(strip(bad_mv[0].args[2]), F(s, 'string_list.string')) else lambda a, m: R.v(a, bad_mv[0].where, m))('exclusion', 'a leading "-" is removed by %s' % bad_mv[0])
                elif want_mv and not mv:
                    R.v('exclusion', loc(f), 'a name starting with "-" keeps it, in a %s' % nm)
                elif mv and not want_mv:
                    R.v('exclusion', mv[0].where, 'the first character of a name is removed although it is not "-"')
        R.functions |= it.visited_fn
    R.atleast('statement kinds', 30)
    R.atleast('names examined', 2)
    return R


def fval2(st, t):
    v = fval(st, t)
    return v[1] if v is not None and v[0] == 'i' else None


def plain_len(n, s):
    return n[0] == 'op' and n[1] == 'add' and n[3][0] == 'i' and n[2] == ('call', 'strlen', (s,))


def good_move(e, s):
    a = [strip(x) for x in e.args]
    if e.name != 'memmove' or a[0] != s or a[1] != ('idx', s, ('i', 1)):
        return False
    n = a[2]
    if n == ('call', 'strlen', (s,)):
        return True
    one = ('idx', s, ('i', 1))
    return n == ('op', 'add', ('call', 'strlen', (one,)), ('i', 1))


# ------------------------------------------------------------------ inside what
def inside_specs(prog):
    E = lambda n: ('i', prog.enum(n))
    out = []

    def nz(v, evs, st):
        r = fnz(st, v)
        return 'report' if r else 'none' if r is False else 'other'
    f = prog.fn('is_in_require')
    cur = P(f, 0)
    par = field(cur, 'policy_node.parent')
    out.append(Spec('is_in_require', Exists(par, lambda e: inset(field(e, 'policy_node.flavor'), [E('NODE_GEN_REQ'), E('NODE_REQUIRE')]), kind=PARENT, name='anc'), classify=nz))
    f = prog.fn('is_template_call')
    n = P(f, 0)
    d = field(n, 'policy_node.data')
    out.append(Spec('is_template_call', And(nonnull(n), nonnull(d), eq(field(n, 'policy_node.flavor'), E('NODE_IF_CALL')), truth(call('look_up_in_template_map', field(d, 'if_call_data.name')))),
                    vocab=('look_up_in_template_map',), classify=nz))
    f = prog.fn('str_in_sl')
    out.append(Spec('str_in_sl', Exists(P(f, 1), lambda e: streq(field(e, 'string_list.string'), P(f, 0)), name='s'), classify=nz))
    return out


def check_known_file(prog):
    R = Result()
    R.rule('known file', 'a file counts as already given exactly if some file of the list has this very name')
    out = []

    def nz(v, evs, st):
        r = fnz(st, v)
        return 'report' if r else 'none' if r is False else 'other'
    f = prog.fn('file_name_in_file_list')
    h = field(P(f, 1), 'policy_file_list.head')
    fl = lambda e: field(e, 'policy_file_node.file')
    out.append(Spec('file_name_in_file_list', Exists(h, lambda e: And(nonnull(fl(e)), streq(P(f, 0), field(fl(e), 'policy_file.filename'))), kind=('%struct.policy_file_node', 1), name='n'), classify=nz))
    run_specs(prog, R, 'known file', [('tree', s) for s in out])
    return R


FLAVNAME = {'DECL_TYPE': 'type', 'DECL_ATTRIBUTE': 'attribute', 'DECL_ATTRIBUTE_ROLE': 'attribute role', 'DECL_ROLE': 'role', 'DECL_USER': 'user', 'DECL_CLASS': 'class',
            'DECL_PERM': 'permission', 'DECL_BOOL': 'boolean'}


def check_inside(prog):
    R = Result()
    R.rule('inside', 'whether a statement is inside a require block, is a template call, or a name is in a list, is answered from all enclosing blocks / all elements')
    R.rule('template', 'the enclosing template of a statement is the nearest enclosing template definition, at any depth')
    R.rule('kinds', 'every kind of declaration has its own name in messages')
    run_specs(prog, R, 'inside', [('tree', s) for s in inside_specs(prog)])
    f = prog.fn('get_name_if_in_template')
    cur = P(f, 0)
    anc = ('elem', F(cur, 'policy_node.parent'), PARENT)
    T = ('i', prog.enum('NODE_TEMP_DEF'))

    def canon(t):
        t = strip(t)
        if t[0] == 'elem' and t[1] == cur and t[2] == PARENT:
            return t
        return t
    bad = []

    def flav_of(st, e):
        for k, x in st.facts.items():
            if strip(k) == F(e, 'policy_node.flavor'):
                if x.eq is not None:
                    return x.eq == T
                if T in x.ne:
                    return False
        return None

    def on_iter(it, st, fn, header, evs, killed):
        for g in killed:
            s = strip(g)
            if s[0] != 'elem' or s[2] != PARENT:
                continue
            R.n('enclosing blocks judged')
            # the element left behind: the walk looks either at the cursor or at its parent
            e = s if s[1] != cur else ('elem', F(cur, 'policy_node.parent'), PARENT)
            if flav_of(st, e) is True:
                st.assume_ne(F(g if s == e else e, 'policy_node.data'), NULL)        # a template has a name
                return 'template'
            if flav_of(st, e) is None:
                R.v('template', loc(fn), 'the walk passes an enclosing block without having established that it is no template')
    it = PathI(prog, on_iter=on_iter, deref=True)
    for v, st in it.call_function(f, (cur,), State()):
        s = strip(v)
        if 'template' in marks(st):
            if v == NULL or s[0] == 'ld' and s[1][2:] == ('policy_node.data',) and s[1][1][0] == 'elem':
                R.v('template', loc(f), 'the walk passes the nearest enclosing template and answers %s' % pretty.pt(v))
            elif s[0] == 'prev' or s[0] == 'ld' and s[1][0] == 'fld' and s[1][1][0] == 'prev':
                pass
            else:
                R.u('template', 'the template name is %s' % pretty.pt(v))
        elif v == NULL:
            ends = any(x.eq == NULL and (strip(k) == anc or strip(k) == F(cur, 'policy_node.parent') or
                                         strip(k)[0] == 'elem' and strip(k)[2] == PARENT) for k, x in st.facts.items())
            if not ends:
                R.v('template', loc(f), 'no template is reported before the outermost block was reached, on the path [%s]' % pretty.pfacts(st.facts))
        elif s == F(anc, 'policy_node.data') or s == F(F(cur, 'policy_node.parent'), 'policy_node.data'):
            if flav_of(st, anc) is not True and flav_of(st, F(cur, 'policy_node.parent')) is not True:
                R.v('template', loc(f), 'the name of a block that is no template is returned, on the path [%s]' % pretty.pfacts(st.facts))
        elif odd(s):
            R.u('template', 'the template name is %s' % pretty.pt(v))
        else:
            R.v('template', loc(f), 'the template name returned is %s' % pretty.pt(v))
    R.functions |= it.visited_fn
    f = prog.fn('decl_flavor_to_string')
    for k, name in FLAVNAME.items():
        it = PathI(prog)
        R.n('kind names')
        for v, st in it.call_function(f, (('i', prog.enum(k)),), State()):
            if v != ('s', name):
                (R.u if odd(v) or v[0] not in ('s', 'i') else lambda a, m: R.v(a, loc(f), m))('kinds', '%s is called %s instead of "%s"' % (k, pretty.pt(v), name))
    R.atleast('decision tables', 3)
    R.atleast('enclosing blocks judged', 1)
    R.atleast('kind names', 8)
    return R


# ------------------------------------------------------------------ linking
def check_links(prog):
    R = Result()
    R.rule('next', 'a node inserted after another is linked behind it, below the same parent, with its kind, data and line, no children and no suppressed checks')
    R.rule('child', 'a child is linked below its parent behind the children already there')
    R.rule('nothing', 'when nothing can be inserted the tree is unchanged and the failure is reported')
    R.rule('list', 'appending to, joining and copying lists keeps every element, in order, and puts the new ones at the end')
    for fn, child in (('insert_policy_node_next', False), ('insert_policy_node_child', True)):
        f = prog.fn(fn)
        a = tuple(P(f, i) for i in range(4))
        it = PathI(prog, deref=True)
        good = 0
        for v, st in it.call_function(f, a, State()):
            R.n('paths')
            evs = [e for e in events(st) if e.kind == 'store']
            r = fnz(st, v)
            if r is not False:
                if evs:
                    R.v('nothing', evs[0].where, '%s fails after changing the tree' % f.src)
                continue
            news = {t for e in evs for t in [e.addr[1]] if t[0] == 'call' and t[1] in ('malloc', 'calloc')}
            if len(news) != 1:
                R.v('child' if child else 'next', loc(f), '%s reports success with %d new nodes, on the path [%s]' % (f.src, len(news), pretty.pfacts(st.facts)))
                continue
            n = next(iter(news))
            good += 1
            fin = {}
            for e in evs:
                fin[e.addr] = e
            z = n[1] == 'calloc'

            def get(sf):
                e = fin.get(('fld', n, 'policy_node.' + sf))
                return strip(e.val) if e is not None else NULL if z else None
            rule = 'child' if child else 'next'
            parent = a[0] if child else F(a[0], 'policy_node.parent')
            exp = dict(parent=parent, next=NULL, first_child=NULL, flavor=a[1], data=a[2], exceptions=NULL, lineno=a[3])
            for sf, w in exp.items():
                g = get(sf)
                if g != w:
                    (R.u if odd(g) else lambda x, m: R.v(x, loc(f), m))(rule, 'the new node\'s %s is %s instead of %s, on the path [%s]' % (sf, pretty.pt(g) if g else 'not set', pretty.pt(w), pretty.pfacts(st.facts)))
            # where it is linked
            links = [e for e in fin.values() if e.val == n]
            if not child:
                ok = [e for e in links if e.addr == ('fld', a[0], 'policy_node.next')]
                if len(links) != 1 or not ok or get('prev') != a[0]:
                    R.v(rule, loc(f), '%s links the new node by %s with prev %s' % (f.src, links, pretty.pt(get('prev'))))
            else:
                fc = F(a[0], 'policy_node.first_child')
                empty = fnz(st, fc)
                if len(links) != 1 or empty is None:
                    R.v(rule, loc(f), '%s links the new node by %s' % (f.src, links))
                elif empty is False:
                    if links[0].addr != ('fld', a[0], 'policy_node.first_child') or get('prev') != NULL:
                        R.v(rule, loc(f), 'the first child is linked by %s with prev %s' % (links, pretty.pt(get('prev'))))
                else:
                    b = links[0].addr
                    last = b[0] == 'fld' and b[2] == 'policy_node.next' and any(strip(k) == strip(F(strip(b[1]), 'policy_node.next')) and x.eq == NULL for k, x in st.facts.items())
                    inl = b[0] == 'fld' and (strip(b[1]) == fc or strip(b[1])[0] == 'elem' and strip(b[1])[1] == fc)
                    if odd(b):
                        R.u(rule, '%s links the new node at %s' % (f.src, pretty.pt(b)))
                    elif not last or not inl or get('prev') != strip(b[1]):
                        R.v(rule, loc(f), 'a further child is linked at %s with prev %s' % (pretty.pt(b), pretty.pt(get('prev'))))
        if not good:
            R.v('nothing', loc(f), '%s never inserts anything' % f.src)
        R.functions |= it.visited_fn

    # ---- lists
    def last_of(st, x, l):
        s = strip(x)
        return (s == l or s[0] == 'elem' and s[1] == l) and any(strip(k) == N(s) and y.eq == NULL for k, y in st.facts.items())
    f = prog.fn('append_to_sl')
    l, s = P(f, 0), P(f, 1)
    it = PathI(prog, opaque=('sl_from_str', 'sl_from_str_consume'), deref=True)
    for v, st in it.call_function(f, (l, s), State()):
        R.n('list paths')
        w = [e for e in events(st) if e.kind == 'store' and e.addr[0] == 'fld' and e.addr[2] == 'string_list.next']
        if any(k[0] == 'call' and k[1].startswith('sl_from') and x.eq == NULL for k, x in st.facts.items()):
            continue
        if fnz(st, l) is False:
            if w or fnz(st, v) is False:
                R.v('list', loc(f), 'appending to no list reports %s' % pretty.pt(v))
            continue
        if len(w) != 1 or not last_of(st, w[0].addr[1], l) or fnz(st, v) is not False:
            (R.u if w and odd(w[0].addr) else lambda x, m: R.v(x, loc(f), m))('list', 'appending stores %s and returns %s, on the path [%s]' % (w, pretty.pt(v), pretty.pfacts(st.facts)))
        elif not (w[0].val[0] == 'call' and w[0].val[1] == 'sl_from_str' and w[0].val[2][0] == s):
            (R.u if w[0].val[0] == 'call' and w[0].val[1] != 'sl_from_str' else lambda x, m: R.v(x, loc(f), m))('list', 'appending links %s' % pretty.pt(w[0].val))
    R.functions |= it.visited_fn
    f = prog.fn('concat_string_lists')
    h, t = P(f, 0), P(f, 1)
    it = PathI(prog, deref=True)
    for v, st in it.call_function(f, (h, t), State()):
        R.n('list paths')
        w = [e for e in events(st) if e.kind == 'store']
        if fnz(st, h) is False:
            if v != t and fnz(st, t) is not False or w:
                R.v('list', loc(f), 'joining nothing with a list yields %s' % pretty.pt(v))
        elif v != h:
            R.v('list', loc(f), 'joining two lists yields %s instead of the first' % pretty.pt(v))
        elif fnz(st, t) is False and not w:
            pass
        elif len(w) != 1 or w[0].val != t or not last_of(st, w[0].addr[1], h):
            (R.u if w and odd(w[0].addr) else lambda x, m: R.v(x, loc(f), m))('list', 'joining stores %s, on the path [%s]' % (w, pretty.pfacts(st.facts)))
    R.functions |= it.visited_fn
    f = prog.fn('copy_string_list')
    l = P(f, 0)
    cells = []

    def on_copy(it, st, fn, header, evs, killed):
        e = [strip(g) for g in killed if g[0] == 'elem' and strip(g)[1] == l]
        if not e:
            return
        e = e[0]
        R.n('list elements copied')
        w = [x for x in evs if x.kind == 'store' and x.addr[0] == 'fld']
        s = [x for x in w if x.addr[2] == 'string_list.string']
        b = [x for x in w if x.addr[2] == 'string_list.has_incorrect_space']
        src = F(e, 'string_list.string')
        if len(s) != 1 or not (s[0].val[0] == 'call' and s[0].val[1] == 'strdup' and strip(s[0].val[2][0]) == src):
            inl = [x for x in evs if x.kind == 'call' and any(strip(y) == src for y in x.args)]
            (R.u if inl and not s else lambda x, m: R.v(x, loc(fn), m))('list', 'an element is copied by %s' % (s or 'nothing'))
        if len(b) != 1 or strip(b[0].val) != F(e, 'string_list.has_incorrect_space') or s and b[0].addr[1] != s[0].addr[1]:
            (R.u if not s else lambda x, m: R.v(x, loc(fn), m))('list', 'the space mark of an element is copied by %s' % (b or 'nothing'))
    it = PathI(prog, on_iter=on_copy, deref=True)
    for v, st in it.call_function(f, (l,), State()):
        if fnz(st, l) is False:
            if v != NULL:
                R.v('list', loc(f), 'copying no list yields %s' % pretty.pt(v))
        elif not any(strip(k)[0] == 'elem' and strip(k)[1] == l and x.eq == NULL for k, x in st.facts.items()):
            R.v('list', loc(f), 'copying stops before the last element, on the path [%s]' % pretty.pfacts(st.facts))
    R.functions |= it.visited_fn
    # single element lists
    for fn in ('sl_from_str', 'sl_from_strn', 'sl_from_str_consume'):
        f = prog.fn(fn)
        a = tuple(P(f, i) for i in range(len(f.params)))
        it = PathI(prog)
        for v, st in it.call_function(f, a, State()):
            if v == NULL or fnz(st, v) is False:
                continue
            R.n('list paths')
            fin = {e.addr: strip(e.val) for e in events(st) if e.kind == 'store'}
            z = v[0] == 'call' and v[1] == 'calloc'
            s = fin.get(('fld', v, 'string_list.string'))
            want = {'sl_from_str': ('call', 'strdup', (a[0],)), 'sl_from_strn': ('call', 'strndup', a), 'sl_from_str_consume': a[0]}[fn]
            if s != want:
                (R.u if s is None or odd(s) else lambda x, m: R.v(x, loc(f), m))('list', '%s makes an element holding %s' % (fn, pretty.pt(s) if s else 'nothing'))
            for sf in ('next', 'has_incorrect_space'):
                g = fin.get(('fld', v, 'string_list.' + sf), NULL if z else None)
                if g != NULL:
                    R.v('list', loc(f), '%s leaves the %s of the element %s' % (fn, sf, pretty.pt(g) if g else 'uninitialised'))
        R.functions |= it.visited_fn
    # file lists
    f = prog.fn('file_list_push_back')
    l, x = P(f, 0), P(f, 1)
    tl = F(l, 'policy_file_list.tail')
    it = PathI(prog)
    for v, st in it.call_function(f, (l, x), State()):
        R.n('list paths')
        ev = [e for e in events(st) if e.kind == 'store']
        fin = {strip(e.addr): strip(e.val) for e in ev}
        news = {strip(e.val) for e in ev if e.val[0] == 'call' and e.val[1] in ('malloc', 'calloc')}
        if len(news) != 1:
            R.v('list', loc(f), 'queueing a file makes %d entries' % len(news))
            continue
        n = next(iter(news))
        emp = fnz(st, tl)
        if emp is None:
            emp = fnz(st, F(l, 'policy_file_list.head'))
        g = lambda a: fin.get(a)
        new_t = g(('fld', l, 'policy_file_list.tail'))
        okt = new_t == n or new_t == F(tl, 'policy_file_node.next')
        nodes = {n, F(tl, 'policy_file_node.next'), ('ld', ('fld', l, 'policy_file_list.tail'))}
        file_ok = any(fin.get(('fld', y, 'policy_file_node.file')) == x for y in nodes)
        next_ok = n[1] == 'calloc' or any(fin.get(('fld', y, 'policy_file_node.next')) == NULL for y in nodes)
        if not okt or not file_ok or not next_ok:
            R.v('list', loc(f), 'queueing a file stores %s' % ['%s := %s' % (pretty.pt(p), pretty.pt(q)) for p, q in fin.items()])
        if emp is False:
            if g(('fld', l, 'policy_file_list.head')) != n:
                R.v('list', loc(f), 'the first queued file does not become the head of the list')
        elif emp is True:
            if g(('fld', tl, 'policy_file_node.next')) != n or ('fld', l, 'policy_file_list.head') in fin:
                R.v('list', loc(f), 'a queued file is not linked behind the last one')
        else:
            R.u('list', 'queueing decides by [%s]' % pretty.pfacts(st.facts))
    R.functions |= it.visited_fn
    R.atleast('paths', 4)
    R.atleast('list paths', 9)
    R.atleast('list elements copied', 1)
    return R


# ------------------------------------------------------------------ releasing
# releaser -> (struct, owned members and how each is released)
FR, FSL = ('free',), ('free_string_list',)
OWN = {
    'free_header_data': {'header_data.module_name': FR},
    'free_av_rule_data': {'av_rule_data.sources': FSL, 'av_rule_data.targets': FSL, 'av_rule_data.object_classes': FSL, 'av_rule_data.perms': FSL},
    'free_xav_rule_data': {'xav_rule_data.sources': FSL, 'xav_rule_data.targets': FSL, 'xav_rule_data.object_classes': FSL, 'xav_rule_data.operation': FR, 'xav_rule_data.perms': FSL},
    'free_ra_data': {'role_allow_data.from': FSL, 'role_allow_data.to': FSL},
    'free_rtyp_data': {'role_types_data.role': FR, 'role_types_data.types': FSL},
    'free_type_transition_data': {'type_transition_data.sources': FSL, 'type_transition_data.targets': FSL, 'type_transition_data.object_classes': FSL,
                                  'type_transition_data.default_type': FR, 'type_transition_data.name': FR},
    'free_role_transition_data': {'role_transition_data.sources': FSL, 'role_transition_data.targets': FSL, 'role_transition_data.object_classes': FSL, 'role_transition_data.default_role': FR},
    'free_if_call_data': {'if_call_data.name': FR, 'if_call_data.args': FSL},
    'free_declaration_data': {'declaration_data.attrs': FSL, 'declaration_data.name': FR},
    'free_fc_entry': {'fc_entry.path': FR, 'fc_entry.context': ('free_sel_context',)},
    'free_sel_context': {'sel_context.user': FR, 'sel_context.role': FR, 'sel_context.type': FR, 'sel_context.range': FR},
    'free_attribute_data': {'attribute_data.type': FR, 'attribute_data.attrs': FSL},
    'free_gen_require_data': {},
    'free_check_result': {'check_result.message': FR},
}
NODEREL = {'NODE_HEADER': 'free_header_data', 'NODE_AV_RULE': 'free_av_rule_data', 'NODE_XAV_RULE': 'free_xav_rule_data', 'NODE_ROLE_ALLOW': 'free_ra_data',
           'NODE_ROLE_TYPES': 'free_rtyp_data', 'NODE_TT_RULE': 'free_type_transition_data', 'NODE_RT_RULE': 'free_role_transition_data', 'NODE_IF_CALL': 'free_if_call_data',
           'NODE_DECL': 'free_declaration_data', 'NODE_FC_ENTRY': 'free_fc_entry', 'NODE_TYPE_ATTRIBUTE': 'free_attribute_data', 'NODE_ROLE_ATTRIBUTE': 'free_attribute_data',
           'NODE_GEN_REQ': 'free_gen_require_data'}
RELEASERS = tuple(OWN) + ('free_string_list', 'free_policy_node', 'free', 'free_decl_list', 'free_if_call_list')


def released(st, evs, obj, own, R, rule, f, what):
    """every owned member of obj released exactly once, with its releaser, before obj itself, obj last and once"""
    fr = [(i, e) for i, e in enumerate(evs) if e.kind == 'call' and e.name in RELEASERS]
    me = [(i, e) for i, e in fr if e.name == 'free' and strip(e.args[0]) == obj]
    if len(me) != 1:
        R.v(rule, loc(f), '%s itself is released %d times, on the path [%s]' % (what, len(me), pretty.pfacts(st.facts)))
    end = me[0][0] if me else 10 ** 9
    for m, how in own.items():
        mem = F(obj, m)
        r = [(i, e) for i, e in fr if strip(e.args[0]) == mem or same_member(e.args[0]) == mem]
        # released piecewise by its own members (helper inlined)
        if not r:
            if fnz(st, mem) is False:
                continue
            if any(e.name in RELEASERS and contains(strip(e.args[0]), {mem}) for _, e in fr):
                R.n('members released by an inlined releaser')
                continue
            R.v(rule, loc(f), 'the %s of %s is not released, on the path [%s]' % (m.split('.')[-1], what, pretty.pfacts(st.facts)))
            continue
        if len(r) > 1:
            R.v(rule, r[1][1].where, 'the %s of %s is released twice' % (m.split('.')[-1], what))
        if r[0][1].name not in how:
            R.v(rule, r[0][1].where, 'the %s of %s is released by %s instead of %s' % (m.split('.')[-1], what, r[0][1].name, how[0]))
    for e in evs:
        if e.kind == 'uaf':
            R.v(rule, e.where, '%s is accessed after it was released' % pretty.pt(e.addr))
    known = {F(obj, m) for m in own} | {obj}
    for i, e in fr:
        s = strip(e.args[0])
        if s[0] == 'ld' and s[1][0] == 'fld' and s[1][1] == obj and same_member(s) not in known and s not in known:
            R.v(rule, e.where, '%s releases %s, which %s does not own' % (f.src, pretty.pt(s), what))


def check_release(prog):
    R = Result()
    R.rule('owned', 'releasing a statement\'s data releases each member it owns exactly once, by the matching releaser, then the data itself; nothing it does not own')
    for fn, own in OWN.items():
        if fn not in prog.funcs:
            continue
        f = prog.fn(fn)
        obj = P(f, 0)
        it = PathI(prog, opaque=tuple(x for x in RELEASERS if x != fn), uaf=RELEASERS)
        R.n('releasers')
        for v, st in it.call_function(f, (obj,), State()):
            evs = events(st)
            if fnz(st, obj) is False:
                if [e for e in evs if e.name in RELEASERS and strip(e.args[0]) != NULL and e.args[0] != obj]:
                    R.v('owned', loc(f), '%s releases something when given nothing' % f.src)
                continue
            R.n('paths')
            released(st, evs, obj, own, R, 'owned', f, own and next(iter(own)).split('.')[0] or 'the data')
        R.functions |= it.visited_fn
    R.atleast('releasers', 10)
    return R
