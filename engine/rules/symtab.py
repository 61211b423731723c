"""R09: the symbol tables behind every check."""
from ..absint import State, NULL, contains, walk
from ..core import Result, loc
from ..paths import PathI, events, fnz, fval
from ..tables import strip
from .. import pretty

KINDS = ('DECL_TYPE', 'DECL_ROLE', 'DECL_USER', 'DECL_ATTRIBUTE', 'DECL_ATTRIBUTE_ROLE', 'DECL_BOOL', 'DECL_CLASS', 'DECL_PERM')
# lookup function, insert function, key field, what is stored in which field (None: not checked here), count function
PAIRS = (
    ('modules', 'look_up_in_mods_map', 'insert_into_mods_map', None),
    ('module layers', 'look_up_in_mod_layers_map', 'insert_into_mod_layers_map', None),
    ('interfaces', 'look_up_in_ifs_map', 'insert_into_ifs_map', None),
    ('permission macros', 'look_up_in_permmacros_map', 'insert_into_permmacros_map', 'permmacros_map_count'),
)
FLAGS = (('transform interfaces', 'is_transform_if', 'mark_transform_if'),
         ('filetrans interfaces', 'is_filetrans_if', 'mark_filetrans_if'),
         ('role interfaces', 'is_role_if', 'mark_role_if'))


def P(f, i):
    return ('p', f.name, f.params[i])


def isfind(t):
    return t[0] == 'call' and t[1] == '__vf_hash_find'


def finds(st, extra=()):
    out = []
    for src in list(st.facts) + list(extra):
        if not isinstance(src, tuple):
            continue
        for x in walk(src):
            if isfind(x) and x not in out:
                out.append(x)
    return out


def table_of(t):
    """(head global, handle) of a find / add / del / count term or event"""
    a = t[2] if isinstance(t, tuple) else t.args
    h, hh = a[0], a[1]
    h = strip(h)
    if h[0] == 'ld':
        h = h[1]
    return (h, hh[1] if hh[0] == 's' else hh)


def keyok(t, name):
    return t[2][2] == name and (t[2][3] == ('call', 'strlen', (name,)))


def remembered(prog, st, heads, heap_ok):
    """mutable globals other than table heads that decided the path"""
    out = set()
    for k in st.facts:
        for x in walk(k):
            if x[0] == 'ld' and x[1][0] == 'g' and x[1] not in heads:
                out.add(x[1])
            if x[0] == 'ld' and x[1][0] in ('fld', 'idx'):
                r = x[1]
                while r[0] in ('fld', 'idx'):
                    r = r[1]
                if r[0] == 'g' and r not in heads:
                    out.add(r)
    return out


def run(prog, fn, args, **kw):
    f = prog.fn(fn)
    it = PathI(prog, **kw)
    return it, it.call_function(f, args, State())


class Tab:
    pass


def check_tables(prog):
    R = Result()
    R.rule('lookup', 'a lookup answers from the table of its kind: the recorded value when the name is in it, nothing otherwise')
    R.rule('insert', 'recording a name adds it, as copies, to the table its lookup reads, exactly when it is not there yet; the first recording wins')
    R.rule('separate', 'no two kinds of name share a table or a link handle')
    R.rule('count', 'a count is the number of entries of the table of that kind')
    R.rule('flags', 'marking an interface makes the corresponding question answer yes for exactly that name')
    R.rule('release', 'releasing the tables empties every one of them and frees each entry\'s key and value once')
    R.rule('remembered', 'a lookup does not answer from remembered results that recording or releasing leaves stale')
    used = {}
    lookups = []      # (label, fn, args, name term)
    inserts = []
    dl, di, dc = prog.fn('look_up_in_decl_map'), prog.fn('insert_into_decl_map'), prog.fn('decl_map_count')
    for k in KINDS:
        v = ('i', prog.enum(k))
        lookups.append((k, dl, (P(dl, 0), v), P(dl, 0), 'val'))
        inserts.append((k, di, (P(di, 0), P(di, 1), v), P(di, 0), P(di, 1)))
    for label, lf, inf, cf in PAIRS:
        f, g = prog.fn(lf), prog.fn(inf)
        lookups.append((label, f, (P(f, 0),), P(f, 0), 'val'))
        inserts.append((label, g, (P(g, 0), P(g, 1)), P(g, 0), P(g, 1)))
    tf = prog.fn('look_up_in_template_map')
    lookups.append(('templates', tf, (P(tf, 0),), P(tf, 0), None))
    caches = set()
    for label, f, args, name, field in lookups:
        it = PathI(prog)
        R.functions.add(f.name)
        for v, st in it.call_function(f, args, State()):
            R.n('lookup paths')
            fs = finds(st, (v,))
            heads = {table_of(t)[0] for t in fs}
            if fnz(st, name) is False:
                if v != NULL:
                    R.v('lookup', loc(f), 'looking up no name at all in the %s table yields %s' % (label, pretty.pt(v)))
                continue
            rem = remembered(prog, st, heads | {h for h, _ in used.values()}, None)
            if len(fs) != 1:
                if rem:
                    caches |= {(g, label, f) for g in rem}
                elif any(x[0] in ('op', 'hv', 'phi', 'elem', 'iter') for k in st.facts for x in walk(k)):
                    R.u('lookup', '%s: lookup decided by [%s]' % (label, pretty.pfacts(st.facts)))
                else:
                    R.v('lookup', loc(f), 'a lookup of %s asks %d tables on the path [%s]' % (label, len(fs), pretty.pfacts(st.facts)))
                continue
            t = fs[0]
            if not keyok(t, name):
                R.v('lookup', loc(f), 'the lookup of %s searches for key %s of length %s, not for the name asked for' % (label, pretty.pt(t[2][2]), pretty.pt(t[2][3])))
            if label in used and used[label] != table_of(t):
                R.v('lookup', loc(f), 'the lookup of %s reads different tables on different paths' % label)
            used[label] = table_of(t)
            found = fnz(st, t)
            val = strip(v)
            if field is None:
                ok = v == t or found is False and v == NULL
                if not ok:
                    R.v('lookup', loc(f), 'the lookup of %s answers %s' % (label, pretty.pt(v)))
                continue
            if rem:
                caches |= {(g, label, f) for g in rem}
                continue
            is_field = val[0] == 'ld' and val[1][0] == 'fld' and strip(val[1][1]) == strip(t) and val[1][2].endswith('.' + field)
            if found is False and v != NULL or found is True and not is_field or found is None:
                R.v('lookup', loc(f), 'the lookup of %s answers %s where the name is %s the table, on the path [%s]' % (
                    label, pretty.pt(v), 'in' if found else 'not in' if found is False else 'perhaps in', pretty.pfacts(st.facts)))
        R.functions |= it.visited_fn
    # unknown kinds
    it = PathI(prog)
    st0 = State()
    for k in KINDS:
        st0.assume_ne(P(dl, 1), ('i', prog.enum(k)))
    for v, st in it.call_function(dl, (P(dl, 0), P(dl, 1)), st0):
        if v != NULL:
            R.v('lookup', loc(dl), 'a lookup of a kind of name that has no table answers %s' % pretty.pt(v))
    # ---- flags
    for label, isf, mark in FLAGS:
        f, g = prog.fn(isf), prog.fn(mark)
        it = PathI(prog)
        name = P(f, 0)
        for v, st in it.call_function(f, (name,), State()):
            R.n('lookup paths')
            fs = finds(st, (v,))
            rem = remembered(prog, st, {table_of(t)[0] for t in fs}, None)
            if rem:
                caches |= {(x, label, f) for x in rem}
                continue
            if len(fs) != 1:
                R.v('flags', loc(f), 'the question whether a name is among the %s looks into %d tables on the path [%s]' % (label, len(fs), pretty.pfacts(st.facts)))
                continue
            t = fs[0]
            if not keyok(t, name):
                R.v('flags', loc(f), 'the question about %s is asked for key %s length %s' % (label, pretty.pt(t[2][2]), pretty.pt(t[2][3])))
            used[label] = table_of(t)
            found = fnz(st, t)
            flag = None
            for k, x in st.facts.items():
                s = strip(k)
                if s[0] == 'ld' and s[1][0] == 'fld' and s[1][1] == strip(t) and s[1][2].endswith('.val'):
                    flag = fnz(st, k)
                    if flag is None or flag and x.eq is None or x.ne and ('i', 1) in x.ne:
                        flag = False if x.ne and ('i', 1) in x.ne else flag
            ans = fnz(st, v)
            if found is False and ans is not False or found is True and flag is True and ans is not True or found is True and flag is False and ans is not False:
                R.v('flags', loc(f), 'the question about %s answers %s where the name is %s and the mark is %s' % (label, pretty.pt(v), 'known' if found else 'not known', flag))
            elif found is True and flag is None and ans is None:
                sv = strip(v)
                if not (contains(sv, {strip(t)})):
                    R.u('flags', '%s answers %s' % (f.src, pretty.pt(v)))
            elif found is None:
                R.v('flags', loc(f), 'the question about %s answers %s without a search result, on the path [%s]' % (label, pretty.pt(v), pretty.pfacts(st.facts)))
        it = PathI(prog)
        name = P(g, 0)
        for v, st in it.call_function(g, (name,), State()):
            R.n('insert paths')
            ev = events(st)
            adds = [e for e in ev if e.name == '__vf_hash_add']
            fs = [t for t in finds(st, [x for e in ev for x in e.args]) if keyok(t, name)]
            rel = [t for t in fs if table_of(t) == used.get(label)]
            if len(rel) != 1:
                R.v('flags', loc(g), 'marking one of the %s does not search the table the question reads' % label)
                continue
            el = rel[0]
            if fnz(st, el) is False:
                if len(adds) != 1 or table_of(adds[0]) != used[label]:
                    R.v('flags', loc(g), 'marking a new one of the %s adds it to %s' % (label, ', '.join(pretty.pt(table_of(a)[0]) for a in adds) or 'no table'))
                    continue
                el = adds[0].args[4]
                addcheck(R, st, ev, adds[0], name, None, label, g, 'flags')
            elif adds:
                R.v('flags', adds[0].where, 'marking a known one of the %s adds it a second time' % label)
            w = [e for e in ev if e.kind == 'store' and e.addr[0] == 'fld' and e.addr[1] == el and e.addr[2].endswith('.val')]
            if not w or fval(st, w[-1].val) not in (('i', 1),):
                if not (not w and known_one(st, el)):
                    R.v('flags', loc(g), 'marking one of the %s leaves the mark %s' % (label, pretty.pt(w[-1].val) if w else 'unset'))
        R.functions |= it.visited_fn | {f.name, g.name}
    # ---- separation
    seen_h, seen_hh = {}, {}
    for label, (h, hh) in used.items():
        if h in seen_h:
            R.v('separate', 'maps', 'the names of %s and %s are kept in one table' % (label, seen_h[h]))
        seen_h[h] = label
    # ---- inserts
    for label, f, args, name, val in inserts:
        it = PathI(prog)
        for v, st in it.call_function(f, args, State()):
            R.n('insert paths')
            ev = events(st)
            adds = [e for e in ev if e.name in ('__vf_hash_add', '__vf_hash_replace')]
            dels = [e for e in ev if e.name in ('__vf_hash_del', '__vf_hash_clear')]
            for d in dels:
                R.v('insert', d.where, 'recording %s removes an entry' % label)
            fs = [t for t in finds(st, [x for e in ev for x in e.args if x]) if table_of(t) == used.get(label)]
            if fnz(st, name) is False:
                continue
            if len(fs) != 1:
                R.v('insert', loc(f), 'recording %s does not look for the name in the table that is searched by lookups (%s), on the path [%s]' % (
                    label, pretty.pt(used[label][0]) if label in used else '?', pretty.pfacts(st.facts)))
                continue
            t = fs[0]
            if not keyok(t, name):
                R.v('insert', loc(f), 'recording %s searches for key %s of length %s' % (label, pretty.pt(t[2][2]), pretty.pt(t[2][3])))
            found = fnz(st, t)
            if found is True:
                for a in adds:
                    R.v('insert', a.where, 'recording a known name of %s adds it a second time' % label)
                for e in ev:
                    if e.kind == 'store' and contains(e.addr, {t}):
                        R.v('insert', e.where, 'a later recording of a name of %s changes the first one' % label)
            elif found is False:
                if len(adds) != 1 or table_of(adds[0]) != used[label]:
                    R.v('insert', adds[0].where if adds else loc(f), 'recording a new name of %s adds it to %s instead of the table lookups read' % (
                        label, ' and '.join('%s/%s' % (pretty.pt(table_of(a)[0]), table_of(a)[1]) for a in adds) or 'no table'))
                else:
                    addcheck(R, st, ev, adds[0], name, val, label, f, 'insert')
            else:
                R.v('insert', loc(f), 'recording a name of %s does not depend on whether it is known, on the path [%s]' % (label, pretty.pfacts(st.facts)))
        R.functions |= it.visited_fn
    # ---- templates
    for fn, n in (('insert_template_into_template_map', 1), ('insert_decl_into_template_map', 3), ('insert_call_into_template_map', 2)):
        f = prog.fn(fn)
        args = tuple(P(f, i) for i in range(n))
        it = PathI(prog)
        fieldn = {'insert_decl_into_template_map': 'declarations', 'insert_call_into_template_map': 'calls'}.get(fn)
        for v, st in it.call_function(f, args, State()):
            R.n('insert paths')
            ev = events(st)
            adds = [e for e in ev if e.name == '__vf_hash_add']
            fs = [t for t in finds(st, [x for e in ev for x in e.args + ((e.addr,) if e.addr else ())]) if table_of(t) == used.get('templates')]
            if len(fs) != 1 or not keyok(fs[0], args[0]):
                R.v('insert', loc(f), '%s does not search the template table for the template name, on the path [%s]' % (fn, pretty.pfacts(st.facts)))
                continue
            t = fs[0]
            found = fnz(st, t)
            el = t
            if found is False:
                if len(adds) != 1 or table_of(adds[0]) != used['templates']:
                    R.v('insert', loc(f), 'an unknown template is not added to the template table by %s' % fn)
                    continue
                el = adds[0].args[4]
                addcheck(R, st, ev, adds[0], args[0], None, 'templates', f, 'insert', keyfield='.name')
                for fld_ in ('declarations', 'calls'):
                    w = [e for e in ev if e.kind == 'store' and e.addr[0] == 'fld' and e.addr[1] == el and e.addr[2].endswith('.' + fld_)]
                    z = any(e.name == 'calloc' and e.ret == el for e in ev) or st.mem.get(('zero', el)) is not None
                    if fld_ != fieldn and (not w or w[-1].val != NULL) and not z:
                        R.v('insert', loc(f), 'a new template starts with %s %s' % (fld_, pretty.pt(w[-1].val) if w else 'uninitialised'))
            elif found is True and adds:
                R.v('insert', adds[0].where, 'a known template is added a second time')
            elif found is None:
                R.v('insert', loc(f), '%s does not depend on whether the template is known' % fn)
                continue
            if fieldn is None:
                for e in ev:
                    if e.kind == 'store' and found is True and contains(e.addr, {t}):
                        R.v('insert', e.where, 'defining a known template again changes its contents')
                continue
            # the new node is linked at the end of the list of this template
            nodes = [e.ret for e in ev if e.name in ('malloc', 'calloc')]
            links = [e for e in ev if e.kind == 'store' and e.val in nodes and (e.addr[0] == 'fld' and (e.addr[2].endswith('.' + fieldn) or e.addr[2].endswith('_list.next'))) and not (e.addr[1] in nodes and e.addr[1] != el)]
            if len(links) != 1:
                R.v('insert', loc(f), '%s links the new entry into %d places of the template, on the path [%s]' % (fn, len(links), pretty.pfacts(st.facts)))
                continue
            l = links[0]
            head = ('fld', el, 'template_hash_elem.' + fieldn)
            if l.addr == head:
                cur = fnz(st, ('ld', head))
                emptied = any(e.kind == 'store' and e.addr == head and e.val == NULL for e in ev[:ev.index(l)])
                if cur is not False and not (found is False and emptied) and not any(e.name == 'calloc' and e.ret == el for e in ev):
                    nx = [e for e in ev if e.kind == 'store' and e.addr[0] == 'fld' and e.addr[1] == l.val and e.addr[2].endswith('.next')]
                    R.v('insert', l.where, '%s replaces or reorders the entries already recorded for the template' % fn)
            else:
                tail = l.addr[1]
                n0 = ('ld', l.addr)
                if fnz(st, n0) is not False:
                    R.v('insert', l.where, '%s links the new entry behind an entry that is not the last one, losing the ones after it' % fn)
                r = strip(tail)
                if not contains(r, {strip(('ld', head))}):
                    R.u('insert', '%s: appended to %s' % (l.where, pretty.pt(tail)))
            node = l.val
            nx = [e for e in ev if e.kind == 'store' and e.addr[0] == 'fld' and e.addr[1] == node and e.addr[2].endswith('.next')]
            if (not nx or nx[-1].val != NULL) and not any(e.name == 'calloc' and e.ret == node for e in ev):
                R.v('insert', l.where, 'the new entry of %s is not the end of the list' % fn)
            pay = [e for e in ev if e.kind == 'store' and e.addr[0] == 'fld' and e.addr[1] == node and not e.addr[2].endswith('.next')]
            if fieldn == 'calls':
                if len(pay) != 1 or pay[0].val != args[1]:
                    R.v('insert', l.where, 'the call recorded in the template is %s' % ', '.join(pretty.pt(e.val) for e in pay))
            elif pay:
                d = pay[-1].val
                fl = [e.val for e in ev if e.kind == 'store' and e.addr == ('fld', d, 'declaration_data.flavor')]
                nm = [e.val for e in ev if e.kind == 'store' and e.addr == ('fld', d, 'declaration_data.name')]
                at = [e.val for e in ev if e.kind == 'store' and e.addr == ('fld', d, 'declaration_data.attrs')]
                if fl[-1:] != [args[1]]:
                    R.v('insert', l.where, 'the declaration recorded in the template has kind %s' % (pretty.pt(fl[-1]) if fl else 'unset'))
                if not nm or not (nm[-1][0] == 'call' and nm[-1][1] == 'strdup' and nm[-1][2] == (args[2],)):
                    R.v('insert', l.where, 'the declaration recorded in the template is named %s, not a copy of the declared name' % (pretty.pt(nm[-1]) if nm else 'nothing'))
                if (not at or at[-1] != NULL) and not any(e.name == 'calloc' and e.ret == d for e in ev):
                    R.v('insert', l.where, 'the attribute list of a recorded template declaration is %s' % (pretty.pt(at[-1]) if at else 'uninitialised'))
        R.functions |= it.visited_fn
    for fn, fld_ in (('look_up_decl_in_template_map', 'declarations'), ('look_up_call_in_template_map', 'calls')):
        f = prog.fn(fn)
        it = PathI(prog)
        for v, st in it.call_function(f, (P(f, 0),), State()):
            R.n('lookup paths')
            fs = [t for t in finds(st, (v,)) if table_of(t) == used.get('templates') and keyok(t, P(f, 0))]
            if len(fs) != 1:
                R.v('lookup', loc(f), '%s does not search the template table for the name asked for' % fn)
                continue
            found = fnz(st, fs[0])
            sv = strip(v)
            want = ('ld', ('fld', strip(fs[0]), 'template_hash_elem.' + fld_))
            if found is False and v != NULL or found is True and sv != want and fnz(st, want) is not False:
                R.v('lookup', loc(f), '%s answers %s' % (fn, pretty.pt(v)))
        R.functions |= it.visited_fn
    # ---- counts
    cnts = [(k, dc, (('i', prog.enum(k)),)) for k in KINDS] + [(l, prog.fn(c), ()) for l, _, _, c in PAIRS if c]
    for label, f, args in cnts:
        it = PathI(prog)
        for v, st in it.call_function(f, args, State()):
            R.n('count paths')
            if v[0] == 'call' and v[1] == '__vf_hash_count':
                if table_of(v) != used.get(label):
                    R.v('count', loc(f), 'the count of %s is that of %s/%s' % ((label,) + tuple(map(str, (pretty.pt(table_of(v)[0]), table_of(v)[1])))))
            elif v[0] == 'i':
                R.v('count', loc(f), 'the count of %s is the constant %s on the path [%s]' % (label, pretty.pt(v), pretty.pfacts(st.facts)))
            else:
                R.u('count', '%s counts %s' % (label, pretty.pt(v)))
        R.functions |= it.visited_fn
    # ---- release
    f = prog.fn('free_all_maps')
    freed = {}

    def on_iter(it, st, fn, header, evs, killed):
        dl_ = [e for e in evs if e.name == '__vf_hash_del']
        fr = [e for e in evs if e.name == 'free']
        for d in dl_:
            R.n('release loops')
            tb = table_of(d)
            el = d.args[2]
            els = [e.args[0] for e in fr]
            selfr = [k for k, e in enumerate(fr) if e.args[0] == el]
            if len(selfr) != 1:
                R.v('release', d.where, 'an entry of %s is freed %d times' % (pretty.pt(tb[0]), len(selfr)))
                continue
            for k, e in enumerate(evs):
                if e is fr[selfr[0]]:
                    for e2 in evs[k + 1:]:
                        if any(contains(a, {el}) for a in e2.args):
                            R.v('release', e2.where, 'an entry of %s is used after it was freed' % pretty.pt(tb[0]))
                    if evs.index(d) > k:
                        R.v('release', d.where, 'an entry of %s is unlinked after it was freed' % pretty.pt(tb[0]))
            sub = []
            for e in evs:
                if e.kind == 'call' and e.name and e.name.startswith('free') and e.args[0] != el:
                    s = strip(e.args[0])
                    if s[0] == 'ld' and s[1][0] == 'fld' and s[1][1] == strip(el):
                        sub.append(s[1][2].split('.')[1])
            freed.setdefault(tb, []).append(tuple(sorted(sub)))
        if fr and not dl_:
            heads = {x for e in fr for x in walk(e.args[0]) if x[0] == 'g'}
            for h in heads & {u[0] for u in used.values()}:
                R.v('release', fr[0].where, 'entries of %s are freed but stay in the table' % pretty.pt(h))
    it = PathI(prog, on_iter=on_iter, opaque={'free_string_list', 'free_decl_list', 'free_if_call_list'}, keep_facts=lambda k, v: False)
    rets = it.call_function(f, (), State())
    R.functions |= it.visited_fn
    for label, tb in used.items():
        want = {'permission macros': ('key', 'val'), 'templates': ('calls', 'declarations', 'name')}.get(label, ('key',) if label in [x[0] for x in FLAGS] else ('key', 'val'))
        got = set(freed.get(tb, []))
        if not got:
            cleared = False
            R.v('release', loc(f), 'the table of %s is not emptied when the tables are released' % label)
        for g in got:
            if g != want:
                R.v('release', loc(f), 'an entry of the table of %s releases %s, but owns %s' % (label, ', '.join(g) or 'nothing', ', '.join(want)))
    for v, st in rets:
        ends = {}
        for k, x in st.facts.items():
            for y in walk(k):
                if y[0] == 'ld' and y[1][0] == 'g':
                    ends.setdefault(y[1], []).append((k, x))
    # ---- caches
    for g, label, f in sorted(caches, key=repr):
        writers = {}
        for fn in ('insert_into_decl_map', 'free_all_maps') if label in KINDS else ('free_all_maps',):
            h = prog.fn(fn)
            it = PathI(prog, keep_facts=None if fn != 'free_all_maps' else lambda k, v: False)
            it.keep = lambda e: e.name == '__vf_hash_add' or e.kind == 'store' and contains(e.addr, {g})
            args = tuple(P(h, i) for i in range(len(h.params)))
            ok = True
            for v, st in it.call_function(h, args, State()):
                ev = events(st)
                if (fn == 'free_all_maps' or any(e.name == '__vf_hash_add' for e in ev)) and not any(e.kind == 'store' and contains(e.addr, {g}) for e in ev):
                    ok = False
            if not ok:
                R.v('remembered', loc(f), 'a lookup of %s can answer from the remembered %s, which %s leaves stale' % (label, pretty.pt(g), fn))
            else:
                R.u('remembered', '%s remembers %s' % (f.src, pretty.pt(g)))
    R.n('tables', len(used))
    R.atleast('tables', 16)
    R.atleast('lookup paths', 30)
    R.atleast('insert paths', 30)
    R.atleast('release loops', 16)
    return R


def known_one(st, el):
    for k, x in st.facts.items():
        s = strip(k)
        if s[0] == 'ld' and s[1][0] == 'fld' and s[1][1] == strip(el) and s[1][2].endswith('.val') and x.eq == ('i', 1):
            return True
    return False


def addcheck(R, st, ev, a, name, val, label, f, rule, keyfield='.key'):
    """an added element carries a copy of the name as key, and a copy of / the value itself"""
    key, ln, el = a.args[2], a.args[3], a.args[4]
    if ln != ('call', 'strlen', (key,)) and ln != ('call', 'strlen', (name,)):
        R.v(rule, a.where, 'a new entry of %s is filed under a key of length %s' % (label, pretty.pt(ln)))
    iscopy = lambda t, of: t[0] == 'call' and t[1] == 'strdup' and t[2] == (of,) or t[0] == 'call' and t[1] == 'strndup' and t[2] == (of, ('call', 'strlen', (of,)))
    if not iscopy(key, name):
        R.v(rule, a.where, 'a new entry of %s is filed under %s, not under a copy of the name' % (label, pretty.pt(key)))
    before = ev[:ev.index(a)]
    kf = [e.val for e in ev if e.kind == 'store' and e.addr[0] == 'fld' and e.addr[1] == el and e.addr[2].endswith(keyfield)]
    if kf[-1:] != [key]:
        R.v(rule, a.where, 'a new entry of %s does not own its key' % label)
    if val is not None:
        vf = [e.val for e in ev if e.kind == 'store' and e.addr[0] == 'fld' and e.addr[1] == el and e.addr[2].endswith('.val')]
        isl = label == 'permission macros'
        if not vf or not (vf[-1] == val if isl else iscopy(vf[-1], val)):
            R.v(rule, a.where, 'a new entry of %s records %s instead of %s' % (label, pretty.pt(vf[-1]) if vf else 'nothing', 'the value given' if isl else 'a copy of the value given'))
