"""R12: what the configuration file says is what the run uses."""
from ..absint import State, NULL, contains, walk, mk_idx
from ..core import Result, loc
from ..paths import PathI, Ev, events, fnz, fval
from ..tables import strip
from .. import pretty

SEV = {'convention': 'C', 'style': 'S', 'warning': 'W', 'error': 'E', 'fatal': 'F'}
ORD = {'refpolicy': 'ORDER_REF', 'refpolicy-light': 'ORDER_LIGHT', 'refpolicy-lax': 'ORDER_LAX'}
FLV = {'attribute': 'DECL_ATTRIBUTE', 'attribute_role': 'DECL_ATTRIBUTE_ROLE', 'bool': 'DECL_BOOL', 'class': 'DECL_CLASS', 'role': 'DECL_ROLE', 'type': 'DECL_TYPE'}
BOOL = {x: 1 for x in ('true', 'True', 'TRUE', 'yes', 'Yes', 'YES')}
BOOL.update({x: 0 for x in ('false', 'False', 'FALSE', 'no', 'No', 'NO')})
STR, LST = 2, 2 | 64
KEYS = {'severity': ('str', 'convention'), 'disable': ('list', ()), 'enable_normal': ('list', ()), 'enable_source': ('list', ()), 'assume_users': ('list', ()), 'assume_roles': ('list', ()),
        'custom_fc_macros': ('list', ()), 'custom_te_simple_macros': ('list', ()), 'ordering_rules': ('str', 'refpolicy-lax'),
        'ordering_requires': ('list', ('bool', 'class', 'role', 'attribute_role', 'attribute', 'type')), 'ordering_requires_same_flavor': ('str', 'true'), 'skip_checking_generated_fcs': ('str', 'true')}
CFG = ('p', 'libconfuse', 'cfg')


class CfgI(PathI):
    """parse_config under given contents: a value is a literal, or a symbol (then every case is followed)"""

    def __init__(self, prog, strs, lists, parse=0):
        super().__init__(prog, opaque=('insert_into_decl_map', 'free_string_list'), stores=False)
        self.strs, self.lists, self.parse = strs, lists, parse
        self.table = None
        self.odd = []

    def no_effect(self, n):
        return True

    def on_backedge(self, st, f, header, killed):
        pass

    def on_enter(self, st, f, header):
        pass

    def unrolled(self, cfg, ph, ind, val):
        return val[0] == 'i' or val == NULL or val[0] == 'call' and val[1] == 'calloc'

    def node(self, st, ins, s):
        n = sum(1 for e in st.cl if e == ('tick',))
        st.cl = st.cl + (('tick',),)
        v = ('call', 'calloc', (), (ins.uid, n))
        st.assume_ne(v, NULL)
        st.mem[('fld', v, 'string_list.string')] = ('dup', s)
        st.mem[('fld', v, 'string_list.next')] = NULL
        return v

    def on_call(self, st, ins, name, args):
        key = args[1][1] if len(args) > 1 and args[1][0] == 's' else None
        if name == 'cfg_init':
            base = args[0][1] if args[0][0] == 'idx' and args[0][2] == NULL else args[0]
            at = lambda i: ('idx', base, ('i', i))
            self.table = [[self.load(st, ('fld', at(i), 'cfg_opt_t.' + x)) for x in ('name', 'type', 'flags')]
                          + [self.load(st, ('fld', ('fld', at(i), 'cfg_opt_t.def'), 'cfg_defvalue_t.' + x)) for x in ('string', 'parsed')] for i in range(24)]
            self.ev(st, Ev('call', name, args, CFG, ins.where()))
            st.assume_ne(CFG, NULL)
            return [(CFG, st)]
        if name and name.startswith('cfg_'):
            self.ev(st, Ev('call', name, args, None, ins.where()))
        if name == 'cfg_parse':
            return [(('i', self.parse), st)]
        if name == 'cfg_getstr':
            if key not in self.strs:
                self.odd.append('%s is read as a single value at %s' % (pretty.pt(args[1]), ins.where()))
                return [(('p', 'config', 'unknown'), st)]
            v = self.strs[key]
            return [(v, st)]
        if name == 'cfg_size':
            if key not in self.lists:
                self.odd.append('%s is read as a list at %s' % (pretty.pt(args[1]), ins.where()))
                return [(NULL, st)]
            return [(('i', len(self.lists[key])), st)]
        if name == 'cfg_getnstr':
            i = args[2]
            if key not in self.lists or i[0] != 'i':
                self.odd.append('%s[%s] is read at %s' % (pretty.pt(args[1]), pretty.pt(i), ins.where()))
                return [(('p', 'config', 'unknown'), st)]
            if not 0 <= i[1] < len(self.lists[key]):
                self.ev(st, Ev('call', 'beyond', args, None, ins.where()))
                return [(NULL, st)]
            v = self.lists[key][i[1]]
            st.assume_ne(v, NULL) if v[0] == 'p' else None
            return [(v, st)]
        if name == 'cfg_free':
            return [(NULL, st)]
        if name == 'sl_from_str':
            return [(self.node(st, ins, args[0]), st)]
        if name == 'append_to_sl':
            x = args[0]
            for _ in range(8):
                y = self.load(st, ('fld', x, 'string_list.next'))
                if y[0] != 'call':
                    break
                x = y
            st.mem[('fld', x, 'string_list.next')] = self.node(st, ins, args[1])
            return [(self.load(st, ('fld', x, 'string_list.next')), st)]
        if name == 'strdup':
            st.assume_ne(('dup', args[0]), NULL)
            return [(('dup', args[0]), st)]
        return super().on_call(st, ins, name, args)


def sym(n):
    return ('p', 'config', n)


def lit(s):
    return ('s', s)


def strv(st, t):
    """('=', literal) | ('!', excluded)"""
    if t[0] == 's':
        return t[1], frozenset()
    for k, v in st.facts.items():
        if k[0] == 'strval' and strip(k[1]) == t:
            if v.eq is not None:
                return v.eq[1], frozenset()
            return None, frozenset(x[1] for x in v.ne)
    return None, frozenset()


def choice(st, t, table):
    """the documented meaning of a value: (known?, meaning or None when invalid)"""
    eq, ne = strv(st, t)
    if eq is not None:
        return True, table.get(eq)
    if set(table) <= ne:
        return True, None
    return False, None


def aslist(it, st, t):
    out = []
    while t != NULL and len(out) < 8:
        s = it.load(st, ('fld', t, 'string_list.string'))
        out.append(s)
        t = it.load(st, ('fld', t, 'string_list.next'))
        if t[0] == 'ld':
            return out + [('undef',)]
    return out


def check_config(prog, thorough=False):
    R = Result()
    R.rule('keys', 'the documented options are accepted, with the documented kind of value and default')
    R.rule('values', 'every documented value has its documented meaning, any other value is refused')
    R.rule('lists', 'every listed check, user, role and macro is taken over, in order, as a copy; enabling depends on the mode')
    R.rule('failure', 'a file that cannot be parsed, or holds an invalid value, makes the configuration fail')
    R.rule('release', 'the parsed file is released exactly once and not used after that')
    f = prog.fn('parse_config')
    dflt_s = {k: lit(d) for k, (t, d) in KEYS.items() if t == 'str'}
    dflt_l = {k: [lit(x) for x in d] for k, (t, d) in KEYS.items() if t == 'list'}
    args = (('p', f.name, 'filename'), ('i', 0)) + tuple(('al', 'caller', x, 1) for x in ('severity', 'disabled', 'enabled', 'macros', 'data'))

    def run(what, strs=None, lists=None, parse=0, mode=0, expect=None, nulls=()):
        it = CfgI(prog, dict(dflt_s, **(strs or {})), dict(dflt_l, **(lists or {})), parse)
        a = list(args)
        a[1] = ('i', mode)
        st = State()
        for i in range(2, 7):
            if i in nulls:
                a[i] = NULL
        for i in (3, 4, 5):
            st.mem[a[i]] = NULL
        st.mem[('fld', a[6], 'config_check_data.custom_te_simple_macros')] = NULL
        R.n('file contents')
        rets = it.call_function(f, tuple(a), st)
        if it.truncated:
            R.u('values', 'path limit: %s' % what)
        for o in it.odd:
            R.u('values', '%s: %s' % (what, o))
        for v, s in rets:
            R.n('outcomes')
            fr = [e for e in events(s) if e.name == 'cfg_free']
            if len(fr) != 1:
                R.v('release', fr[1].where if len(fr) > 1 else loc(f), '%s: the parsed file is released %d times' % (what, len(fr)))
            else:
                ev = events(s)
                late = [e for e in ev[ev.index(fr[0]) + 1:] if e.name.startswith('cfg_') or any(contains(x, {sym(k) for k in KEYS}) for x in e.args)]
                if late:
                    R.v('release', late[0].where, '%s: %s after the parsed file was released' % (what, late[0].name))
            for e in events(s):
                if e.name == 'beyond':
                    R.v('lists', e.where, '%s: element %s is read from a list of %d' % (what, pretty.pt(e.args[2]), len((lists or dflt_l).get(e.args[1][1], dflt_l[e.args[1][1]]))))
            if not it.odd:
                expect(it, a, v, s, what)
        R.functions |= it.visited_fn
        return it

    def okv(st, v):
        z = fnz(st, v)
        return None if z is None else not z

    def success(it, a, v, s, what):
        if okv(s, v) is not True:
            R.v('failure' if False else 'values', loc(f), '%s: the configuration is refused' % what)

    def failure(it, a, v, s, what):
        if okv(s, v) is not False:
            R.v('failure', loc(f), '%s: the configuration is accepted' % what)
    it = run('a file with the default values', expect=success)
    got = {}
    for n, t, fl, ds, dp in it.table or ():
        if n[0] != 's':
            break
        got[n[1]] = (t[1] if t[0] == 'i' else None, fl[1] if fl[0] == 'i' else None, ds, dp)
    if not got:
        R.u('keys', 'the option table handed to cfg_init cannot be read')
    else:
        cfgt = prog.enumvals.get('CFGT_STR')
        cfgt = cfgt if isinstance(cfgt, int) else 3
        for k, (kind, d) in sorted(KEYS.items()):
            R.n('documented options')
            if k not in got:
                R.v('keys', loc(f), 'the option %s is not accepted' % k)
                continue
            t, fl, ds, dp = got[k]
            if t is not None and bool(fl & 2 if fl is not None else 0) != (kind == 'list'):
                R.v('keys', loc(f), 'the option %s is %sa list' % (k, 'not ' if kind == 'list' else ''))
            if kind == 'str' and ds != ('s', d):
                R.v('keys', loc(f), 'the option %s defaults to %s instead of %s' % (k, pretty.pt(ds), d))
            if kind == 'list':
                val = tuple(dp[1].strip('{} ').replace(' ', '').split(',')) if dp[0] == 's' and dp[1].strip('{} ') else ()
                if dp[0] == 's' and val != d:
                    R.v('keys', loc(f), 'the option %s defaults to %s' % (k, dp[1]))
        for k in sorted(set(got) - set(KEYS)):
            R.sample('undocumented option %s' % k)
    # a file that cannot be opened: main asks access() first; the tests rely on the name "" giving the defaults
    run('a file with syntax errors', parse=1, expect=failure)

    def mean(field, key, table, conv):
        t = sym(key)

        def ex(it, a, v, s, what):
            known, m = choice(s, t, table)
            if not known:
                if okv(s, v) is not False:
                    R.v('values', loc(f), '%s: a value of %s is accepted without being recognised: %s' % (what, key, pretty.pfacts({k: x for k, x in s.facts.items() if contains(k, {t})})))
                else:
                    R.v('values', loc(f), '%s: %s is refused before all documented values were considered' % (what, key))
                return
            eq, ne = strv(s, t)
            if m is None:
                if okv(s, v) is not False:
                    R.v('failure', loc(f), 'a value of %s that is not documented is accepted' % key)
                return
            if okv(s, v) is not True:
                R.v('values', loc(f), 'the value %s of %s is refused' % (eq, key))
                return
            addr = a[2] if field is None else ('fld', a[6], 'config_check_data.' + field)
            g = s.mem.get(addr)
            if g is None or g[0] != 'i':
                (R.u if g is not None else lambda r, m: R.v(r, loc(f), m))('values', 'the value %s of %s sets %s' % (eq, key, pretty.pt(g) if g else 'nothing'))
            elif g[1] != conv(m):
                R.v('values', loc(f), 'the value %s of %s means %s' % (eq, key, g[1] if field else repr(chr(g[1] & 255))))
        run('any value of %s' % key, {key: t}, expect=ex)
    mean(None, 'severity', SEV, ord)
    mean('order_conf', 'ordering_rules', ORD, prog.enum)
    mean('ordering_requires_same_flavor', 'ordering_requires_same_flavor', BOOL, int)
    mean('skip_checking_generated_fcs', 'skip_checking_generated_fcs', BOOL, int)
    # ordering of requirement kinds
    DFL = [lit(x) for x in ('bool', 'class', 'role', 'attribute_role', 'attribute', 'type')]

    def req(ts):
        def ex(it, a, v, s, what):
            ms = [choice(s, t, FLV) for t in ts]
            vals = [m for k, m in ms if k and m]
            bad = any(k and m is None for k, m in ms) or len(set(vals)) < len(vals)
            if okv(s, v) is True:
                if bad or len(vals) < 6:
                    R.v('failure', loc(f), 'ordering_requires = %s is accepted' % [strv(s, t)[0] or 'other' for t in ts])
                    return
                R.n('orders accepted')
                arr = ('fld', a[6], 'config_check_data.order_requires')
                g = [it.load(s, mk_idx(arr, ('i', i), 'i32')) for i in range(6)]
                if g != [('i', prog.enum(m)) for m in vals]:
                    R.v('values', loc(f), 'ordering_requires = %s is stored as %s' % ([strv(s, t)[0] for t in ts], [pretty.pt(x) if x else None for x in g]))
            elif not bad:
                R.v('values', loc(f), 'ordering_requires = %s is refused' % [strv(s, t)[0] or 'anything' for t in ts])
        run('the order of requirement kinds %s' % [t[1] if t[0] == 's' else '*' for t in ts], lists={'ordering_requires': ts}, expect=ex)
    for pos in ([(0, 1, 2, 3), (2, 3, 4, 5), (0, 1, 4, 5), (0, 2, 3, 5)] if thorough else [(0, 1, 2), (3, 4, 5), (0, 3, 5), (1, 2, 4)]):
        req([sym('kind%d' % i) if i in pos else DFL[i] for i in range(6)])
    for rot in range(6):
        req(DFL[rot:] + DFL[:rot])
        req((DFL[rot:] + DFL[:rot])[::-1])
    for n in (0, 5, 7):
        run('%d requirement kinds' % n, lists={'ordering_requires': ([lit(x) for x in ('bool', 'class', 'role', 'attribute_role', 'attribute', 'type')] + [lit('bool')])[:n]}, expect=failure)
    # lists
    LL = ('disable', 'enable_normal', 'enable_source', 'assume_users', 'assume_roles', 'custom_fc_macros', 'custom_te_simple_macros')
    for mode in (0, 1):
        for n in (0, 1, 2, 3):
            lists = {k: [sym('%s%d' % (k, i)) for i in range(n)] for k in LL}

            def ex(it, a, v, s, what, lists=lists, mode=mode):
                if okv(s, v) is not True:
                    R.v('lists', loc(f), '%s: the configuration is refused' % what)
                    return
                for addr, k in ((a[3], 'disable'), (a[4], 'enable_source' if mode else 'enable_normal'), (a[5], 'custom_fc_macros'),
                                (('fld', a[6], 'config_check_data.custom_te_simple_macros'), 'custom_te_simple_macros')):
                    R.n('lists compared')
                    g = [x[1] if x[0] == 'dup' else x for x in aslist(it, s, s.mem.get(addr, NULL))]
                    raw = [x for x in aslist(it, s, s.mem.get(addr, NULL)) if x[0] != 'dup']
                    if g != lists[k]:
                        R.v('lists', loc(f), '%s: %s is read as %s' % (what, k, [pretty.pt(x) for x in g]))
                    elif raw:
                        R.v('lists', loc(f), '%s: the strings of %s are kept although the parsed file is released' % (what, k))
                got = [tuple(map(strip, e.args)) for e in events(s) if e.name == 'insert_into_decl_map']
                want = [(x, lit('__assumed__'), ('i', prog.enum(fl))) for k, fl in (('assume_users', 'DECL_USER'), ('assume_roles', 'DECL_ROLE')) for x in lists[k]]
                if sorted(map(repr, got)) != sorted(map(repr, want)):
                    R.v('lists', loc(f), '%s: the names assumed to exist are %s' % (what, [pretty.pt(x[0]) + ':' + pretty.pt(x[2]) for x in got]))
            run('%d elements per list in %s mode' % (n, 'source' if mode else 'normal'), lists=lists, mode=mode, expect=ex)
    R.atleast('documented options', len(KEYS))
    R.atleast('orders accepted', 20)
    R.atleast('lists compared', 30)
    return R
