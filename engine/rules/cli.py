"""R11: what main does with its command line, with the files it finds, and which exit status it ends with."""
from ..absint import State, NULL, contains, walk, VS
from ..core import Result, loc
from ..paths import PathI, Ev, events, fnz, fval
from ..tables import strip, streq, evaluate, field
from .. import pretty

LOADERS = ('load_access_vectors_source', 'load_modules_source', 'load_obj_perm_sets_source', 'load_access_vectors_kernel', 'load_modules_normal', 'load_devel_headers')
KEEP = LOADERS + ('register_checks', 'run_analysis', 'display_run_summary', 'parse_config', 'color_enable', 'sl_from_str', 'append_to_sl', 'insert_into_decl_map', 'usage', 'exit',
                  'file_list_push_back', 'insert_into_mod_layers_map', 'fts_open', 'fts_set', 'free_file_list', 'free_checks')
OPQ = LOADERS + ('register_checks', 'run_analysis', 'display_run_summary', 'parse_config', 'color_enable', 'sl_from_str', 'append_to_sl', 'concat_string_lists', 'copy_string_list',
                 'free_string_list', 'free_file_list', 'free_checks', 'free_selint_config', 'insert_into_decl_map', 'insert_into_mod_layers_map', 'file_list_push_back', 'make_policy_file',
                 'file_name_in_file_list', 'is_valid_check', 'str_in_sl')
PUREF = ('is_valid_check', 'make_policy_file', 'file_name_in_file_list')
EX = {'USAGE': 64, 'DATAERR': 65, 'SOFTWARE': 70, 'CONFIG': 78}


class MainI(PathI):
    """main under one command line: getopt_long yields the given options, every directory scan the given number of entries"""

    def __init__(self, prog, opts, entries=(0, 0), **kw):
        kw.setdefault('opaque', OPQ)
        kw.setdefault('pure', PUREF)
        super().__init__(prog, stores=False, **kw)
        self.opts, self.entries = opts, entries
        self.exits = []
        self.table = None
        self.keep = lambda e: e.name in KEEP
        self.keep_facts = self.relevant

    IRRELEVANT = ('is_valid_check',) + LOADERS

    def relevant(self, k, v):
        # facts that only decide what is printed are dropped, so that the paths they split join again
        for x in walk(k):
            if x[0] == 'elem' or x[0] == 'call' and x[1] in self.IRRELEVANT:
                return False
        return True

    def no_effect(self, n):
        return True              # what callees change is modelled below or never read again by main

    def count(self, st, name):
        return sum(1 for e in st.cl if isinstance(e, tuple) and e[0] == 'tick' and e[1] == name)

    def tick(self, st, name):
        st.cl = st.cl + (('tick', name),)

    def unrolled(self, cfg, ph, ind, val):
        # a list built on this very path is followed element by element
        return ind[0] == 'next' and (val == NULL or val[0] == 'call' and val[1] == 'calloc') or ind[0] == 'add' and val[0] == 'i'

    def on_backedge(self, st, f, header, killed):
        pass                     # every iteration of main's loops is followed, its events stay on the path

    def on_enter(self, st, f, header):
        pass

    def on_call(self, st, ins, name, args):
        if name == 'getopt_long':
            k = self.count(st, 'opt')
            self.table = args
            self.tick(st, 'opt')
            if k >= len(self.opts):
                return [(('i', -1), st)]
            code = self.opts[k]
            st.mem[('g', 'optarg')] = ARG(k)
            st.assume_ne(ARG(k), NULL)
            if isinstance(code, tuple):     # a long option with a flag variable
                st.mem[code[0]] = code[1]
                code = 0
            return [(('i', code), st)]
        if name in ('calloc', 'malloc'):
            n = self.count(st, 'alloc')
            self.tick(st, 'alloc')
            v = ('call', name, args, (ins.uid, n))
            st.assume_ne(v, NULL)
            if name == 'calloc':
                st.mem[('zero', v)] = ('i', 1)
            return [(v, st)]
        if name == 'sl_from_str':
            n = self.count(st, 'alloc')
            self.tick(st, 'alloc')
            v = ('call', 'calloc', (), (ins.uid, n))
            st.assume_ne(v, NULL)
            st.mem[('fld', v, 'string_list.string')] = ('dup', args[0])
            st.mem[('fld', v, 'string_list.next')] = NULL
            return [(v, st)]
        if name == 'append_to_sl':
            x = args[0]
            for _ in range(8):
                y = self.load(st, ('fld', x, 'string_list.next'))
                if y[0] != 'call':
                    break
                x = y
            n = self.count(st, 'alloc')
            self.tick(st, 'alloc')
            v = ('call', 'calloc', (), (ins.uid, n))
            st.assume_ne(v, NULL)
            st.mem[('fld', v, 'string_list.string')] = ('dup', args[1])
            st.mem[('fld', v, 'string_list.next')] = NULL
            st.mem[('fld', x, 'string_list.next')] = v
            return [(v, st)]
        if name == 'fts_open':
            n = self.count(st, 'open')
            self.tick(st, 'open')
            v = ('call', name, args[:0], ('fts', n))
            got = []
            for k in range(4):
                a = args[0] if k == 0 else ('idx', args[0], ('i', k))
                x = st.mem.get(a, st.mem.get(('idx', args[0], ('i', k))))
                got.append(x)
                if x is None or x == NULL:
                    break
            self.ev(st, Ev('call', name, args, v, ins.where(), val=tuple(got)))
            return [(v, st)]
        if name == 'fts_read':
            h = args[0]
            n = h[3][1] if h[0] == 'call' and h[1] == 'fts_open' else 0
            k = self.count(st, ('read', n))
            self.tick(st, ('read', n))
            if k >= (self.entries[n] if n < len(self.entries) else self.entries[-1]):
                return [(NULL, st)]
            v = ENTRY(n, k)
            st.assume_ne(v, NULL)
            return [(v, st)]
        if name == 'parse_config':
            v = ('call', name, args, ins.uid)
            self.ev(st, Ev('call', name, args, v, ins.where()))
            s2 = st.copy()
            st.assume_eq(v, NULL)
            for i, n in ((2, 'severity'), (3, 'disabled'), (4, 'enabled'), (5, 'macros')):
                if i < len(args):
                    st.mem[args[i]] = ('p', 'config', n)
            s2.assume_ne(v, NULL)
            return [(v, st), (v, s2)]
        if name == 'exit':
            self.exits.append((args[0], st.copy(), ins.where()))
            return []
        if name in ('strdup',):
            st.assume_ne(('dup', args[0]), NULL)
            return [(('dup', args[0]), st)]
        return super().on_call(st, ins, name, args)


# documented options: long name, short, takes an argument
OPTIONS = (('config', 'c', 1), ('color', None, 1), ('context', None, 1), ('debug-parser', None, 0), ('disable', 'd', 1), ('enable', 'e', 1), ('only-enabled', 'E', 0), ('fail', 'F', 0),
           ('help', 'h', 0), ('level', 'l', 1), ('scan-hidden-dirs', None, 0), ('source', 's', 0), ('summary', 'S', 0), ('summary-only', None, 0), ('recursive', 'r', 0),
           ('verbose', 'v', 0), ('version', 'V', 0))
ENTRY = lambda n, k: ('p', 'main', 'entry%d.%d' % (n, k))
ARG = lambda i: ('p', 'main', 'argument%d' % i)
CFG = lambda n: ('p', 'config', n)
LISTS = ('te', 'if', 'fc', 'context te', 'context if')


def option_table(prog, args):
    """what getopt_long was told: {short letter: takes argument}, {long name: (takes argument, flag variable, value)}"""
    short, longs = {}, {}
    s = args[2]
    if s[0] != 's':
        return None
    t = s[1].lstrip(':+-')
    for i, c in enumerate(t):
        if c != ':':
            short[c] = int(t[i + 1:i + 2] == ':')
    g = args[3]
    while g[0] in ('idx', 'fld'):
        g = g[1]
    gv = prog.globals.get(g[1]) if g[0] == 'g' else None
    if gv is None or gv.init is None or gv.init[0] != 'agg':
        return None
    for e in gv.init[1]:
        if e[0] != 'agg':
            continue
        n, a, fl, v = e[1][:4]
        if n[0] != 'g':
            continue
        nm = prog.cstring(n[1])
        longs[nm] = (a[1] if a[0] == 'i' else 0, fl[1] if fl[0] == 'g' else None, v[1] if v[0] == 'i' else 0)
    return short, longs


def listvals(it, st, t):
    """the strings of a list built on this path"""
    out, seen = [], 0
    while t != NULL and seen < 6:
        seen += 1
        s = it.load(st, ('fld', t, 'string_list.string'))
        if s[0] == 'dup':
            s = s[1]
        out.append(s)
        t = it.load(st, ('fld', t, 'string_list.next'))
        if t[0] == 'ld':
            return out + ['?']
    return out


def streqv(st, a, b):
    """facts about strcmp(a, b): True / False / None"""
    for k, v in st.facts.items():
        if k[0] == 'strval' and strip(k[1]) == a:
            if v.eq is not None:
                return v.eq == ('s', b)
            if ('s', b) in v.ne:
                return False
    return None


class Scenario:
    def __init__(self, spelled, paths=2):
        self.spelled, self.paths = spelled, paths     # tuple of option names as documented (long name, or one letter)

    def __repr__(self):
        return ' '.join(('--' if len(o) > 1 else '-') + o for o in self.spelled) or '(no option)'


ALIAS = {s: l for l, s, a in OPTIONS if s}


def run_main(prog, sc, entries=(0, 0), tab=None):
    opts = []
    for o in sc.spelled:
        if o == '?':
            opts.append(ord('?'))
        elif len(o) == 1:
            opts.append(ord(o))
        else:
            a, fl, v = tab[1][o]
            opts.append((('g', fl), ('i', v)) if fl else v)
    it = MainI(prog, opts, entries)
    st = State()
    st.mem[('g', 'optind')] = ('i', 1)
    f = prog.fn('main')
    rets = it.call_function(f, (('i', 1 + sc.paths), ('p', 'main', 'argv')), st)
    return it, [(v, s, loc(f)) for v, s in rets] + it.exits


def check_options(prog, thorough=False):
    R = Result()
    R.rule('accepted', 'exactly the documented options are accepted, long and short, with an argument where documented')
    R.rule('effect', 'every option has its documented effect and no other, alone and in combination, whatever comes before or after it')
    R.rule('status', 'the exit status is the documented one for the outcome of the run: 0, 64 usage, 65 findings with --fail, 70 files that cannot be analysed, 78 configuration')
    R.rule('defaults', 'without configuration file the documented defaults apply')
    f = prog.fn('main')
    it, _ = run_main(prog, Scenario(()))
    tab = option_table(prog, it.table) if it.table else None
    if tab is None:
        R.u('accepted', 'the option table handed to getopt_long cannot be read')
        return R
    short, longs = tab
    for l, s, a in OPTIONS:
        R.n('documented options')
        if l not in longs:
            R.v('accepted', loc(f), 'the option --%s is not accepted' % l)
        elif longs[l][0] != a:
            R.v('accepted', loc(f), 'the option --%s %s an argument' % (l, 'does not take' if a else 'takes'))
        if s and s not in short:
            R.v('accepted', loc(f), 'the option -%s is not accepted' % s)
        elif s and short[s] != a:
            R.v('accepted', loc(f), 'the option -%s %s an argument' % (s, 'does not take' if a else 'takes'))
    names = [l for l, s, a in OPTIONS if l in longs] + [s for l, s, a in OPTIONS if s and s in short]
    scs = [Scenario(()), Scenario((), 0), Scenario(('?',))] + [Scenario((n,)) for n in names]
    base = [l for l, s, a in OPTIONS if l in longs]
    if thorough:
        scs += [Scenario((a, b)) for a in names for b in names]
        scs += [Scenario((a, b, c)) for a in ('enable', 'disable', 'config', 'level', 'context') for b in base for c in (a, 'only-enabled', 'fail', 'summary')]
    else:
        scs += [Scenario((a, a)) for a in names]
        scs += [Scenario((a, b)) for i, a in enumerate(base) for b in base[i + 1:]]
        scs += [Scenario(x) for x in (('e', 'd', 'e'), ('d', 'e', 'd'), ('E', 'e', 'F'), ('e', 'e', 'e'), ('d', 'd', 'd'), ('context', 'context', 'context'), ('F', 'l', 'c'))]
    opt_of = lambda o: ALIAS.get(o, o)
    for sc in scs:
        if any(len(o) > 1 and o not in longs for o in sc.spelled):
            continue
        it, outs = run_main(prog, sc, tab=tab)
        R.n('command lines')
        R.functions |= it.visited_fn
        if it.truncated:
            R.u('effect', 'path limit for %s' % sc)
        if not outs:
            R.v('status', loc(f), 'with %s the program never ends' % sc)
        for v, st, where in outs:
            R.n('outcomes')
            judge(prog, R, it, sc, [opt_of(o) for o in sc.spelled], v, st, where)
    R.atleast('command lines', 60)
    R.atleast('outcomes', 1000)
    return R


def judge(prog, R, it, sc, opts, v, st, where):
    E = events(st)
    calls = {}
    for e in E:
        calls.setdefault(e.name, []).append(e)
    what = 'with %s' % sc

    def bad(rule, msg, w=None):
        R.v(rule, w or where, '%s: %s' % (what, msg), key=(sc.__repr__(), msg).__repr__())

    def code(want, why):
        if v == ('i', want):
            return True
        if v is None or v[0] != 'i':
            val = fval(st, v)
            if val is not None and val == ('i', want):
                return True
            if val is None:
                R.u('status', '%s: exit status %s' % (what, pretty.pt(v)))
                return False
        bad('status', 'the exit status is %s instead of %d although %s' % (pretty.pt(v), want, why))
        return False
    early = [k for k in ('register_checks', 'run_analysis', 'fts_open', 'display_run_summary') + LOADERS if k in calls]
    # ---- options ending the run at once
    argi = {}
    for i, o in enumerate(opts):
        a = ARG(i)
        argi.setdefault(o, []).append(a)
        stop = None
        if o in ('help', 'version'):
            stop = (0, '--%s was given' % o)
        elif o == '?':
            stop = (64, 'an unknown option was given')
        elif o == 'color':
            k = [streqv(st, a, x) for x in ('on', 'off', 'auto')]
            if all(x is False for x in k):
                stop = (64, 'the colour argument is none of on, off and auto')
            elif True not in k:
                R.u('effect', '%s: the colour argument is not decided on a path' % what)
                return
        elif o == 'level':
            ch = [x for k, x in st.facts.items() if k[0] == 'ld' and strip(k[1][1] if k[1][0] == 'idx' else k[1]) == a]
            if len(ch) == 1 and ch[0].eq is not None and chr(ch[0].eq[1] & 255) in 'CSWEF':
                pass
            elif len(ch) == 1 and (ch[0].eq is not None or {('i', ord(c)) for c in 'CSWEF'} <= ch[0].ne):
                stop = (64, 'the level is not a severity')
            elif v == ('i', 64) and len(ch) == 1 and not early:
                bad('effect', 'a level that is a severity is refused')
                return
            else:
                bad('effect', 'a level is used without being validated')
                return
        if stop:
            code(*stop)
            if early:
                bad('effect', 'the run starts although %s' % stop[1])
            if stop[0] == 64 and 'usage' not in calls:
                pass
            return
    has = lambda o: o in argi
    source = has('source') or has('context')
    # ---- configuration
    cfgname = argi['config'][-1] if has('config') else None
    acc = [(k, x) for k, x in st.facts.items() if k[0] == 'call' and k[1] == 'access']
    pc = calls.get('parse_config', [])
    conf = None
    if len(pc) > 1:
        bad('effect', 'the configuration is read twice', pc[1].where)
    if pc:
        e = pc[0]
        if cfgname is not None and strip(e.args[0]) != cfgname or cfgname is None and e.args[0][0] != 's':
            bad('effect', 'the configuration read is %s' % pretty.pt(e.args[0]), e.where)
        if e.args[1] != ('i', int(source)):
            bad('effect', 'the configuration is read for source mode = %s' % pretty.pt(e.args[1]), e.where)
        if fnz(st, e.ret) is True:
            code(78, 'the configuration cannot be read')
            if early:
                bad('effect', 'the run starts although the configuration cannot be read')
            return
        conf = e
    else:
        miss = [k for k, x in acc if fnz(st, k) is True and (cfgname is None or strip(k[2][0]) == cfgname)]
        if cfgname is not None:
            if not miss:
                bad('effect', 'the configuration named on the command line is not read')
                return
            code(64, 'the configuration file named is missing')
            if early:
                bad('effect', 'the run starts although the configuration file named is missing')
            return
        if not miss:
            bad('effect', 'an existing default configuration is not read')
            return
    asm = [tuple(e.args) for e in calls.get('insert_into_decl_map', [])]
    want = [] if conf else [(('s', 'system_u'), ('s', '__assumed__'), ('i', prog.enum('DECL_USER'))), (('s', 'object_r'), ('s', '__assumed__'), ('i', prog.enum('DECL_ROLE')))]
    if sorted(map(repr, asm)) != sorted(map(repr, want)) and 'register_checks' in calls:
        bad('defaults', 'the names assumed to exist are %s' % ([pretty.pt(a[0]) for a in asm] or 'none'))
    if has('only-enabled') and not has('enable'):
        code(64, '--only-enabled was given without --enable')
        if early:
            bad('effect', 'the run starts although --only-enabled was given without --enable')
        return
    if not sc.paths:
        code(64, 'no file was given')
        if 'run_analysis' in calls or 'register_checks' in calls:
            bad('effect', 'the run starts although no file was given')
        return
    # ---- global switches
    for g, o, on in (('suppress_output', ('summary-only',), 1), ('verbose_flag', ('verbose',), 1), ('yydebug', ('debug-parser',), 1)):
        val = st.mem.get(('g', g))
        wantv = any(has(x) for x in o)
        got = val is not None and fnz(st, val)
        if got is None:
            R.u('effect', '%s: %s is %s' % (what, g, pretty.pt(val)))
        elif bool(got) != wantv:
            bad('effect', '%s is %s' % (g.replace('_', ' '), 'set' if got else 'not set'))
    col = 'auto'
    if has('color'):
        col = [x for x in ('on', 'off', 'auto') if streqv(st, argi['color'][-1], x) is True][0]
    tty = [k for k in st.facts if k[0] == 'call' and k[1] == 'isatty']
    want = True if col == 'on' else False if col == 'off' else fnz(st, tty[0]) if tty else None
    if want is None:
        bad('effect', 'colour is decided without asking whether the output is a terminal')
    elif want != ('color_enable' in calls):
        bad('effect', 'colour output is %s with colour setting %s' % ('on' if 'color_enable' in calls else 'off', col))
    # ---- support data
    n = lambda x: len(calls.get(x, []))
    if source and any(n(x) for x in LOADERS[3:]):
        bad('effect', 'data of the running system is loaded in source mode')
    if not source:
        if n('load_access_vectors_kernel') != 1 or n('load_devel_headers') != 1:
            bad('effect', 'classes and headers of the running system are not loaded once')
        if any(n(x) for x in LOADERS[:3]):
            bad('effect', 'support files of a source tree are loaded outside source mode')
    # ---- checks
    rc = calls.get('register_checks', [])
    if len(rc) != 1:
        bad('effect', 'the checks are selected %d times' % len(rc))
        return
    a = rc[0].args
    if has('level'):
        ok = a[0][0] == 'ld' and contains(a[0], {argi['level'][-1]}) or any(k[0] == 'ld' and contains(k, {argi['level'][-1]}) and x.eq == a[0] for k, x in st.facts.items())
        if not ok:
            bad('effect', 'the severity threshold is %s instead of the level given' % pretty.pt(a[0]), rc[0].where)
    elif conf:
        if not (a[0] == CFG('severity') or a[0] == ('i', ord('C')) and fnz(st, CFG('severity')) is False):
            bad('effect', 'the severity threshold is %s instead of the configured one' % pretty.pt(a[0]), rc[0].where)
    elif a[0] != ('i', ord('C')):
        bad('defaults', 'the severity threshold without configuration is %s' % pretty.pt(a[0]), rc[0].where)
    for i, wantl, nm in ((1, CFG('enabled') if conf else NULL, 'checks enabled in the configuration'), (2, CFG('disabled') if conf else NULL, 'checks disabled in the configuration')):
        if strip(a[i]) != wantl and not (a[i] == NULL and fnz(st, wantl) is False):
            bad('effect', 'the %s are %s' % (nm, pretty.pt(a[i])), rc[0].where)
    for i, o in ((3, 'enable'), (4, 'disable')):
        got = listvals(it, st, a[i])
        if got != argi.get(o, []):
            (R.u if '?' in got else lambda r, m: bad(r, m, rc[0].where))('effect', 'the checks %sd on the command line are %s' % (o, [x if isinstance(x, str) else pretty.pt(x) for x in got]))
    if a[5] != ('i', int(has('only-enabled'))):
        bad('effect', 'only-enabled mode is %s' % pretty.pt(a[5]), rc[0].where)
    for L in LOADERS:
        for e in calls.get(L, []):
            if E.index(e) > E.index(rc[0]):
                bad('effect', 'the checks are selected before %s' % L, rc[0].where)
    if fnz(st, rc[0].ret) is False:
        code(78, 'the checks cannot be selected')
        if 'run_analysis' in calls:
            bad('effect', 'the analysis starts without checks')
        return
    ra = calls.get('run_analysis', [])
    if len(ra) != 1:
        bad('effect', 'the analysis is run %d times' % len(ra))
        return
    a = ra[0].args
    if strip(a[0]) != strip(rc[0].ret):
        bad('effect', 'the analysis runs other checks than the selected ones', ra[0].where)
    if len(set(a[1:6])) != 5:
        bad('effect', 'the analysis is given the same list of files twice', ra[0].where)
    if conf and a[6] != CFG('macros') or not conf and a[6] != NULL:
        bad('effect', 'the custom file-context macros are %s' % pretty.pt(a[6]), ra[0].where)
    if conf and conf.args[6:] and strip(a[7]) != strip(conf.args[6]):
        bad('effect', 'the analysis is given other options than the configured ones', ra[0].where)
    if not conf:
        o = a[7]
        g = lambda x: it.load(st, ('fld', o, 'config_check_data.' + x))
        for x, wantv in (('order_conf', prog.enum('ORDER_LAX')), ('ordering_requires_same_flavor', 1), ('skip_checking_generated_fcs', 1), ('custom_te_simple_macros', 0)):
            got = g(x)
            if got != ('i', wantv):
                (R.u if got[0] != 'i' else bad)('defaults', 'without configuration %s is %s' % (x, pretty.pt(got)))
        arr = ('fld', o, 'config_check_data.order_requires')
        got = [st.mem.get(('idx', arr, ('i', i)), it.load(st, ('idx', arr, ('i', i)))) for i in range(6)]
        wantl = [('i', prog.enum('DECL_' + x)) for x in ('BOOL', 'CLASS', 'ROLE', 'ATTRIBUTE_ROLE', 'ATTRIBUTE', 'TYPE')]
        if got != wantl:
            bad('defaults', 'without configuration the order of requirement kinds is %s' % [pretty.pt(x) for x in got])
    # ---- outcome
    r = ra[0].ret
    ds = calls.get('display_run_summary', [])
    z = fnz(st, r)
    if z is None:
        bad('status', 'the outcome of the analysis is ignored')
        return
    if z is True:
        code(70, 'the analysis failed')
        if ds:
            bad('effect', 'a summary is printed although the analysis failed')
        return
    if (len(ds) == 1) != (has('summary') or has('summary-only')) or len(ds) > 1:
        bad('effect', 'the summary is printed %d times' % len(ds))
    if ds and strip(ds[0].args[0]) != strip(rc[0].ret):
        bad('effect', 'the summary is of other checks than the selected ones')
    fi = fnz(st, ('ld', ('g', 'found_issue')))
    if has('fail') and fi is None:
        bad('status', '--fail is ignored')
    elif has('fail') and fi:
        code(65, '--fail was given and something was found')
    else:
        code(0, 'the analysis succeeded%s' % ('' if has('fail') else ' and --fail was not given'))


class ScanI(MainI):
    """one command line without configuration file whose checks can be selected and whose analysis succeeds"""

    def on_call(self, st, ins, name, args):
        if name in ('access', 'isatty'):
            return [(('i', int(name == 'access')), st)]
        if name in ('register_checks', 'run_analysis') + LOADERS:
            v = NULL if name != 'register_checks' else ('p', 'main', 'checks')
            st.assume_ne(('p', 'main', 'checks'), NULL)
            self.ev(st, Ev('call', name, args, v, ins.where()))
            return [(v, st)]
        if name == 'insert_into_mod_layers_map':
            cut = tuple((k[2], v) for k, v in st.mem.items() if k[0] == 'idx' and k[1] == args[0])
            self.ev(st, Ev('call', name, args, None, ins.where(), val=cut))
            return [(('call', name, args), st)]
        return super().on_call(st, ins, name, args)


SUPPORT = (('modules.conf', 'load_modules_source'), ('obj_perm_sets.spt', 'load_obj_perm_sets_source'), ('access_vectors', 'load_access_vectors_source'))


def check_files(prog, thorough=False):
    R = Result()
    R.rule('queued', 'every file found is queued once, in the list of its kind, by its suffix, under its own path; interface files also record the layer of their module; nothing else is queued')
    R.rule('context', 'te and if files found under a context path are queued as context unless they are already to be analysed')
    R.rule('support', 'in source mode the support files are recognised by name and loaded from where they were found, the explicitly given ones first')
    R.rule('descent', 'directories are entered exactly in recursive mode, hidden ones only when asked for')
    R.rule('roots', 'the paths given on the command line, and each context path, are what is scanned')
    f = prog.fn('main')
    it, _ = run_main(prog, Scenario(()))
    tab = option_table(prog, it.table) if it.table else None
    if tab is None:
        R.u('queued', 'the option table handed to getopt_long cannot be read')
        return R
    flags = [()] + [(a,) for a in ('recursive', 'source', 'scan-hidden-dirs', 'context')] + [('recursive', 'source'), ('recursive', 'scan-hidden-dirs'), ('recursive', 'context'), ('context', 'context')]
    for fl in flags:
        if any(o not in tab[1] for o in fl):
            continue
        nctx = fl.count('context')
        ents = [(1,)]
        if nctx:
            ents = [(0, 1), (1, 1)] if nctx == 1 else [(0, 1, 1)]
        if thorough or fl == ():
            ents = ents + [(2,) + (0,) * nctx]
        for ent in ents:
            opts = []
            for o in fl:
                a, g, v = tab[1][o]
                opts.append((('g', g), ('i', v)) if g else v)
            it = ScanI(prog, opts, ent)
            st = State()
            st.mem[('g', 'optind')] = ('i', 1)
            rets = it.call_function(f, (('i', 3), ('p', 'main', 'argv')), st)
            R.n('scans')
            if it.truncated:
                R.u('queued', 'path limit')
            for v, s in rets:
                R.n('outcomes')
                judge_scan(prog, R, it, fl, ent, v, s, loc(f))
    R.functions |= it.visited_fn
    R.atleast('scans', 8)
    R.atleast('outcomes', 60)
    return R


def judge_scan(prog, R, it, fl, ent, v, st, where):
    E = events(st)
    what = 'with %s' % Scenario(fl)
    source = 'source' in fl or 'context' in fl
    nctx = fl.count('context')
    ra = [e for e in E if e.name == 'run_analysis']
    if len(ra) != 1:
        R.v('queued', where, '%s: the analysis is run %d times' % (what, len(ra)))
        return
    lists = dict(zip(LISTS, ra[0].args[1:6]))
    rev = {t: n for n, t in lists.items()}
    opens = [e for e in E if e.name == 'fts_open' and e.val is not None]
    roots = [[strip(('ld', ('idx', ('p', 'main', 'argv'), ('i', k)))) for k in (1, 2)] + [NULL]]
    roots += [[('dup', ARG(i)), NULL] for i, o in enumerate(fl) if o == 'context']
    if len(opens) != len(roots):
        R.v('roots', where, '%s: %d scans are made instead of %d' % (what, len(opens), len(roots)))
    for e, r in zip(opens, roots):
        got = [strip(x) if x is not None else None for x in e.val]
        if got != r and None not in got:
            R.v('roots', e.where, '%s: the scan covers %s' % (what, [pretty.pt(x) for x in got]))
    found = {}
    expect = []
    F = lambda e, x: ('ld', ('fld', e, 'FTSENT.' + x))
    for n in range(1 + nctx):
        for k in range(ent[n] if n < len(ent) else 0):
            e = ENTRY(n, k)
            name, suf, plen, info, ch = None, None, None, None, {}
            nname, nsuf = set(), set()
            for t, x in st.facts.items():
                if not contains(t, {e}):
                    continue
                if t[0] == 'strval':
                    if strip(t[1]) == F(e, '_name') or t[1] == ('fld', e, '_ftsent.fts_name') or 'fts_name' in repr(t[1]):
                        name = x.eq[1] if x.eq is not None else name
                        nname |= {y[1] for y in x.ne}
                    elif 'fts_path' in repr(t[1]):
                        suf = x.eq[1] if x.eq is not None else suf
                        nsuf |= {y[1] for y in x.ne}
                elif 'fts_info' in repr(t):
                    info = x
                elif 'fts_pathlen' in repr(t) and t[0] == 'ld':
                    plen = x
                elif 'fts_name' in repr(t) and t[0] == 'ld':
                    i = t[1][2][1] if t[1][0] == 'idx' and t[1][2][0] == 'i' else 0
                    ch[i] = x
            kind = suf if suf in ('.te', '.if', '.fc') else None
            path = [x for x in [a.args for a in E if a.name == 'file_list_push_back'] if contains(x, {e})]
            pushes = [a for a in E if a.name == 'file_list_push_back' and contains(a.args[1], {e})]
            for a in pushes:
                m = a.args[1]
                if m[0] != 'call' or m[1] != 'make_policy_file' or 'fts_path' not in repr(m[2][0]) or m[2][1] != NULL:
                    R.v('queued', a.where, '%s: what is queued is %s, not the file found' % (what, pretty.pt(m)))
            got = [rev.get(a.args[0], '?') for a in pushes]
            want = []
            if not kind and not suf and not nsuf and plen is not None and (plen.eq is None and plen.hi is not None and plen.hi > 3 or plen.eq is not None and plen.eq[1] > 3):
                R.v('context' if n else 'queued', where, '%s: a file with a path of %s characters is passed over without looking at its suffix' % (what, plen.hi if plen.eq is None else plen.eq[1]))
            if n == 0 and kind:
                want = [kind[1:]]
            elif n > 0 and kind in ('.te', '.if'):
                inl = [x for t, x in st.facts.items() if t[0] == 'call' and t[1] == 'file_name_in_file_list' and contains(t, {e})]
                tl = [t for t, x in st.facts.items() if t[0] == 'call' and t[1] == 'file_name_in_file_list' and contains(t, {e})]
                if len(tl) != 1:
                    R.v('context', where, '%s: a context file is queued without asking whether it is to be analysed' % what)
                    continue
                if tl[0][2][1] != lists[kind[1:]] or 'fts_path' not in repr(tl[0][2][0]):
                    R.v('context', where, '%s: a context %s file is looked for among the %s files' % (what, kind, rev.get(tl[0][2][1], '?')))
                want = ['context ' + kind[1:]] if fnz(st, tl[0]) is False else []
            if info is not None and info.eq is not None and kind:
                continue         # told apart by more than the name
            R.n('entries judged')
            if got != want:
                R.v('context' if n else 'queued', pushes[0].where if pushes else where, '%s: a file found%s with suffix %s is queued as %s instead of %s'
                    % (what, ' under a context path' if n else '', kind or 'other', got or 'nothing', want or 'nothing'))
            ml = [a for a in E if a.name == 'insert_into_mod_layers_map' and contains(a.args, {e})]
            if (n == 0 and kind == '.if') != (len(ml) == 1) and not (n and kind == '.if'):
                R.v('queued', ml[0].where if ml else where, '%s: the layer of a module is recorded %d times for a %s file' % (what, len(ml), kind))
            for a in ml:
                if 'fts_parent' not in repr(a.args[1]) or 'fts_name' not in repr(a.args[1]):
                    R.v('queued', a.where, '%s: the layer recorded is %s' % (what, pretty.pt(a.args[1])))
                m = a.args[0]
                nm = ('fld', e, '_ftsent.fts_name')
                if m in (nm, ('idx', nm, NULL)) or m[0] == 'dup' and not a.val and a.val is not None and m[1] in (nm, ('idx', nm, NULL)):
                    R.v('queued', a.where, '%s: a layer is recorded for the file name %s, not for the name without its suffix' % (what, pretty.pt(m)))
                elif m[0] == 'dup' and a.val and len(a.val) == 1 and a.val[0][1] == NULL and 'fts_namelen' in repr(a.val[0][0]):
                    if a.val[0][0] != ('op', 'add', ('ld', ('fld', e, '_ftsent.fts_namelen')), ('i', -3)):
                        R.v('queued', a.where, '%s: the module name is cut off at %s' % (what, pretty.pt(a.val[0][0])))
            if not kind and source and name in dict(SUPPORT):
                found.setdefault(name, []).append((n, e))
            sk = [a for a in E if a.name == 'fts_set' and contains(a.args[1], {e})]
            if kind is None and n == 0 and not (source and name in dict(SUPPORT)):
                skip = any(a.args[2] == ('i', 4) for a in sk)
                if 'recursive' not in fl:
                    wantsk = True
                elif 'scan-hidden-dirs' in fl:
                    wantsk = False
                else:
                    isd = None if info is None else info.eq == ('i', 1) if info.eq is not None else False if ('i', 1) in info.ne else None
                    dot = lambda i, c: None if i not in ch else ch[i].eq == ('i', c) if ch[i].eq is not None else False if ('i', c) in ch[i].ne else None
                    cond = [isd, dot(0, 46), None if dot(1, 46) is None else not dot(1, 46), None if dot(1, 0) is None else not dot(1, 0)]
                    wantsk = False if False in cond else True if all(cond) else None
                    if wantsk is None and (skip or True):
                        nm = ch
                        if skip:
                            R.v('descent', sk[0].where, '%s: a directory is not entered without knowing that it is hidden: [%s]' % (what, pretty.pfacts({t: x for t, x in st.facts.items() if contains(t, {e})})))
                        else:
                            R.v('descent', where, '%s: a directory is entered without knowing whether it is hidden' % what)
                        continue
                if skip != wantsk:
                    R.v('descent', sk[0].where if sk else where, '%s: %s is %s' % (what, 'an entry that is no policy file', 'not entered' if skip else 'entered'))
            elif any(a.args[2] == ('i', 4) for a in sk) and n == 0 and 'recursive' in fl:
                R.v('descent', sk[0].where, '%s: scanning does not go on below a file of kind %s' % (what, kind or name))
    for nm, ld in SUPPORT:
        calls = [a for a in E if a.name == ld]
        fnd = found.get(nm, [])
        if not source or not fnd:
            if calls:
                R.v('support', calls[0].where, '%s: %s is loaded although no %s was found' % (what, pretty.pt(calls[0].args[0]), nm))
            continue
        if len(calls) != 1:
            R.v('support', where, '%s: %s was found but is loaded %d times' % (what, nm, len(calls)))
            continue
        ok = [e for n, e in fnd if contains(calls[0].args, {e})]
        if not ok or 'fts_path' not in repr(calls[0].args[0]):
            R.v('support', calls[0].where, '%s: %s is loaded from %s' % (what, nm, pretty.pt(calls[0].args[0])))
        elif fnd[0][0] == 0 and all(n > 0 for n, e in fnd if e in ok):
            R.v('support', calls[0].where, '%s: %s of a context path replaces the one given' % (what, nm))
