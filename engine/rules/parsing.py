"""R16: what surrounds the parser: one run per file, and the message for text that is no policy."""
from ..absint import State, NULL, contains
from ..core import Result, loc
from ..paths import PathI, Ev, events, known_null
from ..tables import strip
from .. import pretty
from .startup import fact


class WrapI(PathI):
    """remembers what the parser is given at the moment it is run"""

    def on_call(self, st, ins, name, args):
        if name in ('yylex_init', 'yylex_init_extra'):
            v = ('call', name, args, ins.uid)
            s = ('scanner', ins.uid)
            self.store(st, args[-1], s)
            st.assume_ne(s, NULL)
            self.ev(st, Ev('call', name, args, s, ins.where()))
            st.assume_eq(v, NULL)
            return [(v, st)]
        if name == 'memset' and args[0][0] == 'call' and args[0][1] == 'malloc' and args[0][2][0] == args[2]:
            for k in [k for k in st.mem if k[0] == 'fld' and k[1] == args[0]]:
                del st.mem[k]
            if args[1] == NULL:
                st.mem[('zero', args[0])] = ('i', 1)
            return [(args[0], st)]
        if name in ('calloc', 'malloc'):
            v = ('call', name, args, ins.uid)
            st.assume_ne(v, NULL)
            if name == 'calloc':
                st.mem[('zero', v)] = ('i', 1)
            self.ev(st, Ev('call', name, args, v, ins.where()))
            return [(v, st)]
        if name == 'yyparse':
            v = ('call', name, args, ins.uid)
            given = {n: self.load(st, ('g', n)) for n in ('parse#cur', 'parse#parsing_filename', 'parse#expected_node_flavor')}
            cur = given['parse#cur']
            given['zero'] = st.mem.get(('zero', cur))
            given['fields'] = {a[2].split('.', 1)[1]: x for a, x in st.mem.items() if isinstance(a, tuple) and a[0] == 'fld' and a[1] == cur}
            self.ev(st, Ev('call', name, args, v, ins.where(), val=Given(given)))
            return [(v, st)]
        return super().on_call(st, ins, name, args)


class Given(dict):
    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def check_wrapper(prog):
    R = Result()
    R.rule('parse', 'a file is parsed once, with a fresh scanner reading it, from an empty root of the expected kind; the tree is returned exactly if the parse succeeded and released otherwise')
    R.rule('scanner', 'the scanner and the cached lines are released after every parse')
    f = prog.fn('yyparse_wrapper')
    fd, name, flavor = (('p', f.name, x) for x in f.params)
    it = WrapI(prog, opaque=('yyparse', 'yyrestart', 'yyset_in', 'yylex_init', 'yylex_init_extra', 'yylex_destroy', 'reset_current_lines', 'free_policy_node'), stores=False)
    seen = set()
    for v, st in it.call_function(f, (fd, name, flavor), State()):
        R.n('paths')
        E = [e for e in events(st) if e.kind == 'call']
        names = [e.name for e in E]
        facts = pretty.pfacts(st.facts)
        P = [e for e in E if e.name == 'yyparse']
        if not P:
            al = [k for k, x in st.facts.items() if x.eq == NULL and k[0] == 'call' and k[1] in ('calloc', 'malloc', 'yylex_init')]
            if v != NULL or not al:
                R.v('parse', loc(f), 'a file is not parsed: [%s]' % facts)
            continue
        if len(P) != 1:
            R.v('parse', P[1].where, 'a file is parsed %d times' % len(P))
            continue
        p = P[0]
        i = E.index(p)
        ini = [e for e in E[:i] if e.name.startswith('yylex_init')]
        if len(ini) != 1 or p.args[-1] != ini[0].ret:
            R.v('scanner', p.where, 'the parser does not run on one fresh scanner')
            continue
        s = ini[0].ret
        given = [e for e in E[E.index(ini[0]):i] if e.name in ('yyrestart', 'yyset_in') and e.args == (fd, s)]
        if len(given) != 1:
            R.v('parse', p.where, 'the scanner is given the file %d times' % len(given))
        g = p.val
        root = g['parse#cur']
        if root is None or known_null(st, root) or not g['zero']:
            R.v('parse', p.where, 'the parse does not start at a new empty root: %s' % pretty.pt(root))
        fl = g['fields'].get('flavor')
        if fl != flavor:
            R.v('parse', p.where, 'the root is of the kind %s' % (pretty.pt(fl) if fl else 'NODE_TE_FILE'))
        for k, x in g['fields'].items():
            if k != 'flavor' and x != NULL:
                R.v('parse', p.where, 'field %s of the root starts as %s' % (k, pretty.pt(x)))
        if g['parse#expected_node_flavor'] != flavor:
            R.v('parse', p.where, 'the kind of file expected is %s' % pretty.pt(g['parse#expected_node_flavor']))
        if g['parse#parsing_filename'] != name:
            R.v('parse', p.where, 'the name used in messages is %s' % pretty.pt(g['parse#parsing_filename']))
        d = [e for e in E[i:] if e.name == 'yylex_destroy' and e.args == (s,)]
        if len(d) != 1:
            R.v('scanner', loc(f), 'the scanner is released %d times: [%s]' % (len(d), facts))
        if sum(e.name == 'reset_current_lines' for e in E[i:]) < 1:
            R.v('scanner', loc(f), 'the cached lines are kept: [%s]' % facts)
        ok = known_null(st, p.ret)
        fr = [e for e in E[i:] if e.name == 'free_policy_node']
        if ok is None:
            R.v('parse', loc(f), 'the result does not depend on whether the parse succeeded: [%s]' % facts)
        elif ok:
            seen.add('ok')
            if v != root or fr:
                R.v('parse', loc(f), 'a parsed file yields %s%s' % (pretty.pt(v), ', released' if fr else ''))
        else:
            seen.add('bad')
            if v != NULL:
                R.v('parse', loc(f), 'a file that does not parse yields %s' % pretty.pt(v))
            if [e.args[0] for e in fr] != [root]:
                R.v('parse', loc(f), 'the tree of a file that does not parse is released %d times' % len(fr))
    if seen != {'ok', 'bad'} and not R.viol:
        R.u('parse', 'paths seen: %s' % seen)
    # the lines kept for messages
    r = prog.fn('reset_current_lines')

    class LinesI(PathI):
        def unrolled(self, cfg, ph, ind, val):
            return True

        def on_enter(self, st, fn, header):
            pass

        def on_backedge(self, st, fn, header, killed):
            pass

    it2 = LinesI(prog, stores=True)
    for v, st in it2.call_function(r, (), State()):
        R.n('paths')
        E = events(st)
        freed = [e.args[0] for e in E if e.name == 'free']
        fs = {repr(strip(x)) for x in freed}
        R.n('lines released', len(fs))
        if len(fs) != len(freed):
            R.v('scanner', loc(r), 'a cached line is released twice')
        for e in E:
            if e.kind == 'store' and e.val != NULL:
                R.v('scanner', e.where, '%s keeps a value between files' % pretty.pt(e.addr))
        for x in freed:
            if x[0] != 'ld' or it2.load(st, x[1]) != NULL:
                R.v('scanner', loc(r), 'a released line is still referred to')
        for n in ('line_cache_index', 'current_line_sent', 'current_line_len'):
            g = n if n in prog.globals else 'lex#' + n
            if g in prog.globals and it2.load(st, ('g', g)) != NULL:
                R.v('scanner', loc(r), '%s keeps a value between files' % n)
    R.functions |= it.visited_fn | it2.visited_fn
    R.atleast('paths', 3)
    R.atleast('lines released', 2)
    return R


class MsgI(PathI):
    def merge_width(self, b):
        return 1                 # printing the lines of the text branches a lot and matters to nothing judged here

    def on_call(self, st, ins, name, args):
        if name in ('basename', '__xpg_basename', 'strdup'):
            v = ('call', name, args, ins.uid)
            self.ev(st, Ev('call', name, args, v, ins.where()))
            return [(v, st)]
        return super().on_call(st, ins, name, args)


def check_message(prog):
    R = Result()
    R.rule('message', 'text that is no policy is reported once, as F-001, with the line at which it starts and the name of its file, and everything made for the report is released')
    f = prog.fn('yyerror')
    it = MsgI(prog, opaque=('make_check_result', 'display_check_result', 'free_check_result', 'get_current_module_name'), stores=False, merge=True,
              snap={'display_check_result': lambda i, st, a: Given({k: i.load(st, ('fld', a[1], 'check_data.' + k)) for k in ('mod_name', 'filename')} | {'lineno': i.load(st, ('fld', a[0], 'check_result.lineno'))})})
    args = tuple(('p', f.name, x) for x in f.params)
    F1 = prog.enum('F_ID_POLICY_SYNTAX')
    n = 0
    for v, st in it.call_function(f, args, State()):
        n += 1
        R.n('paths')
        E = [e for e in events(st) if e.kind == 'call']
        facts = pretty.pfacts(st.facts)
        mk = [e for e in E if e.name == 'make_check_result']
        dp = [e for e in E if e.name == 'display_check_result']
        if len(mk) != 1 or len(dp) != 1:
            R.v('message', loc(f), '%d results made and %d shown: [%s]' % (len(mk), len(dp), facts))
            continue
        m, d = mk[0], dp[0]
        if m.args[0] != ('i', 70) or m.args[1] != ('i', F1):
            R.v('message', m.where, 'the message is labelled %s-%s' % (pretty.pt(m.args[0]), pretty.pt(m.args[1])))
        msg = args[2]
        if not (m.args[2] == msg or len(m.args) > 3 and m.args[2] == ('s', '%s') and m.args[3] == msg):
            R.v('message', m.where, 'the text is not the one given: %s' % [pretty.pt(x) for x in m.args[2:]])
        if d.args[0] != m.ret:
            R.v('message', d.where, 'another result is shown')
        ln = strip(d.val['lineno'])
        if ln != strip(('ld', ('fld', args[0], 'location.first_line'))):
            R.v('message', d.where, 'the message carries the line %s' % pretty.pt(d.val['lineno']))
        fn = d.val['filename']
        if not any(t == ('g', 'parse#parsing_filename') for t in terms(fn)):
            R.v('message', d.where, 'the message carries the file %s' % pretty.pt(fn))
        j = E.index(d)
        fr = [e for e in E[j:] if e.name == 'free_check_result' and e.args[0] == m.ret]
        if len(fr) != 1:
            R.v('message', loc(f), 'the result is released %d times: [%s]' % (len(fr), facts))
        if any(e.name in ('free', 'free_check_result') for e in E[:j]):
            R.v('message', d.where, 'something is released before it is shown')
        made = [e for e in E if e.name in ('strdup', 'malloc', 'calloc', 'strndup')]
        for e in made:
            k = sum(x.name == 'free' and strip(x.args[0]) == strip(e.ret) for x in E)
            if k != 1:
                R.v('message', e.where, 'memory of the report is released %d times' % k)
    if it.truncated:
        R.u('message', 'path limit')
    R.functions |= it.visited_fn
    R.atleast('paths', 1)
    return R


def terms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from terms(x)
