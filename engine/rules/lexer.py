"""R16: which text is which token.

The scanner automaton flex builds from lex.l is compared, state by state, with the automaton of the documented lexical
rules (longest match, first rule wins); every rule's action is interpreted for the token, operand text and position it yields."""
try:
    from re import _parser as sre, _constants as sc
except ImportError:                                   # older python
    import sre_parse as sre
    import sre_constants as sc
from ..absint import State, NULL, VS, contains, AnalysisBroken
from ..slicefn import slice_fn, action_switch
from ..core import Result, loc
from ..paths import PathI, Ev, events
from ..tables import strip
from .. import pretty

KEYWORDS = '''policy_module module type typealias alias attribute bool typeattribute roleattribute role types attribute_role allow allowxperm
 auditallow auditallowxperm dontaudit dontauditxperm neverallow neverallowxperm type_transition type_member type_change range_transition role_transition
 optional_policy gen_require gen_bool gen_tunable require tunable_policy ifelse refpolicywarn class common inherits if else ifdef ifndef genfscon sid
 portcon netifcon nodecon fs_use_trans fs_use_xattr fs_use_task define gen_user gen_context permissive typebounds interface template userdebug_or_eng'''.split()
# token of a keyword where it is not its upper-case spelling
TOKEN = {'typeattribute': 'TYPE_ATTRIBUTE', 'roleattribute': 'ROLE_ATTRIBUTE', 'allowxperm': 'ALLOW_XPERM', 'auditallow': 'AUDIT_ALLOW', 'auditallowxperm': 'AUDIT_ALLOW_XPERM',
         'dontaudit': 'DONT_AUDIT', 'dontauditxperm': 'DONT_AUDIT_XPERM', 'neverallow': 'NEVER_ALLOW', 'neverallowxperm': 'NEVER_ALLOW_XPERM'}
PUNCT = {'(': 'OPEN_PAREN', ')': 'CLOSE_PAREN', ',': 'COMMA', '.': 'PERIOD', '{': 'OPEN_CURLY', '}': 'CLOSE_CURLY', ':': 'COLON', ';': 'SEMICOLON', '`': 'BACKTICK',
         "'": 'SINGLE_QUOTE', '~': 'TILDA', '*': 'STAR', '-': 'DASH', '&&': 'AND', '||': 'OR', '^': 'XOR', '!=': 'NOT_EQUAL', '!': 'NOT', '==': 'EQUAL'}


def keyword(w):
    return TOKEN.get(w, w.upper())


# (what, pattern, followed by, token or None for text that is skipped, token carries its text)
CLASSES = [
    ('a version number', r'[0-9]+\.[0-9]+(\.[0-9]+)?', '', 'VERSION_NO', True),
    ('a number', r'[0-9]+', '', 'NUMBER', True),
    ('an identifier', r'[a-zA-Z$/][a-zA-Z0-9_$*/-]*', '', 'STRING', True),
    ('an identifier that starts with a digit', r'[0-9a-zA-Z$/][a-zA-Z0-9_$*/-]*', '', 'NUM_STRING', True),
    ('an IPv4 address', r'[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}', '', 'IPV4', True),
    ('an IPv6 address', r'([0-9A-Fa-f]{1,4})?:([0-9A-Fa-f:])*:([0-9A-Fa-f]{1,4})?', '', 'IPV6', True),
    ('a quoted string', r'"[a-zA-Z0-9_.:~$-]*"', '', 'QUOTED_STRING', True),
    ('a file type specifier', r'-[ldbcsp-][ \t]', '', 'FILE_TYPE_SPECIFIER', False),
    ('a selint-disable comment', r'#selint-disable: ?[CSWEF]-[0-9]+(, ?[CSWEF]-[0-9]+)*', '\n', 'SELINT_COMMAND', True),
    ('a comment', r'#[^\n]*', '\n', 'COMMENT', False),
    ('an m4 comment', r'dnl([^a-zA-Z0-9_\n][^\n]*)?', '\n', None, False),
    ('white space', r'[ \t\n\r]', '', None, False),
    ('any other character', r'[^\n]', '', 'UNKNOWN_TOKEN', False),
]


def spec():
    out = [('the keyword ' + k, esc(k), '', keyword(k), False) for k in KEYWORDS]
    out += CLASSES[:8]
    out += [("'%s'" % p, esc(p), '', t, False) for p, t in PUNCT.items()]
    return out + CLASSES[8:]


def esc(s):
    return ''.join(c if c.isalnum() or c == '_' else '\\' + c for c in s)


# ------------------------------------------------------------------ patterns -> nfa -> dfa

class Nfa:
    def __init__(self):
        self.eps, self.tr = [], []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def add(self, items, s):
        for op, a in items:
            s = self.one(op, a, s)
        return s

    def one(self, op, a, s):
        e = None
        if op is sc.LITERAL:
            cs = frozenset((a,))
        elif op is sc.NOT_LITERAL:
            cs = frozenset(range(256)) - {a}
        elif op is sc.IN:
            neg, cs = False, set()
            for o, x in a:
                if o is sc.NEGATE:
                    neg = True
                elif o is sc.LITERAL:
                    cs.add(x)
                elif o is sc.RANGE:
                    cs.update(range(x[0], x[1] + 1))
                else:
                    raise AnalysisBroken('pattern')
            cs = frozenset(range(256)) - cs if neg else frozenset(cs)
        elif op is sc.SUBPATTERN:
            return self.add(a[3], s)
        elif op is sc.BRANCH:
            e = self.new()
            for b in a[1]:
                x = self.new()
                self.eps[s].append(x)
                self.eps[self.add(b, x)].append(e)
            return e
        elif op is sc.MAX_REPEAT:
            lo, hi, sub = a
            for _ in range(lo):
                s = self.add(sub, s)
            if hi is sc.MAXREPEAT:
                l = self.new()
                self.eps[s].append(l)
                self.eps[self.add(sub, l)].append(l)
                return l
            e = self.new()
            self.eps[s].append(e)
            for _ in range(hi - lo):
                s = self.add(sub, s)
                self.eps[s].append(e)
            return e
        else:
            raise AnalysisBroken('pattern %s' % op)
        e = self.new()
        self.tr[s].append((cs, e))
        return e

    def closure(self, ss):
        out, work = set(ss), list(ss)
        while work:
            for x in self.eps[work.pop()]:
                if x not in out:
                    out.add(x)
                    work.append(x)
        return frozenset(out)


class Dfa:
    def __init__(self, rules):
        n = self.n = Nfa()
        self.start0 = n.new()
        self.acc = {}
        for i, (what, pat, after, _t, _x) in enumerate(rules):
            b = n.new()
            n.eps[self.start0].append(b)
            e = n.add(sre.parse(pat + after.replace('\n', r'\n')), b)
            self.acc[e] = i
        self.start = n.closure((self.start0,))
        self.memo = {}

    def next(self, S, c):
        k = (S, c)
        if k not in self.memo:
            self.memo[k] = self.n.closure({e for s in S for cs, e in self.n.tr[s] if c in cs})
        return self.memo[k]

    def accept(self, S):
        return min((self.acc[s] for s in S if s in self.acc), default=None)


# ------------------------------------------------------------------ actions

SKIP = -77
YYG, LVAL, LLOC, CP, BP = ('obj', 'scanner'), ('obj', 'yylval'), ('obj', 'yylloc'), ('obj', 'cp'), ('obj', 'bp')


class LexI(PathI):
    def init_load(self, st, addr):
        if addr[0] == 'fld' and addr[1] == YYG:
            n = addr[2].split('.')[1]
            if n == 'yylval_r':
                return LVAL
            if n == 'yylloc_r':
                return LLOC
            return ('guts', n)
        if addr[0] == 'fld' and addr[1][0] == 'ld' and addr[2].startswith('yy_buffer_state.'):
            return ('buf', addr[2].split('.')[1])
        return None

    def on_call(self, st, ins, name, args):
        if name == 'strdup' or name == 'strndup' and args[1] in (('guts', 'yyleng_r'), self.load(st, ('fld', YYG, 'yyguts_t.yyleng_r'))):
            v = ('dup', args[0], ins.uid)
            return [(v, st)]
        return super().on_call(st, ins, name, args)


def rule_actions(prog, only):
    f = prog.fn('yylex')
    sw = action_switch(f)
    dflt, cases = sw.x
    out = {}
    # blocks on the way from the entry to the switch
    ent, work = set(), [f.entry()]
    while work:
        b = work.pop()
        if b in ent or b == sw.bb.name:
            continue
        ent.add(b)
        work.extend(f.blocks[b].succ)
    stop = {b: SKIP for b in ent}
    stop[sw.bb.name] = SKIP
    for num, lab in cases:
        if num not in only:
            continue
        g = slice_fn(f, 'lexaction.%d' % num, lab, stop)
        I = LexI(prog)
        args = []
        for p in g.params:
            if p.lstrip('%') == 'yyscanner' or '%struct.yyguts_t' in g.sty.get(p, ()):
                args.append(YYG)
            elif p.lstrip('%') == 'yylval_param':
                args.append(LVAL)
            elif p.lstrip('%') == 'yylloc_param':
                args.append(LLOC)
            else:
                args.append(('obj', p))
        out[num] = (g, [(v, s) for v, s in I.call_function(g, tuple(args), State())])
    return out


def reached(acc, nxt, start):
    seen, work = {start}, [start]
    while work:
        s = work.pop()
        for c in range(1, 256):
            n = nxt[s][c]
            if n > 0 and n not in seen:
                seen.add(n)
                work.append(n)
    return {acc[s] for s in seen if acc[s] and s != start}


def owner(t):
    while t[0] in ('fld', 'idx'):
        t = t[1]
    return t


def field(t):
    return t[2].split('.')[1] if t[0] == 'fld' else None


def check(prog):
    R = Result()
    R.rule('tokens', 'every text is divided into the documented tokens: keywords, identifiers, numbers, addresses, quoted strings, punctuation, comments')
    R.rule('operand', 'a token with an operand carries its own copy of exactly the text matched')
    R.rule('position', 'a token carries the line and columns at which it stands')
    from .grammar import Lalr
    lal = Lalr(prog.grammar_xml)
    rules = spec()
    S = Dfa(rules)
    acc, nxt, start = prog.lexer
    acts = rule_actions(prog, reached(acc, nxt, start))
    R.n('scanner states', len(nxt))
    R.n('documented token rules', len(rules))
    # what a rule number does: token number / skip
    does = {}
    f = prog.fn('yylex')
    for n, (g, outs) in acts.items():
        res = set()
        for v, s in outs:
            lval = None
            back = changed = False
            for e in events(s):
                if e.kind != 'store':
                    continue
                if e.addr == LVAL:
                    lval = e.val
                elif owner(e.addr)[0] == 'dup':
                    changed = True
                elif e.addr[0] == 'fld' and e.addr[2] == 'yyguts_t.yy_c_buf_p':
                    back = True
            text = s.mem.get(('fld', YYG, 'yyguts_t.yytext_r'), ('guts', 'yytext_r'))
            if lval is not None and lval[0] == 'dup' and lval[1] == text:
                lval = ('text',) if not changed else ('changed',)
            res.add((v, lval, back))
        does[n] = (g, res, outs)

    num = lal_numbers(prog)
    seen, work, bad = {(start, S.start): ''}, [(start, S.start)], {}
    pairs = 0
    while work:
        a, b = work.pop(0)
        w = seen[a, b]
        for c in range(1, 256):
            na = nxt[a][c]
            na = na if na > 0 else 0
            nb = S.next(b, c)
            if not na and not nb:
                continue
            la = acc[na] if na else 0
            lb = S.accept(nb) if nb else None
            R.n('transitions compared')
            if (na, nb) in seen:
                continue
            seen[na, nb] = w + chr(c)
            pairs += 1
            got = None
            if la:
                if la not in acts:
                    raise AnalysisBroken('scanner rule %d without action' % la)
                got = la
            blank = not nb and not (w + chr(c)).strip(' \t\n\r') and all(v == ('i', SKIP) for v, _, _ in (does[got][1] if got else ()))
            if blank:
                # blanks skipped at once or one by one
                work.append((na, nb))
                continue
            if not judge(R, prog, lal, num, does, rules, got, lb, w + chr(c), bad):
                continue            # one difference explains what follows it
            if not na or not nb:
                # nothing is recognised from here on one side: the other must not recognise anything either
                other = lives(nxt, acc, na) if na else slives(S, nb)
                if other:
                    key = ('live', bool(na), other[1])
                    if key not in bad:
                        bad[key] = 1
                        txt = w + chr(c) + other[0]
                        what = 'rule %d of the scanner' % other[1] if na else rules[other[1]][0]
                        R.v('tokens', at(acts[other[1]][0]) if na else '%s:%d' % (f.file, f.line), 'the text %s is %s, %s' % (show(txt), 'recognised by ' + what if na else 'not recognised', 'which no documented token is' if na else 'although it is ' + what))
                continue
            work.append((na, nb))
    R.n('states compared', pairs)
    positions(R, prog, acts, acc)
    eol(R, prog)
    return R


def at(g):
    return '%s:%d' % (g.file, g.line)


def show(t):
    return repr(t)


def lives(nxt, acc, s):
    """shortest text from s to an accepting state"""
    seen, work = {s: ''}, [s]
    while work:
        x = work.pop(0)
        for c in range(1, 256):
            n = nxt[x][c]
            if n > 0 and n not in seen:
                seen[n] = seen[x] + chr(c)
                if acc[n]:
                    return seen[n], acc[n]
                work.append(n)
    return None


def slives(S, b):
    seen, work = {b: ''}, [b]
    while work:
        x = work.pop(0)
        for c in range(1, 256):
            n = S.next(x, c)
            if n and n not in seen:
                seen[n] = seen[x] + chr(c)
                if S.accept(n) is not None:
                    return seen[n], S.accept(n)
                work.append(n)
    return None


def lal_numbers(prog):
    import xml.etree.ElementTree as ET
    return {t.get('name'): int(t.get('token-number')) for t in ET.fromstring(prog.grammar_xml).iter('terminal')}


def judge(R, prog, lal, num, does, rules, got, want, text, bad):
    """the scanner accepts `text` with rule `got`, the documented rules with `want`"""
    if got is None and want is None:
        return True
    if (got, want) in bad:
        return bad[got, want]
    R.n('token decisions')
    ok = True
    f = prog.fn('yylex')
    if got is None:
        R.v('tokens', '%s:%d' % (f.file, f.line), '%s (%s) is not recognised' % (show(text), rules[want][0]))
        ok = False
    elif want is None:
        R.v('tokens', at(does[got][0]), '%s is recognised as a token although it is none' % show(text))
        ok = False
    else:
        what, pat, after, tok, carries = rules[want]
        g, res, outs = does[got]
        for v, lval, back in res:
            w = ('i', num[tok]) if tok in num else None
            if tok is None:
                if v != ('i', SKIP):
                    R.v('tokens', at(g), '%s (%s) is taken for a token instead of being skipped' % (show(text), what))
                    ok = False
                continue
            if w is None:
                raise AnalysisBroken('no token %s in the grammar' % tok)
            if v == ('i', SKIP):
                R.v('tokens', at(g), '%s (%s) is skipped' % (show(text), what))
                ok = False
            elif v != w:
                name = [k for k, x in num.items() if ('i', x) == v]
                R.v('tokens', at(g), '%s (%s) is taken for %s instead of %s' % (show(text), what, name[0] if name else pretty.pt(v), tok))
                ok = False
            elif carries:
                if lval != ('text',):
                    R.v('operand', at(g), '%s (%s) carries %s instead of a copy of its text' % (show(text), what, 'nothing' if lval is None else 'an altered copy' if lval == ('changed',) else pretty.pt(lval)))
            if bool(after) != back:
                R.v('tokens', at(g), '%s (%s) %s the line end' % (show(text), what, 'does not leave' if after else 'leaves out'))
                ok = False
    bad[got, want] = ok
    return ok


def lin(t):
    """linear form {term: coefficient}"""
    if t[0] == 'i':
        return {1: t[1]} if t[1] else {}
    if t[0] == 'op' and t[1] in ('add', 'sub'):
        a, b = lin(t[2]), lin(t[3])
        k = 1 if t[1] == 'add' else -1
        out = {x: a.get(x, 0) + k * b.get(x, 0) for x in set(a) | set(b)}
        return {x: v for x, v in out.items() if v}
    return {t: 1}


def positions(R, prog, acts, acc):
    for n in sorted({x for x in acc if x in acts}):
        g, outs = acts[n]
        for v, s in outs:
            if v[0] != 'i' or v == ('i', 0):
                continue
            R.n('token actions')
            got, col = {}, None
            for e in events(s):
                if e.kind == 'store' and e.addr[0] == 'fld' and e.addr[1] == LLOC:
                    got[field(e.addr)] = e.val
                if e.kind == 'store' and e.addr[0] == 'fld' and e.addr[2] == 'yy_buffer_state.yy_bs_column':
                    col = e.val
            C, L = ('buf', 'yy_bs_column'), s.mem.get(('fld', YYG, 'yyguts_t.yyleng_r'), ('guts', 'yyleng_r'))
            want = {'first_line': {('buf', 'yy_bs_lineno'): 1}, 'last_line': {('buf', 'yy_bs_lineno'): 1}, 'first_column': {C: 1}}
            wl = dict(lin(L))
            wl[C] = wl.get(C, 0) + 1
            want['column'] = wl
            wl = dict(wl)
            wl[1] = wl.get(1, 0) - 1
            want['last_column'] = {k: x for k, x in wl.items() if x}
            got['column'] = col
            for k, w in want.items():
                x = got.get(k)
                if v == ('i', SKIP) and k != 'column':
                    continue
                if x is None or lin(x) != w:
                    R.v('position', at(g), 'the %s of a token is %s' % (k.replace('_', ' '), 'not recorded' if x is None else pretty.pt(x)))


def eol(R, prog):
    f = prog.fn('yylex')
    up = False
    for i in f.instrs():
        if i.op == 'store' and i.args[1][0] == 'l':
            d = f.defs.get(i.args[1][1])
            if d is not None and d.op == 'getelementptr' and d.x == '%struct.yy_buffer_state' and prog.field(d.x, d.args[-1][1]).endswith('yy_bs_lineno'):
                up = True
                R.n('line counts')
    if not up:
        R.v('position', '%s:%d' % (f.file, f.line), 'the scanner does not count lines')
