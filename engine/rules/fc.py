"""R13: a line of a file-contexts file is taken apart exactly as written."""
from ..absint import State, NULL, contains, walk
from ..core import Result, loc
from ..paths import PathI, Ev, events, fnz, fval, known_null
from ..tables import strip
from ..text import TextI, canon, troot, tok, char, scanned
from .. import pretty

GEN = 'gen_context('
FREES = ('free', 'free_fc_entry', 'free_sel_context')


def isnull(st, t):
    return True if t == NULL else known_null(st, t)


def find(st, name, *args):
    """truth of a pure predicate call on the path"""
    for f in st.facts:
        if f[0] == 'call' and f[1] == name and tuple(map(canon, f[2])) == tuple(map(canon, args)):
            return f, fnz(st, f)
    return None, None


def prefix(st, text, lit, n=None):
    """does the text start with lit? asked with strncmp in either order"""
    n = len(lit) if n is None else n
    for a, b in ((text, ('s', lit)), (('s', lit), text)):
        f, r = find(st, 'strncmp', a, b, ('i', n))
        if r is not None:
            return not r
    return None


def strval(st, t):
    t = canon(t)
    for k, v in st.facts.items():
        if k[0] == 'strval' and canon(k[1]) == t:
            if v.eq is not None:
                return v.eq[1], frozenset()
            return None, frozenset(x[1] for x in v.ne)
    return None, frozenset()


def trimmed_cut(st, v, base):
    """is v a text taken from base, cut at the closing parenthesis"""
    return troot(v) == canon(base)


class Unknown(Exception):
    def __init__(self, what, subject=None):
        super().__init__(what)
        self.subject = subject


def need(x, what, subject=None):
    if x is None:
        raise Unknown(what, subject)
    return x


def unasked(st, t):
    """nothing else than null, single characters and fixed prefixes is asked about the text t on this path"""
    if t is None:
        return False
    for k in st.facts:
        if not contains(k, {t}) or k == t:
            continue
        if k[0] == 'tok' or k[0] == 'ld' and char_of(k)[0] == t:
            continue
        if k[0] == 'ld' and troot(k[1]) == t and k[1][0] == 'idx' and k[1][2][0] == 'i':
            continue
        if k[0] == 'ld' and troot(k[1]) != t:
            continue
        if k[0] == 'call' and k[1] == 'strncmp' and any(a[0] == 's' for a in k[2][:2]):
            continue
        if k[0] in ('tok', 'delim') or k[0] == 'call' and canon(k[2][0]) != t and k[1] == 'parse_context':
            continue
        return False
    return True


def expect_line(st, line):
    """what the documented format makes of the line, as far as the path knows it"""
    t = [tok(line, 0, k) for k in range(3)]
    if need(isnull(st, t[0]), 'whether there is a path', t[0]):
        return None
    if need(isnull(st, t[1]), 'whether there is a second word', t[1]):
        return None
    eq, ne = char(st, t[1], 0)
    if eq is None and 45 not in ne:
        raise Unknown('whether the second word starts with -', t[1])
    obj, ctx = NULL, t[1]
    if eq == 45:
        e1, n1 = char(st, t[1], 1)
        if e1 == 0:
            return None
        e2, n2 = char(st, t[1], 2)
        if e2 is None and 0 not in n2:
            raise Unknown('whether the object class is one character', t[1])
        if e2 != 0:
            return None
        obj = ('char', t[1], 1)
        ctx = t[2]
        if need(isnull(st, ctx), 'whether there is a context', ctx):
            return None
    gen = prefix(st, ctx, GEN)
    s, ns = strval(st, ctx)
    if gen is None and s is not None:
        gen = s.startswith(GEN)
    out = dict(path=t[0], obj=obj, gen=gen, none=False)
    if need(gen, 'whether the context is a gen_context', ctx):
        src = ('idx', ctx, ('i', len(GEN)))
        c, m, k = (tok(src, 0, i) for i in range(3))
        if need(isnull(st, c), 'whether there is a context', c):
            return None
        if need(isnull(st, m), 'whether there is a level', m):
            if not need(scanned(st, c, ')'), 'whether the context is closed', c):
                return None
            out.update(ctx=c, range=None)
        elif need(isnull(st, k), 'whether there are categories', k):
            if not need(scanned(st, m, ')'), 'whether the level is closed', m):
                return None
            out.update(ctx=c, range=(m,))
        else:
            if not need(scanned(st, k, ')'), 'whether the categories are closed', k):
                return None
            out.update(ctx=c, range=(m, k))
        return out
    if s is not None and s.rstrip('\r\n') == '<<none>>':
        out.update(none=True)
        return out
    if not any(x.rstrip() == '<<none>>' for x in ns) and s is None:
        raise Unknown('whether there is no context at all', ctx)
    out.update(ctx=ctx, range=None)
    return out


def check_line(prog):
    R = Result()
    R.rule('accepted', 'a line is accepted exactly when path, class, and context have the documented form')
    R.rule('content', 'path, class, context and range of an accepted line are the parts of the line they are documented to be')
    R.rule('released', 'what is allocated for a refused line is released, once; what is returned is not')
    f = prog.fn('parse_fc_line')
    line = ('p', f.name, 'line')
    it = LineI(prog, opaque=('parse_context', 'free_fc_entry', 'free_sel_context'), stores=False, uaf=('free', 'free_fc_entry'))
    rets = it.call_function(f, (line,), State())
    if it.truncated:
        R.u('accepted', 'path limit')
    seen = {}
    for v, st in rets:
        R.n('paths')
        E = events(st)
        allocs = [e for e in E if e.name in ('malloc', 'calloc') and e.args[-1][0] == 'i' and e.args[-1][1] == 24]
        if any(fnz(st, e.ret) is False for e in allocs):
            continue
        facts = pretty.pfacts(st.facts)
        pc = [e for e in E if e.name == 'parse_context']
        ok = isnull(st, v) is False or v in [e.ret for e in allocs]
        try:
            w = expect_line(st, line)
            if w and not w['none']:
                if len(pc) != 1:
                    R.v('content', loc(f), 'the context is taken apart %d times' % len(pc)) if ok else R.u('accepted', 'refused without looking at the context [%s]' % facts)
                    continue
                if isnull(st, pc[0].ret) is None:
                    raise Unknown('whether the context could be taken apart')
                if isnull(st, pc[0].ret):
                    w = None
        except Unknown as e:
            m = 'a line is %s without knowing %s: [%s]' % ('accepted' if ok else 'refused', e, facts)
            if unasked(st, e.subject):
                R.v('accepted', loc(f), m)
            else:
                R.u('accepted', m)
            continue
        seen[(w is not None, ok)] = 1
        if (w is not None) != ok:
            R.v('accepted', loc(f), 'a line is %s although it is %s: [%s]' % ('accepted' if ok else 'refused', 'well-formed' if w else 'malformed', facts))
            continue
        released(R, it, st, f, v, ok, E, allocs, line)
        if not ok:
            continue
        R.n('accepted forms')
        g = lambda x: it.load(st, ('fld', v, 'fc_entry.' + x))
        delims(R, st, f, line, ' \t', '\r\n')
        p = g('path')
        if not (p[0] == 'dup' and p[1] == w['path']):
            R.v('content', loc(f), 'the path is %s' % pretty.pt(p))
        o = g('obj')
        oc = None
        if w['obj'] == NULL:
            if o != NULL:
                R.v('content', loc(f), 'an entry without class gets the class %s' % pretty.pt(o))
        elif not (o[0] == 'ld' and char_of(o) == (w['obj'][1], 1)):
            e1, _ = char(st, w['obj'][1], 1)
            if not (o[0] == 'i' and e1 == o[1]):
                R.v('content', loc(f), 'the class is %s' % pretty.pt(o))
        c = g('context')
        if w['none']:
            if not ended(st, it, line, None, E, None) and '<<none>>' not in [strval(st, tok(line, 0, k))[0] for k in (1, 2)] and not any('<<none>>' in strval(st, tok(line, 0, k))[1] for k in (1, 2)):
                R.v('content', loc(f), '<<none>> is only recognised with the end of the line behind it')
            if c != NULL:
                R.v('content', loc(f), 'a <<none>> entry gets the context %s' % pretty.pt(c))
            continue
        c0 = pc[0]
        if troot(c0.args[0]) != canon(w['ctx']) or c != c0.ret:
            R.v('content', c0.where, 'the context is taken from %s' % pretty.pt(c0.args[0]))
            continue
        h = it.load(st, ('fld', c, 'sel_context.has_gen_context'))
        if h[0] == 'i' and (h[1] != 0) != w['gen']:
            R.v('content', loc(f), 'a %s context is recorded as the other' % ('generated' if w['gen'] else 'plain'))
        elif h[0] != 'i':
            R.v('content', loc(f), 'whether the context is generated is not recorded: [%s]' % facts)
        if not w['gen']:
            if not ended(st, it, line, w['ctx'], E, c0):
                R.v('content', c0.where, 'the end of the line is taken for a part of the context')
            continue
        src = ('idx', tok(line, 0, 1) if w['obj'] == NULL else tok(line, 0, 2), ('i', len(GEN)))
        delims(R, st, f, src, ',', '')
        first = [n for n, e in enumerate(E) if e.name in ('strtok', 'strtok_r') and canon(e.args[0]) == src]
        words = [n for n, e in enumerate(E) if e.name in ('strtok', 'strtok_r') and e.ret[:2] == ('tok', line)]
        if first and not any(e.name in ('strcpy', 'memcpy', 'memmove', 'strncpy', 'stpcpy') and canon(e.args[0]) == line and e.args[1] == dup_of(E, line) for e in E[words[-1]:first[0]]):
            R.v('content', loc(f), 'a generated context with blanks is cut at the first one')
        cut_of(R, st, f, w['ctx'] if not w['range'] else w['range'][-1], facts)
        r = it.load(st, ('fld', c, 'sel_context.range'))
        if w['range'] is None:
            if r != NULL and r[0] != 'ld':
                R.v('content', loc(f), 'a context without level gets the range %s' % pretty.pt(r))
        elif len(w['range']) == 1:
            if r[0] != 'dup':
                (R.v if r == NULL or r[0] == 'ld' else lambda a, b, c: R.u(a, c))('content', loc(f), 'the range of a context with a level is %s' % pretty.pt(r))
            elif troot(r[1]) != canon(w['range'][0]):
                R.v('content', loc(f), 'the range is %s' % pretty.pt(r))
            elif canon(r[1]) == canon(w['range'][0]):
                R.v('content', loc(f), 'leading blanks of the level are kept')
            trimmed(R, it, st, f, r[1], 'level')
        else:
            parts = []
            for e in E:
                for a in e.args if e.name in ('strcpy', 'strcat', 'asprintf', 'snprintf', 'sprintf') else ():
                    if troot(a) == canon(w['range'][0]):
                        trimmed(R, it, st, f, a, 'level')
                    elif troot(a) == canon(w['range'][1]):
                        trimmed(R, it, st, f, a, 'categories')
                if e.name in ('strcpy', 'strcat') and e.args[0] == r:
                    if e.name == 'strcpy':
                        parts = []
                    parts.append(e.args[1] if e.args[1][0] == 's' else troot(e.args[1]))
                elif e.name in ('asprintf', 'snprintf', 'sprintf') and contains(e.args, {r}) and ('s', '%s:%s') in e.args:
                    i = e.args.index(('s', '%s:%s'))
                    parts = [troot(e.args[i + 1]), ('s', ':'), troot(e.args[i + 2])]
            want = [canon(w['range'][0]), ('s', ':'), canon(w['range'][1])]
            if parts != want:
                if parts or r == NULL or r[0] == 'ld' or r[0] == 'dup':
                    R.v('content', loc(f), 'the range of a context with level and categories is %s' % (' '.join(map(pretty.pt, parts)) or pretty.pt(r)))
                else:
                    R.u('content', 'the range is put together in a way not understood: %s' % pretty.pt(r))
    for k, n in (((True, True), 'an accepted line'), ((False, False), 'a refused line')):
        if rets and k not in seen and not R.viol and not R.und:
            R.v('accepted', loc(f), 'there is no path for %s' % n)
    R.functions |= it.visited_fn
    R.atleast('paths', 20)
    R.atleast('accepted forms', 8)
    return R


def ended(st, it, line, ctx, E, before):
    """is the line (or the word taken from it) cut or trimmed before it is used"""
    if any(canon(k) != canon(line) and troot(k) in (line, ctx) for k in it.cuts):
        return True
    for e in E:
        if e is before:
            break
        if e.name in ('strtok', 'strtok_r') and ctx is not None and e.ret == ctx and '\n' in (e.args[1][1] if e.args[1][0] == 's' else ''):
            return True
        if e.kind == 'call' and e.name not in ('strdup', 'strcpy', 'strtok', 'strlen') and any(troot(a) in (line, ctx) for a in e.args):
            return True
    return False


def delims(R, st, f, src, must, may, rule='content'):
    for k, d in st.mem.items():
        if k[0] == 'delim' and k[1][1] == canon(src):
            if d[0] != 's':
                R.u(rule, 'what separates the parts is not a constant')
            elif set(must) - set(d[1]) or set(d[1]) - set(must + may):
                R.v(rule, loc(f), 'the parts of %s are separated by %r' % (pretty.pt(src), d[1]))
                return


def dup_of(E, line):
    for e in E:
        if e.name == 'strdup' and canon(e.args[0]) == line:
            return e.ret


class LineI(TextI):
    """remembers where a line was cut before it was split"""
    cuts = ()

    def __init__(self, *a, **kw):
        self.passed = {}
        super().__init__(*a, **kw)

    def on_backedge(self, st, f, header, killed):
        for g in killed:
            if g[0] == 'iter':
                for k, v in st.facts.items():
                    if k[0] == 'ld' and v.eq is not None and v.eq[0] == 'i' and (k[1] == g or k[1][0] == 'idx' and k[1][2] == g):
                        self.passed.setdefault(g, set()).add(v.eq[1])
        super().on_backedge(st, f, header, killed)

    def on_store(self, st, ins, addr, val):
        if val == NULL and ins.ty in ('i8', None):
            self.cuts = frozenset(self.cuts) | {addr}
        super().on_store(st, ins, addr, val)


def char_of(o):
    a = o[1]
    if a[0] == 'idx' and a[2][0] == 'i':
        return canon(a[1]), a[2][1]
    return canon(a), 0


def cut_of(R, st, f, base, facts):
    """the text must end where its closing parenthesis was found, searched from its start"""
    base = canon(base)
    for k, v in st.facts.items():
        if k[0] == 'ld' and v.eq == ('i', 41) and k[1][0] == 'idx' and canon(k[1][1]) == base:
            it = k[1][2]
            if it[0] == 'iter' and it[1] != NULL:
                R.v('content', loc(f), 'the closing parenthesis is searched from position %s instead of the start of the text' % pretty.pt(it[1]))
                return
    cut = [k for k, v in st.mem.items() if v == NULL and (k[0] == 'idx' and canon(k[1]) == base or k[0] in ('iter',) and troot(k) == base or k[0] == 'call' and k[1] == 'strchr' and canon(k[2][0]) == base)]
    if not cut:
        wrote = [k for k, v in st.mem.items() if troot(k) == base or contains(k, {base})]
        if wrote:
            R.u('content', 'the end of the text is marked in a way not understood')
        else:
            R.v('content', loc(f), 'the closing parenthesis is kept as part of the text: [%s]' % facts)


def trimmed(R, it, st, f, p, what):
    """only blanks may be left out at the start of a part of the range, and all of them are"""
    for g in walk(p):
        if g[0] == 'iter':
            more = it.passed.get(g, set()) - {32, 9}
            if more:
                R.v('content', loc(f), 'the %s of a context loses leading characters that are no blanks (%s)' % (what, ', '.join(repr(chr(c)) for c in sorted(more))))
    for k, v in st.facts.items():
        if k[0] == 'ld' and k[1] == p and v.eq is None:
            out = {x[1] for x in v.ne} & {32, 9}
            if len(out) == 1:
                R.v('content', loc(f), 'the %s of a context keeps a leading %s' % (what, 'blank' if out == {9} else 'tab'))
        elif k[0] == 'ld' and k[1] == p and v.eq in (('i', 32), ('i', 9)):
            R.v('content', loc(f), 'the %s of a context keeps a leading blank' % what)


def released(R, it, st, f, v, ok, E, allocs, line):
    out = [e.ret for e in allocs]
    fr = [e for e in E if e.name in FREES]
    for e in E:
        if e.kind == 'uaf':
            R.v('released', e.where, 'something already released is used')
    for x in out:
        n = [e for e in fr if e.args[0] == x]
        if ok and n:
            R.v('released', n[0].where, 'the entry returned was released')
        if not ok and len(n) != 1:
            R.v('released', loc(f), 'a refused line releases its entry %d times' % len(n))
        if not ok and n and n[0].name == 'free':
            for fld in ('path', 'context'):
                val = it.load(st, ('fld', x, 'fc_entry.' + fld))
                if val != NULL and isnull(st, val) is not True and val[0] != 'ld' and not any(e.args[0] == val for e in fr):
                    R.v('released', n[0].where, 'the %s of a refused line is lost' % fld)
    for e in E:
        if e.name == 'strdup' and canon(e.args[0]) == line:
            n = [x for x in fr if x.args[0] == e.ret]
            if len(n) != 1:
                R.v('released', loc(f), 'the copy of the line is released %d times' % len(n))


def check_context(prog):
    R = Result()
    R.rule('fields', 'user, role, type and optional range of a context are its parts between colons; anything else is refused and released')
    f = prog.fn('parse_context')
    a = ('p', f.name, 'context')
    it = TextI(prog, opaque=('free_sel_context',), stores=False, uaf=('free', 'free_sel_context'))
    for v, st in it.call_function(f, (a,), State()):
        R.n('paths')
        E = events(st)
        facts = pretty.pfacts(st.facts)
        al = [e for e in E if e.name in ('malloc', 'calloc')]
        if any(fnz(st, e.ret) is False for e in al):
            continue
        starts = {e.ret[2] for e in E if e.name == 'strtok'}
        t = [tok(a, 0, k) for k in range(5)]
        ok = v in [e.ret for e in al]
        paren = None
        fx, r = find(st, 'strchr', a, ('i', 40))
        paren = r
        try:
            if paren is True:
                good = False
            else:
                good = True
                for k, n in enumerate(('user', 'role', 'type')):
                    if need(isnull(st, t[k]), 'whether there is a %s' % n):
                        good = False
                        break
                if good and not need(isnull(st, t[3]), 'whether there is a range'):
                    good = need(isnull(st, t[4]), 'whether more follows the range')
                if good and paren is None:
                    raise Unknown('whether it contains a parenthesis')
        except Unknown as e:
            R.u('fields', '%s without knowing %s [%s]' % ('accepted' if ok else 'refused', e, facts)) if v != NULL and not ok else R.v('fields', loc(f), 'a context is %s without knowing %s: [%s]' % ('accepted' if ok else 'refused', e, facts))
            continue
        if good != ok:
            R.v('fields', loc(f), 'a context is %s although it is %s: [%s]' % ('accepted' if ok else 'refused', 'well-formed' if good else 'malformed', facts))
            continue
        fr = [e for e in E if e.name in FREES]
        for e in al:
            n = [x for x in fr if x.args[0] == e.ret]
            if ok and n or not ok and len(n) != 1:
                R.v('fields', loc(f), 'a context that is %s is released %d times' % ('returned' if ok else 'refused', len(n)))
            if not ok and n and n[0].name == 'free':
                for x in ('user', 'role', 'type', 'range'):
                    g = it.load(st, ('fld', e.ret, 'sel_context.' + x))
                    if g[0] == 'dup' and not any(y.args[0] == g for y in fr):
                        R.v('fields', n[0].where, 'the %s of a refused context is lost' % x)
        for e in E:
            if e.kind == 'uaf':
                R.v('fields', e.where, 'something already released is used')
        if ok:
            R.n('accepted forms')
            delims(R, st, f, a, ':', '', 'fields')
            for k, n in enumerate(('user', 'role', 'type', 'range')):
                g = it.load(st, ('fld', v, 'sel_context.' + n))
                if n == 'range' and isnull(st, t[3]):
                    if g != NULL and isnull(st, g) is not True:
                        R.v('fields', loc(f), 'a context without range gets the range %s' % pretty.pt(g))
                elif not (g[0] == 'dup' and g[1] == t[k]):
                    R.v('fields', loc(f), 'the %s of a context is %s' % (n, pretty.pt(g)))
    R.functions |= it.visited_fn
    R.atleast('paths', 6)
    R.atleast('accepted forms', 2)
    return R


# ---------------------------------------------------------------- the file

class FileI(TextI):
    """reads a file line by line; every line read is the text ('line',)"""

    def on_call(self, st, ins, name, args):
        if name in ('getline', '__getdelim', 'getdelim'):
            v = ('call', name, args, ins.uid)
            t = ('line', ins.uid)
            for x in list(st.facts):
                if contains(x, {v, t}):
                    del st.facts[x]
            self.forget_text(st, t)
            for x in list(st.mem):
                if x[0] in ('tokstarts', 'delim', 'tokctx') and (contains(x, {t}) or x[0] == 'tokctx'):
                    del st.mem[x]
            st.mem[args[0]] = t
            st.assume_ne(t, NULL)
            self.ev(st, Ev('call', name, args, v, ins.where()))
            return [(v, st)]
        if name == 'insert_policy_node_next':
            v = ('call', name, args, ins.uid)
            n = ('node', ins.uid)
            for x in list(st.facts):
                if contains(x, {v}):
                    del st.facts[x]
            self.ev(st, Ev('call', name, args, v, ins.where(), val=st.mem.get(('tail',))))
            st.mem[('tail',)] = n
            st.mem[('fld', args[0], 'policy_node.next')] = n
            st.assume_ne(n, NULL)
            return [(v, st)]
        return super().on_call(st, ins, name, args)


SKIP = (('ifdef', 5), ('ifndef', 6), ("')", 2), ("', `", 4), ("',`", 3))


def bounds(st, t):
    for k, v in st.facts.items():
        if k == t or k[0] in ('zext', 'sext') and k[1] == t:
            if v.eq is not None:
                return v.eq[1], v.eq[1]
            return v.lo, v.hi
    return None, None


def skipped(st, ln, line):
    """reasons known to apply / known not to apply for leaving a line out"""
    out = {}
    lo, hi = bounds(st, ln)
    if hi is not None and hi <= 1:
        out['empty'] = True
    elif lo is not None and lo >= 2:
        out['empty'] = False
    eq, ne = char(st, line, 0)
    if eq is not None:
        out['comment'] = eq == 35
        if eq in (10, 0):
            out['empty'] = True
    elif 35 in ne:
        out['comment'] = False
    for lit, n in SKIP:
        r = prefix(st, line, lit, n)
        if r is not None:
            out[lit] = r
    if out.get('ifdef'):
        out.setdefault('ifndef', False)
    for f in st.facts:
        if f[0] == 'call' and f[1] == 'check_for_fc_macro':
            if canon(f[2][0]) != line or f[2][1][0] != 'p':
                continue
            out['macro'] = fnz(st, f)
    return out


def counted(t):
    """1 in the first iteration, one more in each next"""
    one = lambda x: x in (1, ('i', 1))
    if t[0] in ('zext', 'sext', 'trunc'):
        t = t[1]
    if t[0] == 'op':
        t = t[1:]
    if t[0] == 'add' and one(t[2]):
        return t[1][0] == 'iter' and t[1][1] == NULL and one(t[1][2])
    return t[0] == 'iter' and one(t[1]) and one(t[2])


def check_file(prog):
    R = Result()
    R.rule('every line', 'every line that is not empty, a comment, an m4 construct or a known macro call becomes one entry, in order, under its line number')
    R.rule('malformed', 'a line that cannot be taken apart becomes an error node, any other an entry that owns what was parsed')
    R.rule('whole file', 'reading ends only at the end of the file; the list is handed back, or released if it cannot be extended')
    f = prog.fn('parse_fc_file')
    en = prog.enum
    ENTRY, ERROR = en('NODE_FC_ENTRY'), en('NODE_ERROR')
    seen = {}

    def on_iter(it, st, fn, header, evs, killed):
        if fn.name != f.name:
            return
        gl = [e for e in evs if e.name in ('getline', 'getdelim')]
        if not gl:
            return
        R.n('iterations')
        facts = pretty.pfacts(st.facts)
        if len(gl) != 1:
            R.v('every line', gl[1].where, 'two lines are read for one entry')
            return
        g = gl[0]
        line = ('line', g.ret[3])
        sk = skipped(st, g.ret, line)
        ins = [e for e in evs if e.name == 'insert_policy_node_next']
        pl = [e for e in evs if e.name == 'parse_fc_line']
        if any(sk.values()):
            seen['skip'] = 1
            if ins:
                R.v('every line', ins[0].where, 'a line that is left out (%s) becomes an entry' % ', '.join(k for k in sk if sk[k]))
            return
        allk = ('empty', 'comment', 'macro') + tuple(l for l, n in SKIP)
        unk = [k for k in allk if k not in sk or sk[k] is None]
        if not ins:
            R.v('every line', g.where, 'a line is left out without being empty, a comment, an m4 construct or a macro call: [%s]' % facts)
            return
        if unk:
            R.v('every line', ins[0].where, 'a line becomes an entry without being known not to be left out (%s): [%s]' % (', '.join(unk), facts))
            return
        seen['entry'] = 1
        if len(ins) != 1 or len(pl) != 1 or canon(pl[0].args[0]) != line:
            R.v('every line', ins[0].where, 'a line becomes %d entries, taken apart %d times' % (len(ins), len(pl)))
            return
        i, p = ins[0], pl[0]
        null = isnull(st, p.ret)
        if null is None and i.args[1][0] == 'i':
            R.v('malformed', i.where, 'a line becomes a node of kind %s whether or not it could be taken apart' % pretty.pt(i.args[1]))
        elif null is not None and i.args[1] != ('i', ERROR if null else ENTRY):
            R.v('malformed', i.where, 'a line that %s becomes a node of kind %s' % ('cannot be taken apart' if null else 'was taken apart', pretty.pt(i.args[1])))
        if null is False and i.args[2] != p.ret and i.args[2] not in (('agg', p.ret),):
            R.v('malformed', i.where, 'the node owns %s' % pretty.pt(i.args[2]))
        want = i.val if i.val is not None else None
        if want is not None and i.args[0] != want:
            R.v('every line', i.where, 'an entry is not put behind the one before it')
        if want is None and i.args[0][0] != 'call':
            R.v('every line', i.where, 'the first entry is not put behind the file node')
        ln = i.args[3]
        if not counted(ln):
            R.v('every line', i.where, 'the line number of an entry is %s' % pretty.pt(ln))
        r = isnull(st, i.ret)
        if r is not True:
            R.v('whole file', i.where, 'reading goes on although the entry could not be added')
        # line buffer: either kept for the next getline, or released and the pointer cleared
        fr = [e for e in evs if e.name == 'free' and canon(e.args[0]) == line]
        cur = it.load(st, g.args[0])
        if fr and cur != NULL:
            R.v('whole file', fr[0].where, 'the next line is read into a buffer that was released')
        if not fr and cur == NULL:
            R.v('whole file', i.where, 'the buffer of the line is lost')
        if cur == NULL:
            n = it.load(st, g.args[1])
            if n != NULL:
                R.v('whole file', i.where, 'a new buffer is announced with the size of the old one') if n[0] == 'i' else None

    it = FileI(prog, opaque=('parse_fc_line', 'check_for_fc_macro', 'free_policy_node', 'free_fc_entry'), pure=('check_for_fc_macro',), stores=False, on_iter=on_iter, uaf=('free', 'free_policy_node'))
    args = tuple(('p', f.name, x) for x in f.params)
    for v, st in it.call_function(f, args, State()):
        R.n('paths')
        E = events(st)
        facts = pretty.pfacts(st.facts)
        op = [e for e in E if e.name in ('fopen', 'fdopen')]
        al = [e for e in E if e.name in ('malloc', 'calloc')]
        if any(fnz(st, e.ret) is False for e in al):
            continue
        if len(op) != 1 or op[0].args[0] != args[0]:
            R.v('whole file', loc(f), 'the file given is not the one opened')
            continue
        if isnull(st, op[0].ret):
            if v != NULL:
                R.v('whole file', loc(f), 'an unreadable file does not fail')
            continue
        cl = [e for e in E if e.name == 'fclose']
        if len(cl) != 1 or cl[0].args[0] != op[0].ret:
            R.v('whole file', loc(f), 'the file is closed %d times: [%s]' % (len(cl), facts))
        for e in E:
            if e.kind == 'uaf':
                R.v('whole file', e.where, 'something already released is used')
        gl = [e for e in E if e.name in ('getline', 'getdelim')]
        ins = [e for e in E if e.name == 'insert_policy_node_next']
        fr = [e for e in E if e.name in ('free_policy_node',)]
        if v == NULL:
            if not ins or isnull(st, ins[-1].ret) is not False:
                R.v('whole file', loc(f), 'a readable file yields nothing: [%s]' % facts)
            if len(fr) != 1 or not al or fr[0].args[0] != al[0].ret:
                R.v('whole file', loc(f), 'the list of a file that failed is released %d times' % len(fr))
            seen['failed'] = 1
            continue
        seen['done'] = 1
        if fr:
            R.v('whole file', fr[0].where, 'the list handed back was released')
        if not al or v != al[0].ret:
            R.v('whole file', loc(f), 'what is handed back is not the start of the list but %s' % pretty.pt(v))
        elif it.load(st, ('fld', v, 'policy_node.flavor')) != ('i', en('NODE_FC_FILE')):
            R.v('whole file', loc(f), 'the list does not start with a file node')
        if not gl:
            R.v('whole file', loc(f), 'nothing is read')
            continue
        g = gl[-1]
        hi = bounds(st, g.ret)[1]
        if hi is None or hi > -1:
            R.v('whole file', loc(f), 'reading ends before the end of the file: [%s]' % facts)
        n = [e for e in E if e.name == 'free' and canon(e.args[0]) == ('line', g.ret[3])]
        if len(n) != 1:
            R.v('whole file', loc(f), 'the buffer of the last line is released %d times' % len(n))
    for k, n in (('skip', 'a line is left out'), ('entry', 'a line becomes an entry'), ('done', 'the whole file is read'), ('failed', 'an entry cannot be added')):
        if k not in seen and not R.viol:
            R.u('every line', 'no path on which %s' % n)
    if it.truncated:
        R.u('every line', 'path limit')
    R.functions |= it.visited_fn
    R.atleast('paths', 2)
    R.atleast('iterations', 6)
    return R


def check_macro(prog):
    R = Result()
    R.rule('macro', 'a line is a macro call exactly if it is the name of a known macro followed by an opening parenthesis')
    f = prog.fn('check_for_fc_macro')
    line, lst = (('p', f.name, x) for x in f.params)
    seen = {}

    def conds(st, m):
        sl, sm = (('call', 'strlen', (x,), 0) for x in (line, m))
        ln = {}
        for k, v in st.facts.items():
            if k[0] == 'cmp':
                a, b = k[2], k[3]
                if is_len(a, m) and is_len(b, line) and k[1] in ('ult', 'slt'):
                    ln['len'] = fnz(st, k)
            if k[0] == 'ld':
                a = k[1]
                if a[0] == 'idx' and canon(a[1]) == line and is_len(a[2], m):
                    ln['par'] = True if v.eq == ('i', 40) else False if v.eq is not None or ('i', 40) in v.ne else None
            if k[0] == 'call' and k[1] == 'strncmp' and set(k[2][:2]) == {line, m} and is_len(k[2][2], m):
                n = fnz(st, k)
                ln['eq'] = None if n is None else not n
        return ln

    def is_len(t, x):
        return t[0] == 'call' and t[1] == 'strlen' and canon(t[2][0]) == x

    def macro_of(st):
        ms = {x for k in st.facts for x in walk(k) if x[0] in ('ld',) and x[1][0] == 'fld' and x[1][2] == 'string_list.string'}
        return ms

    def on_iter(it, st, fn, header, evs, killed):
        if fn.name != f.name or not any(k[0] == 'elem' for k in killed):
            return
        R.n('iterations')
        ms = macro_of(st)
        ok = False
        for m in ms:
            c = conds(st, m)
            if False in c.values():
                ok = True
        if not ok:
            R.v('macro', loc(f), 'a macro is passed over without being known not to match: [%s]' % pretty.pfacts(st.facts))

    it = TextI(prog, stores=False, on_iter=on_iter)
    for v, st in it.call_function(f, (line, lst), State()):
        R.n('paths')
        facts = pretty.pfacts(st.facts)
        if v[0] != 'i':
            R.u('macro', 'the answer is %s' % pretty.pt(v))
        elif v[1]:
            seen[1] = 1
            full = False
            for m in macro_of(st):
                c = conds(st, m)
                if c.get('par') and c.get('eq'):
                    full = True
            if not full:
                R.v('macro', loc(f), 'a line is taken for a macro call: [%s]' % facts)
        else:
            seen[0] = 1
            if not any(isnull(st, x) for x in [lst] + [k for k in st.facts if k[0] == 'elem']):
                R.v('macro', loc(f), 'the search ends before the last macro: [%s]' % facts)
    if len(seen) < 2 and not R.viol:
        R.v('macro', loc(f), 'the answer is always the same')
    R.functions |= it.visited_fn
    R.atleast('iterations', 1)
    return R
