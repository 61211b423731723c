"""R30: functions of one text, decided for every text (product of the function with the documented automaton)."""
from ..absint import NULL, State
from ..core import Result, loc
from ..lazytext import LazyI, T, explore
from .terminate import World
from .. import pretty

ESC = '\\'


# ---------------------------------------------------------------- W-004
def regex_step(s, c):
    """(mode, prev): mode 'out' | 'in' a bracket group | ('dot') an unescaped period seen just before | 'bad'"""
    mode, prev = s
    if isinstance(mode, tuple):
        return s
    if mode == 'dot':
        if c not in '*+?':
            return (('bad', '.', -1), None)
        mode = 'out'
    if mode == 'in':
        return ('out' if c == ']' and prev != ESC else 'in', c)
    if c == '[' and prev != ESC:
        return ('in', c)
    if c == '.' and prev != ESC:
        return ('dot', c)
    if c in '+*' and prev not in (ESC, '.', ']', ')'):
        return (('bad', c, 0), None)
    return ('out', c)


def regex_verdict(w):
    """None, or (character, position) of the first suspicious character"""
    s = ('out', '')
    for i, c in enumerate(w):
        s = regex_step(s, c)
        if isinstance(s[0], tuple):
            return s[0][1], i + 1 + s[0][2]
    if s[0] == 'dot':
        return '.', len(w)
    return None


def check_regex(prog):
    R = Result()
    R.rule('W-004', 'a path is reported exactly when a period, plus or asterisk of it looks unescaped, outside bracket groups; the first such character and its position are named')
    f = prog.fn('check_file_context_regex')
    node, fe, cx = ('al', 'scen', 'node'), ('al', 'scen', 'fc'), ('al', 'scen', 'cx')
    alpha = alphabet(prog, f, '.+*?[]()\\a/')
    R.sample('alphabet: %s' % ' '.join(alpha))

    def make(w, done):
        W = World()
        st = W.st
        st.mem[('fld', node, 'policy_node.flavor')] = ('i', prog.enum('NODE_FC_ENTRY'))
        st.mem[('fld', node, 'policy_node.data')] = fe
        st.mem[('fld', fe, 'fc_entry.path')] = T
        st.mem[('fld', fe, 'fc_entry.context')] = cx
        it = LazyI(prog, W, w, done)
        return it, lambda: it.call_function(f, (('al', 'scen', 'data'), node), st)

    info = {}
    for w, outs, it in explore(prog, make, alpha, ('out', ''), regex_step, info=info):
        if w is None:
            R.u('W-004', 'no end after %d texts' % outs)
            break
        R.n('texts judged')
        R.functions |= it.visited_fn
        want = regex_verdict(w)
        if it.scen.bad:
            R.v('W-004', loc(f), 'path "%s": %s' % (w, it.scen.bad[0]), key='read')
            continue
        if it.scen.odd or it.truncated or len(outs) != 1:
            R.u('W-004', 'path "%s": %s' % (w, it.scen.odd[:1] or '%d outcomes' % len(outs)))
            continue
        v, st = outs[0]
        ev = [e for e in st.cl if getattr(e, 'name', None) == 'make_check_result']
        got = None
        if v != NULL:
            if len(ev) != 1:
                R.v('W-004', loc(f), 'path "%s" ends in an internal error' % w, key='internal')
                continue
            a = ev[0].args
            got = tuple(a[3:5])
            if got[0][0] == 'i' and got[1][0] == 'i':
                got = (chr(got[0][1] & 255), got[1][1])
            if (a[0], a[1]) != (('i', ord('W')), ('i', prog.enum('W_ID_FC_REGEX'))):
                R.v('W-004', loc(f), 'path "%s" is reported as %s %s' % (w, pretty.pt(a[0]), pretty.pt(a[1])), key='id')
        if (got is None) != (want is None):
            R.v('W-004', loc(f), 'path "%s" %s' % (w, 'is not reported although "%s" at %d looks unescaped' % want if want else 'is reported although nothing in it looks unescaped'), key='verdict')
        elif want and got != want:
            R.v('W-004', loc(f), 'path "%s" is reported for %s, not for "%s" at %d' % (w, '"%s" at %s' % got if isinstance(got[0], str) else 'something else', want[0], want[1]), key='named')
    R.sample(str(info))
    R.atleast('texts judged', 40)
    return R


# ---------------------------------------------------------------- check ids
def check_ids(prog):
    R = Result()
    R.rule('id', 'a text is a check id exactly when it is the letter of a severity, a dash and three digits that give the number of a check of that severity; any text can be asked for')
    f = prog.fn('is_valid_check')
    last = {c: prog.enum(c + '_END') - 1 for c in 'CSWE'}
    last['F'] = prog.enum('F_ID_INTERNAL')

    def valid(w):
        return len(w) == 5 and w[0] in last and w[1] == '-' and w[2:].isdigit() and 1 <= int(w[2:]) <= last[w[0]]

    def make(w, done):
        W = World()
        it = LazyI(prog, W, w, done)
        return it, lambda: it.call_function(f, (T,), W.st)

    def every():
        for c in last:
            for n in range(1000):
                it, run = make('%s-%03d' % (c, n), True)
                yield '%s-%03d' % (c, n), run(), it
        info = {}
        yield from explore(prog, make, alphabet(prog, f, 'CSWEFXc-01 +'), '', lambda s, c: (s + c)[:7], limit=30000, maxlen=6, info=info)
        R.sample(str(info))

    for w, outs, it in every():
        if w is None:
            R.u('id', 'no end after %d texts' % outs)
            break
        R.n('texts judged')
        R.functions |= it.visited_fn
        if it.scen.bad:
            R.v('id', loc(f), 'asked for "%s": %s' % (w, it.scen.bad[0]), key='read')
            continue
        if it.scen.odd or it.truncated or len(outs) != 1 or outs[0][0][0] != 'i':
            R.u('id', '"%s": %s' % (w, it.scen.odd[:1] or '%d outcomes' % len(outs)))
            continue
        got = outs[0][0] != NULL
        if got != valid(w):
            R.v('id', loc(f), '"%s" is %s' % (w, 'taken for a check id' if got else 'not recognised as a check id'), key='verdict')
    R.atleast('texts judged', 40)
    return R


def alphabet(prog, f, base):
    """the characters the documentation distinguishes, those the function compares with, and one other"""
    have = set(base)
    for g in [f] + [prog.funcs[n] for n in {i.callee for i in f.instrs() if i.op == 'call'} if n in prog.funcs and prog.funcs[n].internal]:
        for i in g.instrs():
            ops = list(i.args) + ([(('i', t)) for t in i.x.keys()] if i.op == 'switch' and isinstance(i.x, dict) else [])
            if i.op == 'switch':
                ops += [('i', c) for c in switch_consts(i)]
            for a in ops:
                if i.op in ('icmp', 'switch') and a[0] == 'i' and 32 <= a[1] < 127:
                    have.add(chr(a[1]))
    return sorted(have)


def switch_consts(i):
    out = []
    for x in i.x or ():
        for y in (x if isinstance(x, (list, tuple)) else (x,)):
            if isinstance(y, int):
                out.append(y)
            elif isinstance(y, tuple) and y and y[0] == 'i':
                out.append(y[1])
    return out
