"""R04/R05: what happens for each (statement, registered check) pair; counting; display; summary."""
from ..absint import State, NULL, contains, walk, VS
from ..core import Result, loc
from ..paths import PathI, Ev, events, fnz, fval, known_null
from ..tables import strip, Spec, check_table, eq, field, Atom, And, Or, Not, Const, call, char, truth
from .. import pretty


def P(f, i):
    return ('p', f.name, f.params[i])


def _iteration(prog):
    """analyse one (statement, check) pair of call_checks; -> (result handler feed)"""


def check_suppression(prog):
    R = Result()
    R.rule('selection', 'for the statement at hand the list of checks consulted is the one registered for its kind')
    R.rule('suppress', 'a check is consulted for a statement exactly when the suppression comment stored with the statement does not name its id')
    R.rule('all-checks', 'the walk over the registered checks ends only at the end of the list')
    f = prog.fn('call_checks')
    ck, data, node = P(f, 0), P(f, 1), P(f, 2)
    lst = ('ld', ('idx', ('fld', ck, 'checks.check_nodes'), ('ld', ('fld', node, 'policy_node.flavor'))))
    exc = ('ld', ('fld', node, 'policy_node.exceptions'))
    seen = {'iter': 0}

    def on_iter(it, st, fn, header, evs, killed):
        els = [g for g in killed if g[0] == 'elem' and g[2][0] == '%struct.check_node']
        if not els:
            return
        e = els[0]
        if strip(e[1]) != strip(lst):
            R.v('selection', loc(fn), 'the checks consulted are %s, not those registered for the kind of the statement' % pretty.pt(e[1]))
            return
        seen['iter'] += 1
        R.n('iteration paths')
        cid = ('ld', ('fld', e, 'check_node.check_id'))
        calls = [x for x in evs if x.name == '*']
        has = fnz(st, exc)
        m = None
        for k, v in st.facts.items():
            if k[0] == 'call' and k[1] == 'strstr':
                a, b = strip(k[2][0]), strip(k[2][1])
                if (a, b) == (strip(exc), strip(cid)):
                    m = fnz(st, k)
        sup = False if has is False else m if has else (None if m is None else m)
        if has is None and m is None:
            sup = None
        foreign = [k for k in st.facts if k[0] == 'call' and k[1] not in ('strstr', '*')] + [k for k in st.facts if k[0] in ('op', 'hv', 'phi', 'cmp')]
        if len(calls) > 1:
            R.v('suppress', calls[1].where, 'a check is consulted more than once for one statement')
        if calls:
            c = calls[0]
            if strip(c.args[0]) != ('ld', ('fld', strip(e), 'check_node.check_function')) or c.args[1:] != (data, node):
                R.v('suppress', c.where, 'the call made for a check is %s(%s)' % (pretty.pt(c.args[0]), ', '.join(map(pretty.pt, c.args[1:]))))
            if sup is True:
                R.v('suppress', c.where, 'a check named in the suppression comment of the statement is consulted anyway')
            elif sup is None:
                if foreign:
                    R.u('suppress', 'suppression decided by %s' % '; '.join(pretty.pt(k) for k in foreign))
                else:
                    R.v('suppress', c.where, 'a check is consulted without asking whether the statement suppresses it, on the path [%s]' % pretty.pfacts(st.facts))
        else:
            if sup is False:
                R.v('suppress', loc(fn), 'a check is skipped although the statement carries no suppression of it, on the path [%s]' % pretty.pfacts(st.facts))
            elif sup is None:
                if foreign:
                    R.u('suppress', 'suppression decided by %s' % '; '.join(pretty.pt(k) for k in foreign))
                else:
                    R.v('suppress', loc(fn), 'a check is skipped without its id being matched against the suppression comment, on the path [%s]' % pretty.pfacts(st.facts))
    it = PathI(prog, opaque={'display_check_result', 'free_check_result'}, on_iter=on_iter)
    rets = it.call_function(f, (ck, data, node), State())
    R.functions |= it.visited_fn
    for v, st in rets:
        R.n('exit paths')
        done = known_null(st, strip_find(st, lst)) is True or any(
            k[0] == 'elem' and strip(k[1]) == strip(lst) and x.eq == NULL for k, x in st.facts.items())
        if not done:
            R.v('all-checks', loc(f), 'a path leaves the walk over the registered checks before the end: [%s]' % pretty.pfacts(st.facts))
        if v != NULL:
            R.u('all-checks', 'call_checks returns %s' % pretty.pt(v))
    R.atleast('iteration paths', 2)
    return R


def strip_find(st, t):
    for k in st.facts:
        if strip(k) == strip(t):
            return k
    return t


def check_counting(prog):
    R = Result()
    R.rule('count', 'every finding a check returns raises the issue flag, adds one to that check\'s count, carries the statement\'s line, and is printed unless output is suppressed')
    R.rule('lifetime', 'a finding is released exactly once, after its last use')
    R.rule('display', 'a printed finding shows the file, line, severity, message and id of that finding')
    R.rule('make', 'a finding is created with the severity, number and message it was asked for')
    f = prog.fn('call_checks')
    ck, data, node = P(f, 0), P(f, 1), P(f, 2)
    G = {n: ('g', n) for n in ('found_issue', 'suppress_output')}

    def on_iter(it, st, fn, header, evs, killed):
        els = [g for g in killed if g[0] == 'elem' and g[2][0] == '%struct.check_node']
        if not els:
            return
        e = els[0]
        calls = [x for x in evs if x.name == '*']
        if not calls:
            return
        res = calls[0].ret
        isr = fnz(st, res)
        if isr is None:
            if any(contains(k, {res}) for k in st.facts) or True:
                R.v('count', calls[0].where, 'the outcome of a check is not looked at on the path [%s]' % pretty.pfacts(st.facts))
            return
        R.n('outcome paths')
        stores = [x for x in evs if x.kind == 'store']
        fi = [x for x in stores if x.addr == G['found_issue']]
        cnt = [x for x in stores if x.addr[0] == 'fld' and x.addr[2] == 'check_node.issues_found']
        ln = [x for x in stores if x.addr[0] == 'fld' and x.addr[2] == 'check_result.lineno']
        disp = [x for x in evs if x.name == 'display_check_result']
        fr = [x for x in evs if x.name in ('free_check_result', 'free')]
        if not isr:
            for x in fi + cnt + disp:
                R.v('count', x.where, 'a check that reports nothing still %s' % ('raises the issue flag' if x in fi else 'is counted' if x in cnt else 'is printed'))
            return
        w = calls[0].where
        if not fi or not all(fnz(st, x.val) for x in fi[-1:]):
            R.v('count', w, 'a finding does not raise the issue flag the exit status depends on')
        if len(cnt) != 1 or cnt[0].addr[1] != e or strip(cnt[0].val) != ('op', 'add', ('ld', ('fld', strip(e), 'check_node.issues_found')), ('i', 1)):
            R.v('count', cnt[0].where if cnt else w, 'a finding does not add exactly one to the count of the check that made it%s' % (': ' + '; '.join(repr(x) for x in cnt) if cnt else ''))
        lnv = ('ld', ('fld', node, 'policy_node.lineno'))
        if len(ln) != 1 or ln[0].addr[1] != res or strip(ln[0].val) != lnv:
            R.v('count', w, 'a finding does not carry the line number of the statement it is about')
        so = fnz(st, ('ld', G['suppress_output']))
        if so is None:
            R.v('count', w, 'a finding is %s without asking whether output is suppressed' % ('printed' if disp else 'not printed'))
        elif so is False and len(disp) != 1:
            R.v('count', w, 'a finding is printed %d times although output is on' % len(disp))
        elif so is True and disp:
            R.v('count', disp[0].where, 'a finding is printed although only the summary was asked for')
        for d in disp:
            if d.args != (res, data):
                R.v('count', d.where, 'what is printed is not the finding of this check for this file')
            if ln and evs.index(d) < evs.index(ln[0]):
                R.v('count', d.where, 'the finding is printed before its line number is set')
        frr = [x for x in fr if x.args[0] == res]
        if len(frr) != 1:
            R.v('lifetime', w, 'a finding is released %d times' % len(frr))
        else:
            for x in evs[evs.index(frr[0]) + 1:]:
                if x.kind == 'call' and res in x.args or x.kind == 'store' and contains(x.addr, {res}):
                    R.v('lifetime', x.where, 'a finding is used after it was released')
    it = PathI(prog, opaque={'display_check_result', 'free_check_result'}, on_iter=on_iter)
    it.call_function(f, (ck, data, node), State())
    R.functions |= it.visited_fn
    # display
    f = prog.fn('display_check_result')
    it = PathI(prog, opaque=set(), quiet={'color_severity', 'color_reset', 'color_ok', 'color_note', 'color_warning', 'color_error'})
    r, d = P(f, 0), P(f, 1)
    fld = lambda b, x: ('ld', ('fld', b, x))
    for v, st in it.call_function(f, (r, d), State()):
        pr = [x for x in events(st) if x.name in ('printf', 'fprintf', 'puts', 'putchar')]
        if not pr:
            R.v('display', loc(f), 'a path prints nothing: [%s]' % pretty.pfacts(st.facts))
        got = [strip(a) for x in pr for a in x.args]
        sev = fld(r, 'check_result.severity')
        for what, t in (('file name', fld(d, 'check_data.filename')), ('line number', fld(r, 'check_result.lineno')), ('severity', sev),
                        ('message', fld(r, 'check_result.message')), ('check number', fld(r, 'check_result.check_id'))):
            R.n('display fields')
            if t not in got:
                R.v('display', loc(f), 'the %s of a finding is not printed' % what)
        flat = [t for t in got if t in (fld(d, 'check_data.filename'), fld(r, 'check_result.lineno'), sev, fld(r, 'check_result.message'), fld(r, 'check_result.check_id'))]
        want = [fld(d, 'check_data.filename'), fld(r, 'check_result.lineno'), sev, fld(r, 'check_result.message'), sev, fld(r, 'check_result.check_id')]
        if set(want) <= set(flat) and flat != want:
            R.v('display', loc(f), 'a finding is printed as [%s], not as file: line: (severity): message (severity-number)' % ', '.join(map(pretty.pt, flat)))
        R.n('display paths')
    R.functions |= it.visited_fn
    # make_check_result
    f = prog.fn('make_check_result')
    it = PathI(prog)
    sev, num, fmt = P(f, 0), P(f, 1), P(f, 2)
    for v, st in it.call_function(f, (sev, num, fmt), State()):
        if v == NULL or v is None:
            continue
        R.n('creation paths')
        va = [x for x in events(st) if x.name in ('vasprintf', 'vsnprintf', '__vasprintf_chk')]
        failed = any(st.vs(x.ret) is not None and st.vs(x.ret).eq == ('i', -1) for x in va)
        last = {x.addr: x.val for x in events(st) if x.kind == 'store'}
        s = last.get(('fld', v, 'check_result.severity'))
        n = last.get(('fld', v, 'check_result.check_id'))
        if failed:
            continue
        if s != sev or n != num:
            R.v('make', loc(f), 'a finding asked for as (severity, number) is created as (%s, %s)' % (pretty.pt(s) if s else 'unset', pretty.pt(n) if n else 'unset'))
        if not any(fmt in x.args for x in va):
            R.v('make', loc(f), 'the message of a finding does not come from its format on the path [%s]' % pretty.pfacts(st.facts))
    R.functions |= it.visited_fn
    R.atleast('outcome paths', 3)
    R.atleast('creation paths', 1)
    R.atleast('display paths', 1)
    return R
