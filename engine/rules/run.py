"""R06/R07: order of the phases of a run, error propagation through the runner."""
from ..absint import State, NULL, contains, walk, VS
from ..core import Result, loc
from ..paths import PathI, Ev, events, trace, fnz, known_null
from ..tables import strip
from .. import pretty


def P(f, i):
    return ('p', f.name, f.params[i])


OPQ = {'parse_one_file', 'parse_fc_file', 'call_checks', 'mark_transform_interfaces', 'cleanup_parsing', 'dfs_next'}


def list_of(t):
    """('p', fn, name) of the file list a term hangs off, following generic elements"""
    t = strip(t)
    for x in walk(t):
        if x[0] == 'elem' and x[2][0] == '%struct.policy_file_node':
            h = x[1]
            if h[0] == 'ld' and h[1][0] == 'fld' and h[1][2] == 'policy_file_list.head' and h[1][1][0] == 'p':
                return h[1][1]
            return h
    return None


def check_phases(prog):
    R = Result()
    R.rule('complete', 'a successful run has parsed every interface, context, te and fc file and checked every te, interface and fc file')
    R.rule('order', 'interfaces (including context) are read before any te file, all files before the first check; transform interfaces are marked over interface and context files before te files are read')
    R.rule('context', 'context files are never checked')
    R.rule('flavor', 'each list is parsed and checked as the kind of file it holds')
    R.rule('cleanup', 'the symbol tables are released exactly once, after the last check, on every path')
    R.rule('abort', 'a file that cannot be parsed, or a failing check call, ends the run with an error')
    R.rule('lists', 'the caller\'s file lists are the same lists afterwards')
    f = prog.fn('run_analysis')
    ck, te, iff, fc, cte, cif, macros, ccd = [P(f, i) for i in range(8)]
    nm = {te: 'te files', iff: 'interface files', fc: 'fc files', cte: 'context te files', cif: 'context interface files'}
    E = prog.enum
    head = lambda l: ('ld', ('fld', l, 'policy_file_list.head'))

    def snap_cc(it, st, args):
        d = args[1]
        ok = {}
        for fl in ('flavor', 'filename', 'mod_name', 'config_check_data'):
            ok[fl] = it.load(st, ('fld', d, 'check_data.' + fl))
        return tuple(sorted(ok.items()))
    it = None

    ploops, cloops = set(), set()

    def allev(st, fn, header):
        k = ('enter', fn.name, header)
        i = len(st.cl) - 1
        while i >= 0 and st.cl[i] != k:
            i -= 1
        for x in st.cl[i + 1:]:
            if isinstance(x, Ev):
                yield x
            elif x[0] == 'sum':
                yield from x[3]

    def over(st, L, loops):
        return any(k[0] == 'elem' and x.eq == NULL and k[3] in loops and list_of(k) == L for k, x in st.facts.items())

    def on_iter(i, st, fn, header, evs, killed):
        for g in killed:
            if g[0] == 'elem' and g[2][0] == '%struct.policy_file_node':
                if any(e.name in ('parse_one_file', 'parse_fc_file') for e in evs):
                    ploops.add(g[3])
                if any(isinstance(e, Ev) and e.name == 'call_checks' for e in allev(st, fn, header)):
                    cloops.add(g[3])
        for e in evs:
            if e.name in ('parse_one_file', 'parse_fc_file'):
                R.n('parse sites x paths')
                if fnz(st, e.ret) is not True:
                    R.v('abort', e.where, 'the run goes on to the next file although %s may have failed' % e.name)
            if e.name == 'call_checks':
                R.n('check sites x paths')
                if fnz(st, e.ret) is not False:
                    R.v('abort', e.where, 'the run goes on although a check call failed')

    it = PathI(prog, opaque=OPQ, summaries=True, stores=True, on_iter=on_iter, snap={'call_checks': snap_cc}, quiet={'print_if_verbose'}, immutable=True, keep_facts=lambda k, v: k[0] == 'elem' and k[2][0] == '%struct.policy_file_node' or k[0] == 'call' and k[1] in OPQ
                or k[0] == 'ld' and k[1][0] == 'fld' and k[1][2] in ('policy_file_list.head', 'policy_file_list.tail'))
    it.keep = lambda e: e.kind == 'call' and e.name in OPQ or e.kind == 'store' and e.addr[0] == 'fld' and e.addr[2] in ('policy_file_list.head', 'policy_file_list.tail', 'policy_file_node.next')
    rets = it.call_function(f, (ck, te, iff, fc, cte, cif, macros, ccd), State())
    R.functions |= it.visited_fn
    wanted_parse = [(iff, E('NODE_IF_FILE')), (cif, E('NODE_IF_FILE')), (cte, E('NODE_TE_FILE')), (te, E('NODE_TE_FILE')), (fc, None)]
    wanted_check = [(te, E('FILE_TE_FILE')), (iff, E('FILE_IF_FILE')), (fc, E('FILE_FC_FILE'))]
    for v, st in rets:
        tr = trace(st)
        R.n('paths')
        clean = [k for k, (e, l) in enumerate(tr) if e.name == 'cleanup_parsing']
        if len(clean) != 1:
            R.v('cleanup', loc(f), 'the symbol tables are released %d times on a path' % len(clean))
        elif any(e.kind == 'call' for e, l in tr[clean[0] + 1:]):
            R.v('cleanup', tr[clean[0]][0].where, 'files are parsed or checked after the symbol tables were released')
        done_p, done_c = {}, {}
        first_check = None
        marked = None
        for k, (e, l) in enumerate(tr):
            if e.name in ('parse_one_file', 'parse_fc_file'):
                L = list_of(e.args[0])
                if L not in nm:
                    R.u('complete', '%s parses %s' % (e.where, pretty.pt(e.args[0])))
                    continue
                fl = e.args[1][1] if e.name == 'parse_one_file' and e.args[1][0] == 'i' else None
                if (L, fl) not in wanted_parse:
                    R.v('flavor', e.where, 'the %s are parsed as %s' % (nm[L], 'file contexts' if fl is None else 'node kind %s' % fl))
                if e.name == 'parse_fc_file' and e.args[1] != macros:
                    R.v('flavor', e.where, 'the configured custom macros are not used when parsing fc files')
                done_p.setdefault(L, k)
                if first_check is not None:
                    R.v('order', e.where, 'the %s are parsed after checking has begun' % nm[L])
                if l is None and fnz(st, e.ret) is not True:
                    # the run stops here
                    if v is None or fnz(st, v) is not True:
                        R.v('abort', e.where, 'a run in which %s fails can end in success' % e.name)
            elif e.name == 'call_checks':
                first_check = k if first_check is None else first_check
                d = dict(e.val)
                L = list_of(d['filename']) if list_of(d['filename']) else list_of(e.args[2])
                astl = list_of(e.args[2])
                if astl is None and e.args[2][0] != 'al':
                    R.u('context', '%s: checks run on %s' % (e.where, pretty.pt(e.args[2])))
                if astl is not None and astl not in (te, iff, fc):
                    R.v('context', e.where, 'checks are run on %s' % nm.get(astl, pretty.pt(astl)))
                if astl is not None and (astl, d['flavor'][1] if d['flavor'][0] == 'i' else None) not in wanted_check:
                    R.v('flavor', e.where, 'the %s are checked as file kind %s' % (nm.get(astl, '?'), pretty.pt(d['flavor'])))
                if d['config_check_data'] != ccd:
                    R.v('flavor', e.where, 'checks do not see the configured options')
                if astl is not None:
                    done_c.setdefault(astl, k)
                if l is None and fnz(st, e.ret) is not False and fnz(st, v) is not True and strip(v) != strip(e.ret):
                    R.v('abort', e.where, 'a run in which a check call fails can end in success')
            elif e.name == 'mark_transform_interfaces':
                marked = k
        # order
        for L in (iff, cif):
            for M in (te, cte):
                if L in done_p and M in done_p and done_p[L] > done_p[M]:
                    R.v('order', loc(f), 'the %s are parsed before the %s' % (nm[M], nm[L]))
        if marked is not None:
            for L in (iff, cif):
                if done_p.get(L, -1) > marked:
                    R.v('order', loc(f), 'transform interfaces are marked before the %s are parsed' % nm[L])
            for L in (te, cte):
                if L in done_p and done_p[L] < marked:
                    R.v('order', loc(f), 'transform interfaces are marked after the %s are parsed' % nm[L])
        if fnz(st, v) is False:
            R.n('success paths')
            for L, fl in wanted_parse:
                if L not in done_p and fnz(st, head(L)) is not False and not over(st, L, ploops):
                    R.v('complete', loc(f), 'a run can succeed without parsing the %s' % nm[L])
            for L, fl in wanted_check:
                if L not in done_c and fnz(st, head(L)) is not False and not over(st, L, cloops):
                    # the body may run zero times for an empty file: an ast is never NULL here
                    R.v('complete', loc(f), 'a run can succeed without checking the %s' % nm[L])
            if marked is None:
                R.v('complete', loc(f), 'a run can succeed without marking the transform interfaces')
        # list restoration
        lastw = {}
        for e, l in tr:
            if e.kind == 'store' and e.addr[1][0] != 'call':
                lastw[e.addr] = e
        for a, e in lastw.items():
            if e.val != NULL and fnz(st, e.val) is not False and not (contains(a, {('never',)})):
                R.v('lists', e.where, 'the file lists handed in are left joined: %s := %s' % (pretty.pt(a), pretty.pt(e.val)))
    if it.truncated:
        R.u('complete', 'path limit')
    R.atleast('success paths', 1)
    R.atleast('parse sites x paths', 3)
    return R


def check_walk(prog):
    R = Result()
    R.rule('every-node', 'a file is checked statement by statement from its root with the documented successor until none is left')
    R.rule('cleanup-call', 'after the last statement the checks are told to clean up, once')
    R.rule('stop', 'an error from a check call ends the file with that error')
    f = prog.fn('run_checks_on_one_file')
    ck, data, head = [P(f, i) for i in range(3)]
    E = prog.enum

    def on_iter(i, st, fn, header, evs, killed):
        els = [g for g in killed if g[0] == 'elem' and g[2] == 'dfs_next']
        calls = [e for e in evs if e.name == 'call_checks']
        R.n('iteration paths')
        if not els:
            if calls:
                R.u('every-node', 'the statement walk in %s is not a walk along dfs_next' % fn.src)
            return
        e = els[0]
        if strip(e[1]) != head:
            R.v('every-node', loc(fn), 'the walk starts at %s, not at the root of the file' % pretty.pt(e[1]))
        if len(calls) != 1 or calls[0].args[2] != e:
            R.v('every-node', calls[0].where if calls else loc(fn), 'a statement is handed to the checks %d times' % len([c for c in calls if c.args[2] == e]))
        elif calls[0].args[:2] != (ck, data):
            R.v('every-node', calls[0].where, 'the checks are called with other data than this file\'s')
        elif fnz(st, calls[0].ret) is not False:
            R.v('stop', calls[0].where, 'the walk goes on after an error')
    flav = {}

    def snap(it, st, args):
        return it.load(st, ('fld', args[2], 'policy_node.flavor'))
    it = PathI(prog, opaque={'call_checks'}, pure={'dfs_next'}, on_iter=on_iter, snap={'call_checks': snap})
    for v, st in it.call_function(f, (ck, data, head), State()):
        R.n('exit paths')
        ev = events(st)
        walk_done = any(k[0] == 'elem' and k[2] == 'dfs_next' and x.eq == NULL for k, x in st.facts.items()) or fnz(st, head) is False
        last = [e for e in ev if e.name == 'call_checks']
        cl = [e for e in last if e.val == ('i', E('NODE_CLEANUP'))]
        if walk_done:
            if len(cl) != 1:
                R.v('cleanup-call', loc(f), 'after the last statement the checks get %d clean-up calls' % len(cl))
            elif v != cl[0].ret and fnz(st, v) is not None and fnz(st, v) != fnz(st, cl[0].ret):
                R.v('stop', loc(f), 'the outcome of the clean-up call is not the outcome of the file')
        else:
            if not last or fnz(st, last[-1].ret) is False:
                R.v('every-node', loc(f), 'a path ends the walk before the last statement: [%s]' % pretty.pfacts(st.facts))
            elif strip(v) != strip(last[-1].ret) and fnz(st, v) is not True:
                R.v('stop', loc(f), 'an error of a check call is not the outcome of the file')
    R.functions |= it.visited_fn
    # successor function
    R.rule('successor', 'the successor of a statement is its first child, else its next sibling, else the next sibling of the closest ancestor that has one')
    f = prog.fn('dfs_next')
    n = P(f, 0)
    fld = lambda b, x: ('ld', ('fld', b, 'policy_node.' + x))

    def up_iter(i, st, fn, header, evs, killed):
        for e in killed:
            if e[0] == 'elem' and e[2] == ('%struct.policy_node', 0):
                R.n('ancestor steps')
                if not any(x.eq == NULL and strip(k)[0] == 'ld' and strip(k)[1][0] == 'fld' and strip(k)[1][2] == 'policy_node.next' and any(y[0] == 'elem' and y[2] == ('%struct.policy_node', 0) for y in walk(strip(k)))
                           for k, x in st.facts.items()):
                    R.v('successor', loc(fn), 'an ancestor is passed over without looking at its next sibling: [%s]' % pretty.pfacts(st.facts))
    it = PathI(prog, on_iter=up_iter)
    for v, st in it.call_function(f, (n,), State()):
        R.n('successor paths')
        fc, nx = fnz(st, fld(n, 'first_child')), fnz(st, fld(n, 'next'))
        sv = strip(v)
        if fc is True:
            want = [fld(n, 'first_child')]
        elif fc is False and nx is True:
            want = [fld(n, 'next')]
        elif fc is False and nx is False:
            # nearest ancestor: generic element of the parent chain
            if sv == NULL:
                ok = any(x.eq == NULL and (strip(k)[0] == 'elem' and strip(k)[2] == ('%struct.policy_node', 0) or strip(k)[0] == 'ld' and strip(k)[1][0] == 'fld' and strip(k)[1][2] == 'policy_node.parent')
                         for k, x in st.facts.items())
                if not ok:
                    R.v('successor', loc(f), 'the walk ends although an ancestor with a next sibling may exist, path [%s]' % pretty.pfacts(st.facts))
                continue
            if sv[0] == 'ld' and sv[1][0] == 'fld' and sv[1][2] == 'policy_node.next' and sv[1][1][0] == 'elem' and sv[1][1][2] == ('%struct.policy_node', 0):
                continue
            if sv[0] == 'elem' and sv[2] == ('%struct.policy_node', 0):
                R.v('successor', loc(f), 'an ancestor itself is returned as successor')
            elif sv[0] == 'ld' and sv[1][0] == 'fld' and sv[1][2] == 'policy_node.next':
                continue
            else:
                R.u('successor', 'dfs_next returns %s' % pretty.pt(v))
            continue
        else:
            R.v('successor', loc(f), 'a successor %s is chosen without looking at both the first child and the next sibling: [%s]' % (pretty.pt(v), pretty.pfacts(st.facts)))
            continue
        if sv not in want and v not in want:
            R.v('successor', loc(f), 'the successor chosen is %s where it must be %s' % (pretty.pt(v), pretty.pt(want[0])))
    R.functions |= it.visited_fn
    R.atleast('iteration paths', 1)
    R.atleast('successor paths', 3)
    return R
