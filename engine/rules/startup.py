"""R14: what is read at startup: modules.conf, access vectors of the kernel or of a source, permission sets, installed headers."""
from ..absint import State, NULL, contains, walk
from ..core import Result, loc
from ..paths import PathI, Ev, events, fnz, known_null
from ..tables import strip
from ..text import TextI, canon, troot, tok, char
from .. import pretty
from .fc import FileI, bounds, isnull, delims

BLANK = {0, 32, 9, 10, 13}


def fact(st, t):
    for k, v in st.facts.items():
        if k == t or strip(k) == strip(t):
            return v
    return None


# ---------------------------------------------------------------- modules.conf

class ModI(FileI):
    """remembers what was known of the characters of a line where it is split, recorded and cut, and forgets the characters"""

    def on_store(self, st, ins, addr, val):
        if val == NULL and ins.ty in ('i8', None):
            v = None
            for k, x in list(st.facts.items()):
                if k[0] == 'ld' and (k[1] == addr or canon(k[1]) == canon(addr)):
                    v = x
                    del st.facts[k]
            ok = None if v is None else 'inside' if v.eq is not None and v.eq[1] not in BLANK or v.eq is None and {('i', x) for x in BLANK} <= set(v.ne) else 'end'
            self.ev(st, Ev('cut', None, (addr,), None, ins.where(), val=ok))
        super().on_store(st, ins, addr, val)

    def on_call(self, st, ins, name, args):
        if name == 'strtok' and args[0] != NULL and ('use',) not in st.mem:
            line = canon(args[0])
            fc = first_char(st, line)
            c0, n0 = char(st, line, 0)
            u = None
            if c0 in (35, 10) or any(v.eq in (('i', 35), NULL) for v in fc):
                u = 0
            elif any(v.eq is None and ('i', 35) in v.ne and NULL in v.ne or v.eq is not None and v.eq not in (('i', 35), NULL) for v in fc):
                u = 1
            st.mem[('use',)] = ('i', -1 if u is None else u)
            self.forget_chars(st, line)
        if name in ('getline', 'getdelim'):
            st.mem.pop(('use',), None)
        if name == 'insert_into_mods_map':
            v = ('call', name, args, ins.uid)
            starts = []
            for a in args:
                x = fact(st, ('ld', a))
                blank = {('i', 32), ('i', 9)}
                r = troot(a)
                end = any(k[0] == 'ld' and v.eq == NULL and troot(k[1]) == r and k[1][0] == 'iter' for k, v in st.facts.items())
                starts.append((x is not None and (blank <= set(x.ne) or x.eq is not None and x.eq[1] not in BLANK - {0}), end))
                self.forget_chars(st, troot(a))
            self.ev(st, Ev('call', name, args, v, ins.where(), val=tuple(starts)))
            return [(v, st)]
        return super().on_call(st, ins, name, args)

    def forget_chars(self, st, r):
        for k in list(st.facts):
            if k[0] == 'ld' and troot(k[1]) == r:
                del st.facts[k]


def first_char(st, line):
    """what is known of the first character of the line that is not blank, or of the first one"""
    out = []
    for k, v in st.facts.items():
        if k[0] == 'ld' and troot(k[1]) == line and (k[1][0] == 'iter' and k[1][1] == line or k[1][0] == 'idx' and canon(k[1][1]) == line and k[1][2][0] == 'iter' and k[1][2][1] == NULL):
            out.append(v)
    return out


def check_modules(prog):
    R = Result()
    R.rule('modules', 'every line of modules.conf that is neither blank nor a comment is recorded as one module with its status, both without surrounding blanks; a line with no or a second "=" fails')
    R.rule('modules file', 'reading ends at the end of the file; the file is closed and the line released on every way out')
    f = prog.fn('load_modules_source')
    seen = {}

    def judge(st, evs, g, facts, done):
        """one line; done: it was passed over or recorded and reading goes on"""
        line = ('line', g.ret[3])
        ins = [e for e in evs if e.name == 'insert_into_mods_map']
        lo, hi = bounds(st, g.ret)
        fc = first_char(st, line)
        c0, n0 = char(st, line, 0)
        skip = hi is not None and hi <= 1 or c0 in (35, 10) or any(v.eq in (('i', 35), NULL) for v in fc)
        u = st.mem.get(('use',))
        if u is not None:
            skip = skip or u == NULL
        use = u == ('i', 1) if u is not None else any(v.eq is None and ('i', 35) in v.ne and NULL in v.ne or v.eq is not None and v.eq not in (('i', 35), NULL) for v in fc)
        if skip:
            seen['skip'] = 1
            if ins:
                R.v('modules', ins[0].where, 'a blank or comment line is recorded as a module')
            return
        t = [tok(line, 0, k) for k in range(3)]
        nul = [isnull(st, x) for x in t]
        if not ins:
            if done and not (use is False and nul[0]):
                R.v('modules', g.where, 'a line is passed over: [%s]' % facts)
            elif not done and nul[0] is not True and nul[1] is not True and nul[2] is not False:
                R.v('modules', g.where, 'a line is refused: [%s]' % facts)
            else:
                seen['refused'] = 1
            return
        if not use:
            R.v('modules', ins[0].where, 'a line is recorded as a module without being known to be neither blank nor a comment: [%s]' % facts)
            return
        if len(ins) != 1:
            R.v('modules', ins[1].where, 'a line is recorded as %d modules' % len(ins))
        if done and nul[2] is not True:
            R.v('modules', ins[0].where, 'a line with a second "=" is accepted' if nul[2] is False else 'a line is accepted without looking for a second "=": [%s]' % facts)
        if not done and nul[2] is not False:
            R.v('modules', ins[0].where, 'a line is refused: [%s]' % facts)
        seen['module' if done else 'refused'] = 1
        delims(R, st, f, line, '=', '', 'modules')
        for k, n in enumerate(('name', 'status')):
            a = ins[0].args[k]
            r = troot(a)
            if r[0] == 'dup':
                r = r[1]
            if r != t[k]:
                R.v('modules', ins[0].where, 'the %s of a module is %s' % (n, pretty.pt(a)))
                continue
            if not ins[0].val[k][0]:
                if canon(a) == t[k]:
                    R.v('modules', ins[0].where, 'blanks before the %s of a module are kept' % n)
                else:
                    R.u('modules', 'where the %s of a module starts is not understood' % n)
            cuts = [e for e in evs if e.kind == 'cut' and troot(e.args[0]) == t[k]]
            if not cuts and not ins[0].val[k][1]:
                R.v('modules', ins[0].where, 'blanks or the line end behind the %s of a module are kept' % n)
            for e in cuts:
                if e.val is None:
                    R.u('modules', 'where the %s of a module is cut is not understood' % n)
                elif e.val == 'inside':
                    R.v('modules', e.where, 'the %s of a module is cut inside' % n)

    def on_iter(it, st, fn, header, evs, killed):
        gl = [e for e in evs if e.name in ('getline', 'getdelim')]
        facts = pretty.pfacts(st.facts)
        for k in killed:
            walked(R, st, fn, k)
        if fn.name != f.name or not gl:
            return
        R.n('lines')
        g = gl[-1]
        judge(st, evs, g, facts, True)
        if any(e.name == 'free' and canon(e.args[0]) == ('line', g.ret[3]) for e in evs) and it.load(st, g.args[0]) != NULL:
            R.v('modules file', g.where, 'the next line is read into a buffer that was released')

    it = ModI(prog, opaque=('insert_into_mods_map',), stores=False, on_iter=on_iter, uaf=('free',))
    path = ('p', f.name, f.params[0])
    for v, st in it.call_function(f, (path,), State()):
        R.n('paths')
        E = events(st)
        facts = pretty.pfacts(st.facts)
        op = [e for e in E if e.name == 'fopen']
        if len(op) != 1 or op[0].args[0] != path:
            R.v('modules file', loc(f), 'the file given is not the one opened')
            continue
        if isnull(st, op[0].ret):
            if v == NULL:
                R.v('modules file', loc(f), 'an unreadable file is reported as success')
            continue
        if sum(e.name == 'fclose' and e.args[0] == op[0].ret for e in E) != 1:
            R.v('modules file', loc(f), 'the file is not closed once: [%s]' % facts)
        gl = [e for e in E if e.name in ('getline', 'getdelim')]
        if not gl:
            R.v('modules file', loc(f), 'nothing is read')
            continue
        g = gl[-1]
        end = bounds(st, g.ret)[1]
        end = end is not None and end < 0
        n = [e for e in E if e.name == 'free' and canon(e.args[0]) in (('line', g.ret[3]),)]
        if len(n) != 1:
            R.v('modules file', loc(f), 'the line is released %d times: [%s]' % (len(n), facts))
        for e in E:
            if e.kind == 'uaf':
                R.v('modules file', e.where, 'something already released is used')
        if end:
            if v != NULL:
                R.v('modules file', loc(f), 'a file read to its end is reported as a failure')
            seen['done'] = 1
        elif v == NULL:
            R.v('modules file', loc(f), 'reading ends before the end of the file: [%s]' % facts)
        elif v[0] != 'i':
            R.u('modules file', 'the status is %s' % pretty.pt(v))
        else:
            judge(st, E[E.index(g):], g, facts, False)
    for k in ('skip', 'module', 'refused', 'done'):
        if k not in seen and not R.viol:
            R.u('modules', 'no path on which: %s' % k)
    if it.truncated:
        R.u('modules', 'path limit')
    R.functions |= it.visited_fn
    R.atleast('lines', 4)
    R.atleast('paths', 5)
    return R


def walked(R, st, fn, k, rule='modules'):
    """a text must not be walked on from its terminating character"""
    if k[0] != 'iter' or not (isinstance(k[2], int) and k[2] == 1):
        return
    for a, v in st.facts.items():
        if a[0] == 'ld' and a[1] == k and troot(k)[0] in ('tok', 'line', 'p', 'dup'):
            R.n('walks')
            if not (v.eq not in (None, NULL) or NULL in v.ne):
                R.v(rule, loc(fn), 'a text is walked on without knowing that its end is not reached: [%s]' % pretty.pfacts(st.facts))


# ---------------------------------------------------------------- directories

def entry_facts(st, e):
    out = dict(info=None, level=None, names={}, sufs={}, plen=None)
    for t, x in st.facts.items():
        if not contains(t, {e}):
            continue
        r = repr(t)
        if t[0] == 'strval':
            d = out['names'] if 'fts_name' in r else out['sufs'] if 'fts_path' in r else {}
            if x.eq is not None:
                d[x.eq[1]] = True
            for y in x.ne:
                d[y[1]] = False
        elif 'fts_info' in r:
            out['info'] = x
        elif 'fts_level' in r:
            out['level'] = x
        elif 'fts_pathlen' in r:
            out['plen'] = x
    return out


def known(x, c):
    if x is None:
        return None
    if x.eq is not None:
        return x.eq == ('i', c)
    if ('i', c) in x.ne or x.lo is not None and x.lo > c or x.hi is not None and x.hi < c:
        return False
    return None


class EntryI(PathI):
    """a directory scan yields one arbitrary entry after the other; judges an entry when the next one is asked for"""
    cb = None

    def on_call(self, st, ins, name, args):
        if name == 'fts_read':
            evs = events(st)
            last = max([i for i, e in enumerate(evs) if e.name == 'fts_read'], default=None)
            cur = st.mem.get(('cur',))
            if cur is not None:
                pend = tuple(e for e in evs if e.kind == 'call' and e.name != 'fts_read' and contains(e.args, {cur}))
                self.cb(st, cur, pend)
            # two alternating names so that what was recorded for one entry is not taken for the next
            t = ('entry', 1 - cur[1] if cur is not None else 0)
            for x in list(st.facts):
                if contains(x, {t}):
                    del st.facts[x]
            for x in list(st.mem):
                if contains(x, {t}):
                    del st.mem[x]
            st.cl = tuple(e for e in st.cl if not (isinstance(e, Ev) and e.kind == 'call' and contains(e.args, {t}) and e.name != 'fts_close'))
            other = st.copy()
            st.mem[('cur',)] = t
            st.assume_ne(t, NULL)
            other.mem[('cur',)] = NULL
            other.mem.pop(('cur',))
            return [(t, st), (NULL, other)]
        if name == 'strdup':
            v = ('dup', canon(args[0]), ins.uid)
            st.assume_ne(v, NULL)
            self.ev(st, Ev('call', name, args, v, ins.where()))
            return [(v, st)]
        if name == 'insert_into_mod_layers_map':
            cut = tuple((k[2], v) for k, v in st.mem.items() if k[0] == 'idx' and k[1] == args[0])
            v = ('call', name, args, ins.uid)
            self.ev(st, Ev('call', name, args, v, ins.where(), val=cut))
            return [(v, st)]
        return super().on_call(st, ins, name, args)

    def no_effect(self, n):
        return True

    def on_enter(self, st, f, header):
        pass

    def on_backedge(self, st, f, header, killed):
        pass                     # what was done with an entry stays on the path until the next is read


def run_scan(R, prog, f, opaque, cb):
    it = EntryI(prog, opaque=opaque, stores=False)
    it.cb = cb
    args = tuple(('p', f.name, x) for x in f.params)
    return it, args, it.call_function(f, args, State())


def check_kernel(prog):
    R = Result()
    R.rule('kernel', 'every class directory and every permission file below the given directory is recorded as class or permission, nothing else is; it fails exactly if there is no permission')
    f = prog.fn('load_access_vectors_kernel')
    CLASS, PERM = prog.enum('DECL_CLASS'), prog.enum('DECL_PERM')
    seen = {}

    def cb(st, e, pend):
        R.n('entries')
        x = entry_facts(st, e)
        d, fl = known(x['info'], 1), known(x['info'], 8)
        if d:
            fl = False
        if fl:
            d = False
        lvl = None if x['level'] is None else (False if x['level'].hi is not None and x['level'].hi <= 0 else (lambda k: None if k is None else not k)(known(x['level'], 0)))
        perms, index = x['names'].get('perms'), x['names'].get('index')
        if index:
            perms = False
        if perms:
            index = False
        isc = False if False in (d, lvl) or perms else True if d and lvl and perms is False else None
        isp = False if fl is False or index else True if fl and index is False else None
        ins = [a for a in pend if a.name == 'insert_into_decl_map']
        facts = pretty.pfacts({k: v for k, v in st.facts.items() if contains(k, {e})})
        kinds = [a.args[2] for a in ins]
        for a in ins:
            if 'fts_name' not in repr(a.args[0]):
                R.v('kernel', a.where, 'the name recorded is %s' % pretty.pt(a.args[0]))
            # the default module of these names is not a module: it must not be one of a policy
            if a.args[1] != ('s', 'class' if a.args[2] == ('i', CLASS) else 'perm'):
                R.v('kernel', a.where, 'a name of the kernel is recorded for module %s' % pretty.pt(a.args[1]))
        for w, k, n in ((isc, CLASS, 'class'), (isp, PERM, 'permission')):
            got = kinds.count(('i', k))
            if got and w is not True:
                R.v('kernel', ins[0].where, 'an entry is recorded as a %s%s: [%s]' % (n, ' although it is none' if w is False else ' without knowing it is one', facts))
            elif w and got != 1:
                R.v('kernel', loc(f), 'a %s is recorded %d times: [%s]' % (n, got, facts))
            elif w is None and not got:
                R.v('kernel', loc(f), 'an entry is passed over without knowing that it is no %s: [%s]' % (n, facts))
            if got:
                seen[n] = 1
                if k == PERM:
                    st.mem[('perm',)] = ('i', 1)
        if not ins:
            seen['none'] = 1
        if len(ins) > sum(kinds.count(('i', k)) for k in (CLASS, PERM)):
            R.v('kernel', ins[0].where, 'a name is recorded as %s' % pretty.pt(ins[0].args[2]))

    it, args, rets = run_scan(R, prog, f, ('insert_into_decl_map',), cb)
    for v, st in rets:
        R.n('paths')
        E = events(st)
        op = [e for e in E if e.name == 'fts_open']
        facts = pretty.pfacts(st.facts)
        acc = [e for e in E if e.name == 'access']
        if not op:
            if v == NULL:
                R.v('kernel', loc(f), 'nothing is scanned and success is reported: [%s]' % facts)
            continue
        if v[0] != 'i':
            R.u('kernel', 'the status is %s' % pretty.pt(v))
            continue
        if isnull(st, op[0].ret):
            continue
        cl = [e for e in E if e.name == 'fts_close']
        if len(cl) != 1:
            R.v('kernel', loc(f), 'the scan is closed %d times' % len(cl))
        got = st.mem.get(('perm',)) is not None
        if got != (v == NULL):
            R.v('kernel', loc(f), 'a directory with%s permissions is reported as %s' % ('' if got else 'out', 'success' if v == NULL else 'failure'))
        seen['ok' if got else 'fail'] = 1
        if ('cur',) in st.mem:
            R.v('kernel', loc(f), 'the scan ends before its last entry: [%s]' % facts)
    for k in ('class', 'permission', 'none', 'ok', 'fail'):
        if k not in seen and not R.viol:
            R.u('kernel', 'no path on which: %s' % k)
    R.functions |= it.visited_fn
    R.atleast('entries', 6)
    R.atleast('paths', 3)
    return R


def check_headers(prog):
    R = Result()
    R.rule('headers', 'every interface file below the installed headers is queued as context under its path, with its layer; nothing else is')
    f = prog.fn('load_devel_headers')
    lst = ('p', f.name, f.params[0])
    seen = {}

    def cb(st, e, pend):
        R.n('entries')
        x = entry_facts(st, e)
        if any(k[0] == 'idx' and v.eq == NULL for k, v in st.facts.items()):
            return               # a position inside a text is not NULL
        suf = x['sufs'].get('.if')
        facts = pretty.pfacts({k: v for k, v in st.facts.items() if contains(k, {e})})
        push = [a for a in pend if a.name == 'file_list_push_back']
        lay = [a for a in pend if a.name == 'insert_into_mod_layers_map']
        if push and suf is not True:
            R.v('headers', push[0].where, 'a file is queued that is not known to be an interface file: [%s]' % facts)
        if not push and (suf or suf is None and not (x['plen'] is not None and x['plen'].hi is not None and x['plen'].hi <= 3)):
            R.v('headers', loc(f), 'an interface file is passed over: [%s]' % facts)
        if not push:
            seen['none'] = 1
            return
        seen['if'] = 1
        a = push[0]
        m = a.args[1]
        if len(push) != 1 or a.args[0] != lst or m[0] != 'call' or m[1] != 'make_policy_file' or 'fts_path' not in repr(m[2][0]) or m[2][1] != NULL:
            R.v('headers', a.where, 'what is queued is %s in %s' % (pretty.pt(m), pretty.pt(a.args[0])))
        if len(lay) != 1:
            R.v('headers', a.where, 'the layer of an interface file is recorded %d times' % len(lay))
            return
        a = lay[0]
        if 'fts_parent' not in repr(a.args[1]) or 'fts_name' not in repr(a.args[1]):
            R.v('headers', a.where, 'the layer recorded is %s' % pretty.pt(a.args[1]))
        m = a.args[0]
        if m[0] == 'dup':
            if not a.val:
                R.v('headers', a.where, 'the layer is recorded for the file name, not for the module')
            elif len(a.val) == 1 and a.val[0][1] == NULL and 'fts_namelen' in repr(a.val[0][0]) and not (a.val[0][0][:2] == ('op', 'add') and a.val[0][0][3] == ('i', -3)):
                R.v('headers', a.where, 'the module name is cut off at %s' % pretty.pt(a.val[0][0]))
            if not any(b.name == 'free' and b.args[0] == m for b in pend):
                R.v('headers', a.where, 'the module name is not released')
        elif canon(m) == ('fld', e, '_ftsent.fts_name'):
            R.v('headers', a.where, 'the layer is recorded for the file name, not for the module')

    it, args, rets = run_scan(R, prog, f, ('file_list_push_back', 'make_policy_file', 'insert_into_mod_layers_map'), cb)
    for v, st in rets:
        R.n('paths')
        E = events(st)
        op = [e for e in E if e.name == 'fts_open']
        if op and isnull(st, op[0].ret):
            continue
        if len([e for e in E if e.name == 'fts_close']) != len(op):
            R.v('headers', loc(f), 'the scan is not closed once')
        if ('cur',) in st.mem:
            R.v('headers', loc(f), 'the scan ends before its last entry')
        if v != NULL and op:
            R.v('headers', loc(f), 'a scan read to its end is reported as a failure')
        if not op:
            R.v('headers', loc(f), 'nothing is scanned')
    for k in ('if', 'none'):
        if k not in seen and not R.viol:
            R.u('headers', 'no path on which: %s' % k)
    R.functions |= it.visited_fn
    R.atleast('entries', 3)
    R.atleast('paths', 1)
    return R


def check_parsed(prog):
    R = Result()
    R.rule('parsed', 'access vectors and permission sets are read from the given file by the parser as what they are; the file is closed, the tree released, and failure reported')
    for fn, kind, mod in (('load_access_vectors_source', 'NODE_AV_FILE', True), ('load_obj_perm_sets_source', 'NODE_SPT_FILE', False)):
        f = prog.fn(fn)
        it = PathI(prog, opaque=('yyparse_wrapper', 'set_current_module_name', 'free_policy_node'), stores=False, uaf=('free_policy_node',))
        a = ('p', f.name, f.params[0])
        for v, st in it.call_function(f, (a,), State()):
            R.n('paths')
            E = events(st)
            op = [e for e in E if e.name == 'fopen']
            yy = [e for e in E if e.name == 'yyparse_wrapper']
            cl = [e for e in E if e.name == 'fclose']
            fr = [e for e in E if e.name == 'free_policy_node']
            if len(op) != 1 or op[0].args[0] != a:
                R.v('parsed', loc(f), 'the file given is not the one opened')
                continue
            if isnull(st, op[0].ret):
                if v == NULL or yy:
                    R.v('parsed', loc(f), 'an unreadable file is reported as success')
                continue
            if len(yy) != 1 or yy[0].args != (op[0].ret, a, ('i', prog.enum(kind))):
                R.v('parsed', loc(f), 'the file is parsed as %s' % [pretty.pt(x) for e in yy for x in e.args])
                continue
            if len(cl) != 1 or cl[0].args[0] != op[0].ret or E.index(cl[0]) < E.index(yy[0]):
                R.v('parsed', loc(f), 'the file is not closed once, after it was parsed')
            if mod and not any(e.name == 'set_current_module_name' for e in E[:E.index(yy[0])]):
                R.v('parsed', loc(f), 'the names of the access vectors are recorded for the module read before')
            nul = isnull(st, yy[0].ret)
            if nul and v == NULL:
                R.v('parsed', loc(f), 'a file that cannot be parsed is reported as success')
            if nul is False and v != NULL:
                R.v('parsed', loc(f), 'a parsed file is reported as a failure')
            if nul is None:
                R.v('parsed', loc(f), 'whether the file could be parsed is not looked at')
            elif not nul and [e.args[0] for e in fr] != [yy[0].ret]:
                R.v('parsed', loc(f), 'the tree of a parsed file is released %d times' % len(fr))
        R.functions |= it.visited_fn
    R.atleast('paths', 6)
    return R


# ---------------------------------------------------------------- transform interfaces

class MarkI(PathI):
    def on_call(self, st, ins, name, args):
        r = super().on_call(st, ins, name, args)
        if name == 'mark_transform_if':
            st.mem[('marked',)] = ('i', 1)
        return r

    def no_effect(self, n):
        return True

    def on_load(self, st, ins, addr, val):
        if addr == ('fld', self.files, 'policy_file_list.head'):
            st.mem.pop(('marked',), None)
            st.mem.pop(('ast',), None)
        if addr[0] == 'fld' and addr[2] == 'policy_file.ast':
            st.mem[('ast',)] = ('i', 1)
        super().on_load(st, ins, addr, val)


def check_transform(prog):
    R = Result()
    R.rule('marked', 'an interface is marked as transforming exactly if the first statement of its body behind any require block calls a transforming interface')
    R.rule('fixpoint', 'marking goes on over all files until a whole pass marks nothing')
    f = prog.fn('mark_transform_interfaces')
    en = prog.enum
    files = ('p', f.name, f.params[0])
    HEAD = {en(x) for x in ('NODE_START_BLOCK', 'NODE_REQUIRE', 'NODE_GEN_REQ')}
    IFD, CALL = en('NODE_INTERFACE_DEF'), en('NODE_IF_CALL')
    seen = {}

    def kind(k):
        """file / node / child, by what the walk starts from"""
        s = k[1]
        if s[0] == 'ld' and s[1][0] == 'fld':
            return {'policy_file_list.head': 'file', 'policy_file.ast': 'node', 'policy_node.first_child': 'child'}.get(s[1][2])

    def fld(n, x):
        return ('ld', ('fld', n, 'policy_node.' + x))

    def val(st, t):
        for k, v in st.facts.items():
            if strip(k) == strip(t):
                return v
        return None

    def marker(st, t):
        for k in st.facts:
            if k[0] == 'call' and k[1] == 'is_transform_if' and strip(k[2][0]) == strip(t):
                return fnz(st, k)
        return None

    def is_data(t, n):
        """the name of an interface: the text in its node's data"""
        t = strip(t)
        return t[0] == 'ld' and t[1][0] == 'fld' and t[1][2].startswith('policy_node.data') and t[1][1] == strip(n) or t[0] == 'ld' and contains(t, {strip(n)}) and 'data' in repr(t) and 'first_child' not in repr(t).replace(repr(strip(n)), '')

    def skippable(v):
        if v is None:
            return None
        if v.eq is not None:
            return v.eq[1] in HEAD
        return False if {('i', h) for h in HEAD} <= set(v.ne) else None

    def on_iter(it, st, fn, header, evs, killed):
        ks = {kind(k): k for k in killed if k[0] == 'elem' and kind(k)}
        mk = [e for e in evs if e.name == 'mark_transform_if']
        facts = pretty.pfacts(st.facts)
        if 'child' in ks:
            R.n('leading statements')
            seen['head'] = 1
            c = ks['child']
            if skippable(val(st, fld(c, 'flavor'))) is not True:
                R.v('marked', loc(fn), 'a statement other than a require block is passed over in an interface: [%s]' % facts)
        elif 'node' in ks:
            R.n('nodes')
            judge_node(st, fn, ks['node'], mk, facts)
        elif 'file' in ks:
            R.n('files')
            if ('ast',) not in st.mem and ('marked',) not in st.mem:
                R.v('fixpoint', loc(fn), 'a file is passed over: [%s]' % facts)
            elif ('marked',) not in st.mem and not any(k[0] == 'elem' and kind(k) == 'node' and v.eq == NULL for k, v in st.facts.items()):
                R.v('fixpoint', loc(fn), 'a file is left before its last statement: [%s]' % facts)
            st.mem.pop(('ast',), None)

    def judge_node(st, fn, n, mk, facts):
        fl = known(val(st, fld(n, 'flavor')), IFD)
        nm = None
        for k in st.facts:
            if k[0] == 'call' and k[1] == 'is_transform_if' and is_data(k[2][0], n):
                nm = k
        done = None if nm is None else fnz(st, nm)
        child = None
        for k in st.facts:
            for x in walk(k):
                if x[0] == 'elem' and kind(x) == 'child' and contains(x, {n}):
                    child = x
        fc = isnull(st, fld(n, 'first_child'))
        if fc is None:
            v = val(st, fld(n, 'first_child'))
            fc = None if v is None else v.eq == NULL if v.eq is not None else False if NULL in v.ne else None
        first = fl and not fc
        call = None
        if child is not None:
            cn = isnull(st, child)
            cf = val(st, fld(child, 'flavor'))
            if cn:
                call = False
            elif skippable(cf) is None and not (cf is not None and cf.eq is not None):
                call = None
            else:
                k = known(cf, CALL)
                if k is False:
                    call = skippable(cf) is not None and False
                elif k:
                    call = None
                    for q in st.facts:
                        if q[0] == 'call' and q[1] == 'is_transform_if' and contains(q[2], {child}) and 'ic_data' in repr(q) or q[0] == 'call' and q[1] == 'is_transform_if' and contains(q[2], {child}) and 'if_call_data.name' in repr(q):
                            call = fnz(st, q)
        cond = [fl, None if fc is None else not fc, call]
        want = False if False in cond else True if all(cond) else None
        if mk:
            seen['mark'] = 1
            if len(mk) != 1 or not is_data(mk[0].args[0], n):
                R.v('marked', mk[0].where, 'what is marked is %s' % ', '.join(pretty.pt(e.args[0]) for e in mk))
            if want is not True:
                R.v('marked', mk[0].where, 'an interface is marked %s: [%s]' % ('although it does not start with a call of a transforming interface' if want is False else 'without knowing that it starts with a call of a transforming interface', facts))
            return
        seen['other'] = 1
        if done or want is False:
            return
        R.v('marked', loc(fn), 'an interface is passed over %s: [%s]' % ('although it starts with a call of a transforming interface' if want else 'without knowing how it starts', facts))

    it = MarkI(prog, opaque=('mark_transform_if', 'is_transform_if', 'dfs_next'), pure=('is_transform_if', 'dfs_next'), stores=False, on_iter=on_iter)
    it.files = files
    for v, st in it.call_function(f, (files,), State()):
        R.n('paths')
        if ('marked',) in st.mem:
            R.v('fixpoint', loc(f), 'marking ends with a pass that marked an interface')
        if v != NULL:
            R.v('fixpoint', loc(f), 'the status is %s' % pretty.pt(v))
        if not any(k[0] == 'elem' and kind(k) == 'file' and x.eq == NULL for k, x in st.facts.items()):
            R.v('fixpoint', loc(f), 'marking ends before the last file: [%s]' % pretty.pfacts(st.facts))
    for k in ('head', 'mark', 'other'):
        if k not in seen and not R.viol:
            R.u('marked', 'no path on which: %s' % k)
    R.functions |= it.visited_fn
    R.atleast('nodes', 6)
    R.atleast('files', 1)
    return R
