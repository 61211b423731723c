"""R14: calling a template declares its names for the caller, arguments substituted."""
from ..absint import State, NULL, contains, walk
from ..core import Result, loc
from ..paths import PathI, events, fnz, fval, marks
from ..tables import strip, Exists, streq, field, evaluate, SLIST
from .treefn import P, F, N, odd
from .. import pretty

OPQ = ('replace_m4_list', 'replace_m4', 'look_up_call_in_template_map', 'look_up_decl_in_template_map', 'insert_into_decl_map', 'free_string_list', 'add_template_declarations')


def check_expansion(prog):
    R = Result()
    R.rule('calls', 'every template called by the template is expanded in turn, with its arguments substituted by the caller\'s, for the same module')
    R.rule('names', 'every name the template declares is recorded for the calling module, substituted, with its own kind')
    R.rule('loop', 'a template that is already being expanded is refused as a loop, every other one is expanded')
    R.rule('owned', 'what an expansion allocates is released once on every way out, what belongs to the caller is not')
    f = prog.fn('add_template_declarations')
    name, args, parents, mod = (P(f, i) for i in range(4))
    LOOP = ('i', prog.enum('SELINT_IF_CALL_LOOP'))
    calls = ('call', 'look_up_call_in_template_map', (name,))
    decls = ('call', 'look_up_decl_in_template_map', (name,))
    inchain = Exists(parents, lambda e: streq(field(e, 'string_list.string'), name), name='chain')

    def judge_call(it, st, evs, e, fn, partial=False):
        call = F(e, 'if_call_list.call')
        m4 = [x for x in evs if x.name == 'replace_m4_list']
        rec = [x for x in evs if x.name == 'add_template_declarations']
        if not rec:
            if not partial:
                R.v('calls', loc(fn), 'a call inside the template is passed over without being expanded, on the path [%s]' % pretty.pfacts(st.facts))
            return
        R.n('nested calls judged')
        x = rec[0]
        if len(rec) != 1 or strip(x.args[0]) != F(call, 'if_call_data.name') or x.args[3] != mod:
            R.v('calls', x.where, 'a call inside the template is expanded as %s' % rec)
        want = F(call, 'if_call_data.args')
        if x.args[1] == NULL and fnz(st, want) is False:
            pass
        elif len(m4) != 1 or strip(m4[0].args[0]) != args or strip(m4[0].args[1]) != want or strip(x.args[1]) != strip(m4[0].ret):
            if not (fnz(st, want) is False and not m4):
                R.v('calls', x.where, 'the arguments of a call inside the template are %s, substituted by %s' % (pretty.pt(x.args[1]), m4))
        ch = x.args[2]
        s, nx = strip(it.load(st, ('fld', ch, 'string_list.string'))), strip(it.load(st, ('fld', ch, 'string_list.next')))
        if s not in (name, ('call', 'strdup', (name,))) or nx != parents:
            (R.u if odd(ch) and ch[0] != 'al' or ch[0] == 'call' and ch[1] not in ('malloc', 'calloc') else lambda a, m: R.v(a, x.where, m))(
                'loop', 'the templates being expanded are passed on as %s (first %s, rest %s)' % (pretty.pt(ch), pretty.pt(s), pretty.pt(nx)))
        if m4:
            fr = [y for y in evs if y.kind == 'call' and y.name == 'free_string_list' and y.args[0] == m4[0].ret]
            if len(fr) != 1 and not (not fr and fnz(st, m4[0].ret) is False):
                R.v('owned', x.where, 'the substituted arguments are released %d times' % len(fr))

    def judge_decl(it, st, evs, e, fn):
        d = F(e, 'decl_list.decl')
        m4 = [x for x in evs if x.name == 'replace_m4']
        ins = [x for x in evs if x.name == 'insert_into_decl_map']
        R.n('declarations judged')
        if len(m4) != 1 or strip(m4[0].args[0]) != F(d, 'declaration_data.name') or m4[0].args[1] != args:
            R.v('names', loc(fn), 'a declared name is substituted by %s' % (m4 or 'nothing'))
            return
        if fnz(st, m4[0].ret) is False and not ins:
            return 'failed'
        if len(ins) != 1 or ins[0].args[0] != m4[0].ret or ins[0].args[1] != mod or strip(ins[0].args[2]) != F(d, 'declaration_data.flavor'):
            R.v('names', loc(fn), 'a declared name is recorded by %s, on the path [%s]' % (ins or 'nothing', pretty.pfacts(st.facts)))
        fr = [x for x in evs if x.name == 'free' and x.args[0] == m4[0].ret]
        if len(fr) != 1:
            R.v('owned', loc(fn), 'a substituted name is released %d times' % len(fr))

    def on_iter(it, st, fn, header, evs, killed):
        for g in killed:
            s = strip(g)
            if s[0] != 'elem':
                continue
            if s[1] == calls:
                judge_call(it, st, evs, s, fn)
            elif s[1] == decls:
                if judge_decl(it, st, evs, s, fn):
                    return 'failed'
            elif s[1] == parents:
                R.n('enclosing expansions judged')
                v, _ = evaluate(streq(field(s, 'string_list.string'), name), it, st.facts, {})
                if v is not False:
                    R.v('loop', loc(fn), 'a template being expanded is passed over without being compared, on the path [%s]' % pretty.pfacts(st.facts))
    it = PathI(prog, opaque=OPQ, on_iter=on_iter, deref=True)
    for v, st in it.call_function(f, (name, args, parents, mod), State()):
        R.n('paths')
        evs = events(st)
        inl, _ = evaluate(inchain, it, st.facts, {})
        work = [x for x in evs if x.name in ('add_template_declarations', 'insert_into_decl_map')]
        r = fnz(st, v)
        if v == LOOP and not [x for x in evs if x.name == 'add_template_declarations']:
            if inl is not True:
                R.v('loop', loc(f), 'a template is refused as a loop although it is not being expanded, on the path [%s]' % pretty.pfacts(st.facts))
        elif inl is not False:
            R.v('loop', loc(f), 'a template is expanded without being compared with all templates being expanded, on the path [%s]' % pretty.pfacts(st.facts))
        rec = [x for x in evs if x.name == 'add_template_declarations']
        if rec:
            e = [strip(k) for k in st.facts if strip(k)[0] == 'elem' and strip(k)[1] == calls]
            judge_call(it, st, evs, e[0] if e else calls, f, partial=True)
            if r is False:
                R.v('calls', loc(f), 'the expansion ends successfully after one call inside the template, on the path [%s]' % pretty.pfacts(st.facts))
        if r is False and 'failed' in marks(st):
            R.v('names', loc(f), 'the expansion succeeds although a declared name could not be substituted, on the path [%s]' % pretty.pfacts(st.facts))
        if r is False:
            for lst, rule, what in ((calls, 'calls', 'calls inside'), (decls, 'names', 'names declared by')):
                ended = any((strip(k)[0] == 'elem' and strip(k)[1] == lst or strip(k) == lst) and x.eq == NULL for k, x in st.facts.items())
                if not ended:
                    R.v(rule, loc(f), 'the %s the template are left before the last one, on the path [%s]' % (what, pretty.pfacts(st.facts)))
        # ownership
        nodes = {x.addr[1] for x in evs if x.kind == 'store' and x.addr[0] == 'fld' and x.addr[2] == 'string_list.next' and x.addr[1][0] == 'call' and x.addr[1][1] in ('malloc', 'calloc')}
        fr = [x for x in evs if x.kind == 'call' and x.name in ('free', 'free_string_list')]
        for n in nodes:
            if fnz(st, n) is False:
                continue
            m = [x for x in fr if x.args[0] == n]
            strs = [x.val for x in evs if x.kind == 'store' and x.addr == ('fld', n, 'string_list.string') and x.val[0] == 'call']
            # freed as a one element list?
            whole = [x for x in m if x.name == 'free_string_list']
            if len(m) != 1:
                R.v('owned', loc(f), 'the note that the template is being expanded is released %d times, on the path [%s]' % (len(m), pretty.pfacts(st.facts)))
            for s in strs:
                ms = [x for x in fr if x.args[0] == s]
                if len(ms) + len(whole) != 1:
                    R.v('owned', loc(f), 'the remembered name of the template is released %d times, on the path [%s]' % (len(ms), pretty.pfacts(st.facts)))
            if whole and strip(it.load(st, ('fld', n, 'string_list.next'))) == parents and fnz(st, parents) is not False:
                R.v('owned', whole[0].where, 'an expansion releases the templates being expanded by its callers')
        bad = [x for x in fr if strip(x.args[0]) in (parents, args) or contains(strip(x.args[0]), {parents}) and strip(x.args[0])[0] != 'call']
        if bad and fnz(st, bad[0].args[0]) is not False:
            R.v('owned', bad[0].where, 'an expansion releases %s, which belongs to its caller' % pretty.pt(bad[0].args[0]))
    R.functions |= it.visited_fn
    # ---- argument lists
    R.rule('arguments', 'a substituted argument list has one element for each argument of the call, each the substitution of that argument; a call without arguments has none')
    f = prog.fn('replace_m4_list')
    w, fr_ = P(f, 0), P(f, 1)

    def judge_arg(st, evs, e, fn):
        m4 = [x for x in evs if x.name == 'replace_m4']
        R.n('arguments judged')
        if len(m4) != 1 or m4[0].args != (m4[0].args[0], w) or strip(m4[0].args[0]) != strip(F(e, 'string_list.string')):
            R.v('arguments', loc(fn), 'an argument is substituted by %s' % (m4 or 'nothing'))
            return
        s = [x for x in evs if x.kind == 'store' and x.addr[0] == 'fld' and x.addr[2] == 'string_list.string' and x.val != NULL]
        if not s:
            R.u('arguments', 'an argument is not stored directly')
            return
        val = s[-1].val
        if val == m4[0].ret:
            if fnz(st, val) is None:
                R.v('arguments', s[-1].where, 'the result of a substitution is stored without asking whether it succeeded')
            elif fnz(st, val) is False:
                R.v('arguments', s[-1].where, 'a failed substitution is stored as an argument')

    def on_iter2(it, st, fn, header, evs, killed):
        for g in killed:
            s = strip(g)
            if s[0] == 'elem' and s[2] == SLIST and (s[1] == fr_ or s[1] == F(fr_, 'string_list.next')):
                judge_arg(st, evs, s, fn)
    it = PathI(prog, opaque=('replace_m4', 'free_string_list', 'concat_string_lists', 'sl_from_str_consume', 'sl_from_str'), on_iter=on_iter2, deref=True)
    # a call without arguments must not be looked into
    touched = []
    for v, st in it.call_function(f, (w, fr_), State()):
        if fnz(st, fr_) is False:
            if v != NULL:
                R.v('arguments', loc(f), 'substituting no arguments yields %s' % pretty.pt(v))
            touched.append(st)
            continue
        ended = any(strip(k)[0] == 'elem' and strip(k)[1] in (fr_, F(fr_, 'string_list.next')) and x.eq == NULL for k, x in st.facts.items())
        if not ended and v != NULL:
            R.v('arguments', loc(f), 'substitution of arguments ends before the last one, on the path [%s]' % pretty.pfacts(st.facts))
    if not touched:
        R.v('arguments', loc(f), 'the arguments of a call are read without asking whether it has any')
    R.functions |= it.visited_fn
    R.atleast('declarations judged', 1)
    R.atleast('nested calls judged', 1)
    R.atleast('arguments judged', 1)
    return R


def check_substitution(prog):
    R = Result()
    R.rule('sized', 'the space for the result of a substitution depends on how often placeholders occur, not only on the lengths of the text and the arguments')
    R.rule('terminated', 'the result of a substitution is a terminated string whatever the text ends with')
    R.rule('number', 'the number of a placeholder is all of its digits')
    R.rule('failed', 'a text with a malformed placeholder yields no result, and its buffer is released')
    f = prog.fn('replace_m4')
    orig, args = P(f, 0), P(f, 1)
    # -- sized: slice of the allocation size
    it0 = PathI(prog)
    cfg = it0.cfg(f)
    mallocs = [i for b in f.blocks.values() for i in b.ins if i.op == 'call' and i.callee in ('malloc', 'calloc', 'realloc')]
    for m in mallocs:
        sl, dep, unk = set(), False, False
        work = [a[1] for a in m.args if a[0] == 'l']
        hdrs = set()
        while work:
            n = work.pop()
            if n in sl:
                continue
            sl.add(n)
            d = f.defs.get(n)
            if d is None:
                continue
            if d.op == 'phi':
                work += [v[1] for v, _ in d.x if v[0] == 'l']
                hdrs |= {h for h, body in cfg.loops.items() if d.bb.name in body}
            elif d.op == 'call':
                if d.callee != 'strlen':
                    unk = True
            elif d.op in ('add', 'sub', 'zext', 'sext', 'trunc', 'or'):
                work += [a[1] for a in d.args if a[0] == 'l']
            elif d.op in ('mul', 'shl'):
                dep = True
            else:
                unk = True
        for h in hdrs:
            for b in cfg.loops[h]:
                for i in f.blocks[b].ins:
                    if i.op == 'call' and i.callee not in ('strlen',) and not (i.callee or '').startswith('llvm.') or i.op == 'load' and i.ty == 'i8':
                        dep = True
        R.n('allocations judged')
        if dep:
            continue
        if unk:
            R.u('sized', 'the size of the result is computed in a way the rule cannot follow')
        else:
            R.v('sized', m.where(), 'the result is given room for the text and for each argument once, but the same placeholder may occur more than once')
    # -- terminated
    TERM, RAW = ('strcpy', 'stpcpy', 'strcat', 'snprintf', 'sprintf'), ('strncpy', 'memcpy', 'memmove')

    zeroed = any(m.callee == 'calloc' for m in mallocs)

    def kind(i):
        if i.op == 'call':
            if i.callee in TERM:
                return 't'
            if i.callee in RAW or (i.callee or '').startswith('llvm.mem'):
                d = f.defs.get(i.args[2][1]) if i.args[2][0] == 'l' else None
                if d is not None and d.op == 'add' and d.args[1] == ('i', 1):
                    return 't'          # the terminator is copied as well
            if i.callee in RAW or (i.callee or '').startswith('llvm.memcpy'):
                return 'r'
            if i.callee in prog.funcs:
                return '?'
        if i.op == 'store' and i.args[0][0] == 'i' and i.ty == 'i8':
            return 't' if i.args[0][1] == 0 else 'r'
        if i.op == 'store' and i.ty == 'i8':
            return 'r'
        return None
    ins_, out_ = {}, {b: set() for b in cfg.rpo}
    change = True
    while change:
        change = False
        for b in cfg.rpo:
            cur = set()
            for p in f.blocks[b].pred:
                if p in out_:
                    cur |= out_[p]
            if b == f.entry():
                cur = {('n', 0)}
            ins_[b] = set(cur)
            for i in f.blocks[b].ins:
                k = kind(i)
                if k:
                    cur = {(k, i.line)}
            if cur != out_[b]:
                out_[b] = cur
                change = True
            R.n('program points')
    for b in cfg.rpo:
        t = f.blocks[b].ins[-1]
        if t.op != 'ret' or zeroed:
            continue
        rv = t.args[0]
        d = f.defs.get(rv[1]) if rv[0] == 'l' else None
        if d is not None and d.op == 'phi' and d.bb.name == b:
            states = set()
            for val, pb in d.x:
                if val[0] not in ('null', 'i'):
                    states |= out_[pb]
            here = [k for k in map(kind, f.blocks[b].ins) if k]
            if here:
                states = {(here[-1], 0)}
        else:
            states = out_[b]
        R.n('results judged')
        for k, line in sorted(states):
            if k == 'r':
                R.v('terminated', '%s:%s' % (f.file, line), 'the result can be returned without a terminator behind what was copied here')
            elif k == '?':
                R.u('terminated', 'a helper writes the result')
    R.functions.add(f.name)
    # -- failed
    it = PathI(prog, keep=lambda e: e.name in ('malloc', 'calloc', 'free', 'strdup'), keep_facts=lambda k, v: k[0] == 'call' and k[1] in ('malloc', 'calloc'), loop_limit=1, merge=True)
    for v, st in it.call_function(f, (orig, args), State()):
        evs = events(st)
        R.n('paths')
        buf = [x for x in evs if x.name in ('malloc', 'calloc')]
        if v == NULL and buf and fnz(st, buf[0].ret) is not False:
            fr = [x for x in evs if x.name == 'free' and x.args[0] == buf[0].ret]
            if len(fr) != 1:
                R.v('failed', loc(f), 'a failed substitution releases its buffer %d times' % len(fr))
    # -- number
    scans = [i for fn in (f,) for b in fn.blocks.values() for i in b.ins if i.op == 'call' and i.callee in ('sscanf', '__isoc99_sscanf', '__isoc23_sscanf')]
    for i in scans:
        fmt = PathI(prog).operand({}, i.args[1])
        R.n('placeholder readers')
        if fmt[0] != 's':
            R.u('number', 'the placeholder is read with format %s' % pretty.pt(fmt))
            continue
        d = fmt[1].replace('$', '', 1) if fmt[1].startswith('$') else fmt[1]
        if d not in ('%d%n', '%u%n', '%i%n'):
            import re
            if re.match(r'%\d+[du]', d):
                R.v('number', i.where(), 'only the first digits of a placeholder number are read ("%s")' % fmt[1])
            else:
                R.u('number', 'the placeholder is read with format %s' % fmt[1])
    R.atleast('paths', 1)
    R.atleast('results judged', 1)
    return R
