"""R15: what the parser records for every form of statement.

The LALR automaton of the grammar (bison's own description of it) is driven over one token sequence per documented
statement form; the operands are symbols, never text.  Every reduction's action is interpreted on those symbols, so the
outcome is, for all operands at once, the sequence of recording calls with the operand in every argument."""
import re
import xml.etree.ElementTree as ET
from ..absint import State, NULL, VS, contains, AnalysisBroken
from ..slicefn import slice_fn, action_switch
from ..core import Result, loc
from ..paths import PathI, Ev, events, fnz
from ..tables import strip
from .. import pretty
from .lexer import KEYWORDS, PUNCT, keyword
from .statements import HEADERS, S, REQ, BLOCKS, EMPTY, FILES, WRONG, INVALID, TAKES

STOP = {'yyerrorlab': 1, 'yyabortlab': 2, 'yyacceptlab': 3, 'yyexhaustedlab': 4}
MAPS = ('insert_into_decl_map', 'insert_into_permmacros_map')


# ------------------------------------------------------------------ automaton

class Lalr:
    def __init__(self, xml):
        root = ET.fromstring(xml)
        self.rules = {}
        for r in root.iter('rule'):
            rhs = [s.text for s in r.find('rhs').findall('symbol')]
            self.rules[int(r.get('number'))] = (r.find('lhs').text, rhs)
        self.sym = {}
        self.type = {}
        for t in list(root.iter('terminal')) + list(root.iter('nonterminal')):
            self.sym[t.get('name')] = int(t.get('symbol-number'))
            self.type[t.get('name')] = t.get('type')
        self.terms = {t.get('name') for t in root.iter('terminal')}
        self.shift, self.goto, self.red, self.accept = {}, {}, {}, set()
        for s in root.iter('state'):
            n = int(s.get('number'))
            a = s.find('actions')
            for t in a.find('transitions').findall('transition'):
                (self.shift if t.get('type') == 'shift' else self.goto)[n, t.get('symbol')] = int(t.get('state'))
            for t in a.find('reductions').findall('reduction'):
                if t.get('enabled') == 'true':
                    if t.get('rule') == 'accept':
                        self.accept.add((n, t.get('symbol')))
                    else:
                        self.red[n, t.get('symbol')] = int(t.get('rule'))
            for e in a.find('errors').findall('error'):
                self.red[n, e.get('symbol')] = None

    def step(self, state, tok):
        """('shift', s) | ('reduce', rule) | ('accept',) | None"""
        if (state, tok) in self.shift:
            return ('shift', self.shift[state, tok])
        if (state, tok) in self.accept:
            return ('accept',)
        if (state, tok) in self.red:
            r = self.red[state, tok]
            return None if r is None else ('reduce', r)
        if (state, '$default') in self.accept:
            return ('accept',)
        r = self.red.get((state, '$default'))
        return ('reduce', r) if r is not None else None


# ------------------------------------------------------------------ actions

def actions(prog):
    """rule number -> function of (value stack, location stack, result, result location) made of the rule's action"""
    f = prog.fn('yyparse')
    dflt, cases = action_switch(f).x
    epi = f.blocks[dflt].succ
    stop = dict(STOP)
    stop[epi[0] if len(epi) == 1 else dflt] = 0
    names = [i.res for i in f.instrs() if i.op == 'alloca']
    given = [a for n in ('yyval', 'yyloc') for a in names if a.lstrip('%') == n]
    if len(given) != 2:
        raise AnalysisBroken('yyval/yyloc of yyparse')
    out = {}
    for num, lab in cases:
        g = slice_fn(f, 'yyaction.%d' % num, lab, stop, given)
        g.vsp = [u for u in g.free if '%union.YYSTYPE' in g.sty.get(u, ())]
        g.lsp = [u for u in g.free if '%struct.location' in g.sty.get(u, ())]
        if len(g.vsp) > 1 or len(g.lsp) > 1:
            raise AnalysisBroken('stack pointers of yyparse action %d' % num)
        out[num] = g
    return out


VAL, LOC, VSP, LSP = (('al', 'act', n, 0) for n in ('yyval', 'yyloc', 'vsp', 'lsp'))
LOCF = ('first_line', 'first_column', 'last_line', 'last_column')


def heap(t):
    return t is not None and t[0] == 'al' and t[1] == 'heap'


class ActI(PathI):
    """actions on symbolic operands: lists and texts the actions build are followed exactly"""

    def __init__(self, prog, api, sim):
        super().__init__(prog, opaque=set(api) | {'yyerror', 'free_string_list'}, stores=False)
        self.sim = sim
        self.api = api

    def unrolled(self, cfg, ph, ind, val):
        return val == NULL or heap(val) or super().unrolled(cfg, ph, ind, val)

    def on_enter(self, st, f, header):
        pass

    def on_backedge(self, st, f, header, killed):
        pass

    def size(self, st, t):
        """{1: constant, operand: how often its length} of a size"""
        if t[0] == 'i':
            return {1: t[1]}
        if t[0] == 'op' and t[1] in ('add', 'sub'):
            a, b = self.size(st, t[2]), self.size(st, t[3])
            if a is None or b is None:
                return None
            k = 1 if t[1] == 'add' else -1
            return {x: a.get(x, 0) + k * b.get(x, 0) for x in set(a) | set(b)}
        if t[0] == 'op' and t[1] in ('mul', 'shl'):
            a, b = (t[2], t[3]) if t[3][0] == 'i' else (t[3], t[2])
            a = self.size(st, a)
            if a is None or b[0] != 'i' or t[1] == 'shl' and t[3] is not b:
                return None
            return {x: n * (b[1] if t[1] == 'mul' else 1 << b[1]) for x, n in a.items()}
        if t[0] == 'call' and t[1] == 'strlen':
            x = self.text(st, t[2][0])
            return None if x is None else need(x, 0)
        return None

    def fresh(self, kind):
        self.sim.nheap += 1
        return ('al', 'heap', kind, self.sim.nheap)

    def text(self, st, p):
        if p[0] == 'tok':
            return (p,)
        if p[0] == 's':
            return (p[1],) if p[1] else ()
        t = st.mem.get(('text', p))
        if t is not None:
            return t
        if heap(p):
            out = ''
            for k in range(64):
                c = st.mem.get(('idx', p, ('i', k)), st.mem.get(p) if k == 0 else None)
                if c is None or c[0] != 'i':
                    return None
                if c == NULL:
                    return (out,) if out else ()
                out += chr(c[1] & 255)
        return None

    def settext(self, st, p, t, ins, cap=None):
        for k in list(st.mem):
            if k == p or k[0] == 'idx' and k[1] == p:
                del st.mem[k]
        if t is None:
            st.mem.pop(('text', p), None)
            return
        out = []
        for x in t:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        t = tuple(out)
        st.mem[('text', p)] = t
        for what, have in (('buffer', st.mem.get(('size', p))), ('limit', None if cap is None else self.size(st, cap))):
            have = None if have is None else dict(have)
            if have is not None and any(have.get(k, 0) < n for k, n in need(t).items()):
                self.ev(st, Ev('short', what, (), None, ins.where(), val=t))

    def on_store(self, st, ins, addr, val):
        if ins.aty and ins.aty[0] == 'i8':
            r = addr[1] if addr[0] == 'idx' else addr
            st.mem.pop(('text', r), None)

    def use(self, st, ins, v, what):
        self.ev(st, Ev('use', what, (), None, ins.where(), val=v))

    def on_call(self, st, ins, name, args):
        w = ins.where()
        if name in ('malloc', 'calloc') and name not in self.prog.funcs:
            p = self.fresh('m')
            z = self.size(st, args[0] if name == 'malloc' else args[1] if args[0] == ('i', 1) else args[0] if args[1] == ('i', 1) else ('hv',))
            if z is not None:
                st.mem[('size', p)] = tuple(sorted(z.items(), key=repr))
            if name == 'calloc':
                st.mem[('zero', p)] = ('i', 1)
            self.ev(st, Ev('alloc', None, (p,), None, w))
            return [(p, st)]
        if name in ('strdup', 'strndup') and name not in self.prog.funcs:
            p = self.fresh('s')
            self.use(st, ins, args[0], name)
            t = self.text(st, args[0])
            if t is not None:
                st.mem[('text', p)] = t
            self.ev(st, Ev('alloc', None, (p,), None, w))
            return [(p, st)]
        if name == 'free' and name not in self.prog.funcs:
            self.ev(st, Ev('free', None, args, None, w))
            return [(NULL, st)]
        if name == 'free_string_list':
            for x in self.chain(st, args[0]):
                self.ev(st, Ev('free', None, (x,), None, w))
            return [(NULL, st)]
        if name in ('strcat', 'strcpy', 'stpcpy') and name not in self.prog.funcs:
            self.use(st, ins, args[1], name)
            a, b = (self.text(st, args[0]) if name == 'strcat' else ()), self.text(st, args[1])
            self.settext(st, args[0], None if a is None or b is None else a + b, ins)
            return [(args[0], st)]
        if name in ('snprintf', 'sprintf') and name not in self.prog.funcs:
            fa = args[2:] if name == 'snprintf' else args[1:]
            t = None
            if fa[0][0] == 's':
                t, rest = (), list(fa[1:])
                for part in re.split(r'(%s|%c|%%|%[^a-zA-Z]*[a-zA-Z])', fa[0][1]):
                    if part == '%%':
                        t += ('%',)
                    elif part == '%s' and rest:
                        x = rest.pop(0)
                        self.use(st, ins, x, name)
                        x = self.text(st, x)
                        if x is None:
                            t = None
                            break
                        t += x
                    elif part == '%c' and rest and rest[0][0] == 'i':
                        t += (chr(rest.pop(0)[1] & 255),)
                    elif part.startswith('%'):
                        t = None
                        break
                    elif part:
                        t += (part,)
            self.settext(st, args[0], t, ins, args[1] if name == 'snprintf' else None)
            return [(('call', name, args, ins.uid), st)]
        if name == 'ends_with':
            t = self.text(st, args[0])
            suf = args[2]
            if t and len(t) == 1 and not isinstance(t[0], str) and suf[0] == 's':
                txt = self.sim.texts.get(t[0][1])
                if txt is not None:
                    return [(('i', int(txt.endswith(suf[1]))), st)]
            return [(('call', name, args), st)]
        if name in self.api or name == 'yyerror':
            den = tuple(self.den(st, a) for a in args)
            for a in args:
                self.use(st, ins, a, name)
            own = tuple(x for i in self.api.get(name, ()) if i < len(args) for x in self.chain(st, args[i]))
            self.ev(st, Ev('rec', name, args, None, w, val=(den, own)))
            r = ('call', name, args, self.sim.uid())
            st.facts[r] = VS(NULL)      # recorded without failure
            return [(r, st)]
        return super().on_call(st, ins, name, args)

    def init_load(self, st, addr):
        if addr == self.sim.cur:
            return ('cur',)
        return None

    def chain(self, st, p):
        """what releasing p releases"""
        out = []
        while p is not None and p != NULL:
            if not heap(p) or ('fld', p, 'string_list.next') not in st.mem and ('fld', p, 'string_list.string') not in st.mem:
                out.append(p)
                break
            if p in out:
                break
            out.append(p)
            s = self.load(st, ('fld', p, 'string_list.string'))
            if s != NULL:
                out.append(s)
            p = self.load(st, ('fld', p, 'string_list.next'))
        return out

    def den(self, st, v):
        """what an argument denotes"""
        if v == self.sim.cur:
            return '&cur'
        if v[0] == 'cur':
            return 'cur'
        if v[0] == 'ld' and v[1][0] == 'fld' and v[1][1] == ('cur',):
            return 'cur->' + v[1][2].split('.')[1]
        if v[0] in ('line',):
            return v
        if v[0] == 'i':
            return v
        if v[0] == 's':
            return ('txt', (v[1],))
        if heap(v) and (('fld', v, 'string_list.string') in st.mem or ('fld', v, 'string_list.next') in st.mem):
            out, seen = [], set()
            while v != NULL:
                if v in seen or not heap(v):
                    return ('?', v)
                seen.add(v)
                s = self.load(st, ('fld', v, 'string_list.string'))
                sp = self.load(st, ('fld', v, 'string_list.has_incorrect_space'))
                t = self.text(st, s)
                if t is None or sp[0] != 'i':
                    return ('?', s)
                out.append((t, sp[1]))
                v = self.load(st, ('fld', v, 'string_list.next'))
            return ('list', tuple(out))
        t = self.text(st, v)
        if t is not None:
            return ('txt', t)
        return ('?', v)


def need(text, end=1):
    out = {1: end}
    for x in text:
        k = 1 if isinstance(x, str) else x
        out[k] = out.get(k, 0) + (len(x) if isinstance(x, str) else 1)
    return out


def gvar(prog, name):
    for g in prog.globals.values():
        if (g.name == name or g.name.endswith('#' + name)) and g.file.endswith('.y'):
            return ('g', g.name)
    raise AnalysisBroken('no variable %s in the parser' % name)


class Sim:
    """one token sequence"""

    def __init__(self, prog, lalr, acts, api, flavor):
        self.prog, self.lalr, self.acts, self.api, self.flavor = prog, lalr, acts, api, flavor
        self.nheap = 0
        self.cur, self.expect = gvar(prog, 'cur'), gvar(prog, 'expected_node_flavor')
        self.n = 0
        self.texts = {}
        self.I = ActI(prog, api, self)
        self.reductions = 0
        self.undecided = None
        self.rules = set()
        self.seen_at = []
        self.lastrule = None
        self.shifted = 0
        self.errors = 0
        self.popped = None

    def uid(self):
        self.n += 1
        return ('sim', self.n)

    def run(self, toks, texts=None):
        """-> (outcome, events, index of the token reached, heap)   outcome: 'accept' | 'refused' | 'undecided'"""
        self.texts = texts or {}
        lal = self.lalr
        states, vals, locs = [0], [None], [None]
        mem, evs = {}, []
        toks = list(toks) + ['$end']
        i = 0
        for _ in range(20000):
            act = lal.step(states[-1], toks[i])
            if act is None:
                # bison reports the error and looks for a state that can go on with `error`
                self.errors += 1
                if not self.recover(states, vals, locs):
                    return 'refused', evs, i, mem
                continue
            if act[0] == 'accept' or act[0] == 'shift' and toks[i] == '$end':
                return 'accept', evs, i, mem
            if act[0] == 'shift':
                states.append(act[1])
                vals.append(('tok', i) if lal.type.get(toks[i]) == 'string' else ('none', i))
                locs.append(((i, 'first_line'), (i, 'first_column'), (i, 'last_line'), (i, 'last_column')))
                i += 1
                self.shifted = i
                continue
            rule = act[1]
            lhs, rhs = lal.rules[rule]
            n = len(rhs)
            self.reductions += 1
            self.rules.add(rule)
            self.lastrule = rule
            sv, sl = vals[len(vals) - n:], locs[len(locs) - n:]
            if n:
                loc_ = (sl[0][0], sl[0][1], sl[-1][2], sl[-1][3])
                v = sv[0]
            else:
                # mid-rule actions see the stack below them; the location is the end of what precedes
                p = locs[-1]
                loc_ = (p[2], p[3], p[2], p[3]) if p else ((-1, 'last_line'),) * 4
                v = ('none', -1)
            g = self.acts.get(rule + 1)      # bison counts from one in the parser, from zero in its report
            if g is not None:
                st = State()
                st.mem.update(mem)
                st.mem[VAL] = v
                for k in range(len(vals)):
                    x = vals[len(vals) - 1 - k]
                    st.mem[('idx', VSP, ('i', -k)) if k else VSP] = x if x is not None else ('none', -1)
                    l = locs[len(locs) - 1 - k]
                    if l is not None:
                        for fn, lv in zip(LOCF, l):
                            st.mem[('fld', ('idx', LSP, ('i', -k)) if k else LSP, 'location.' + fn)] = ('line',) + lv
                    if k > n + 8:
                        break
                for fn, lv in zip(LOCF, loc_):
                    st.mem[('fld', LOC, 'location.' + fn)] = ('line',) + lv
                st.mem[self.expect] = ('i', self.flavor)
                args = [VAL, LOC]
                for prm in g.params[2:]:
                    args.append(VSP if prm in g.vsp else LSP if prm in g.lsp else ('hv', prm))
                outs = self.I.call_function(g, tuple(args), st)
                if g.name in self.I.truncated or not outs:
                    self.undecided = 'the action of rule %d (%s) was not followed to its end' % (rule, lhs)
                    return 'undecided', evs, i, mem
                if len({(r, tuple(e.key() for e in events(s) if e.kind != 'use'), s.mem.get(VAL)) for r, s in outs}) > 1:
                    self.undecided = 'the action of rule %d (%s) depends on %s' % (rule, lhs, pretty.pfacts(outs[0][1].facts))
                    return 'undecided', evs, i, mem
                r, s = outs[0]
                for e in events(s):
                    evs.append((rule, e))
                    if e.kind == 'rec' and e.name != 'yyerror':
                        self.seen_at.append(i)
                mem = {k: x for k, x in s.mem.items() if self.keep(k)}
                v = s.mem.get(VAL, v)
                if r == ('i', 3):
                    return 'accept', evs, i, mem
                if r != ('i', 0):
                    # the operands of the rule are dropped without being released
                    self.popped = set()
                    for x in sv:
                        if x is not None:
                            self.popped.update(self.I.chain(s, x))
                    del states[len(states) - n:], vals[len(vals) - n:], locs[len(locs) - n:]
                    if r != ('i', 1) or not self.recover(states, vals, locs):
                        return 'refused', evs, i, mem
                    continue
            if n:
                del states[-n:], vals[-n:], locs[-n:]
            nx = lal.goto.get((states[-1], lhs))
            if nx is None:
                raise AnalysisBroken('automaton: no goto')
            states.append(nx)
            vals.append(v)
            locs.append(loc_)
        return 'endless', evs, i, mem

    def recover(self, states, vals, locs):
        while states:
            nx = self.lalr.shift.get((states[-1], 'error'))
            if nx is not None:
                states.append(nx)
                vals.append(('none', -1))
                locs.append(locs[-1] or ((-1, 'first_line'), (-1, 'first_column'), (-1, 'last_line'), (-1, 'last_column')))
                return True
            states.pop(), vals.pop(), locs.pop()
        return False

    @staticmethod
    def keep(k):
        r = k
        while r[0] in ('fld', 'idx', 'text', 'size', 'zero', 'ver') and isinstance(r[1], tuple):
            r = r[1]
        return heap(r)


# ------------------------------------------------------------------ forms

def tokens(text):
    """-> token names, {operand: index}"""
    toks, ops, texts = [], {}, {}
    for w in text.split():
        k = w[0]
        if w in KEYWORDS:
            t = keyword(w)
        elif k == '%':
            t = 'STRING'
        elif k == '#':
            t = 'NUMBER'
        elif k == '@':
            t = 'NUM_STRING'
        elif k == '"':
            t = 'QUOTED_STRING'
        elif k == '!' and w not in PUNCT:
            t = 'VERSION_NO'
        elif k == '^' and w != '^':
            t = 'SELINT_COMMAND'
        elif w == '//':
            t = 'COMMENT'
        elif w == 'ft':
            t = 'FILE_TYPE_SPECIFIER'
        elif k == '4':
            t = 'IPV4'
        elif k == '6':
            t = 'IPV6'
        elif w in PUNCT:
            t = PUNCT[w]
        else:
            raise AnalysisBroken('form %r: %r' % (text, w))
        if t in ('STRING', 'NUMBER', 'NUM_STRING', 'QUOTED_STRING', 'VERSION_NO', 'SELINT_COMMAND', 'IPV4', 'IPV6'):
            ops[w] = len(toks)
            texts[len(toks)] = w[1:]
        toks.append(t)
    return toks, ops, texts


class Form:
    """a token sequence with the recordings it is to cause; (function, arguments) with operands as token positions"""

    def __init__(self):
        self.toks, self.exp, self.texts, self.names = [], [], {}, []

    def add(self, prog, text, exp, start=None):
        base = len(self.toks)
        t, ops, texts = tokens(text)
        self.toks += t
        self.names += text.split()
        for i, x in texts.items():
            self.texts[base + i] = x
        ops = {k: base + i for k, i in ops.items()}
        self.expect(prog, exp, ops, base if start is None else start)
        return ops, base

    def expect(self, prog, exp, ops, base):
        for e in exp:
            words = re.findall(r'\[[^\]]*\]|\S+', e)
            fn = words[0]
            args = [] if fn[0] == '!' else ['&cur']
            for w in words[1:]:
                args.append(self.arg(prog, w, ops, base))
            self.exp.append((fn.lstrip('!'), args))

    def txt(self, w, ops):
        if w[0] == '{':
            out = []
            for p in w[1:-1].split('|'):
                if p:
                    out.append(('tok', ops[p]) if p in ops else p)
            return tuple(out)
        if w in ops:
            return (('tok', ops[w]),)
        return (w,)

    def arg(self, prog, w, ops, base):
        if w == 'L':
            return ('line', base, base)
        if w == 'B':
            return ('line', base, None)
        if w == '*':
            return ('line', 0, None)
        if w == 'NULL':
            return NULL
        if w[0] == '[':
            out = []
            for x in w[1:-1].split():
                sp = x.endswith('!')
                out.append((self.txt(x.rstrip('!'), ops), int(sp)))
            return ('list', tuple(out))
        if w[0] in '{%#@"^!':
            return ('txt', self.txt(w, ops))
        if w.startswith('cur'):
            return w
        if w.isdigit():
            return ('i', int(w))
        return ('i', prog.enum(w))


def show(names, toks, v):
    def tx(t):
        return '"%s"' % ''.join(x if isinstance(x, str) else names[x[1]][1:] for x in t)
    if isinstance(v, str):
        return v
    if v == NULL:
        return 'NULL'
    if v[0] == 'i':
        return str(v[1])
    if v[0] == 'txt':
        return tx(v[1])
    if v[0] == 'list':
        return '{ %s }' % ' '.join(tx(t) + ('!' if sp else '') for t, sp in v[1])
    if v[0] == 'line':
        return 'line of token %d (%s)' % (v[1], names[v[1]]) if v[1] < len(names) else 'line'
    return '?'


class Judge:
    def __init__(self, prog, R):
        self.prog, self.R = prog, R
        self.lal = Lalr(prog.grammar_xml)
        self.acts = actions(prog)
        self.api = {f.name: TAKES.get(f.name, ()) for f in prog.funcs.values() if f.file.endswith('parse_functions.c') and not f.internal and (f.name in TAKES or re.match('insert_|begin_|end_|save_', f.name))}
        for m in MAPS:
            self.api[m] = TAKES.get(m, ())
        self.told = set()
        self.used = set()

    def sim(self, form, flavor):
        s = Sim(self.prog, self.lal, self.acts, self.api, self.prog.enum(flavor))
        out = s.run(form.toks, form.texts)
        self.R.n('forms')
        self.R.n('reductions', s.reductions)
        self.used |= s.rules
        return s, out

    def v(self, rule, where, msg, once):
        if once in self.told:
            return
        self.told.add(once)
        self.R.v(rule, where, msg)

    def where(self, rule):
        g = self.acts.get(rule + 1)
        return '%s:%d' % (g.file, g.line) if g else 'parse.y'

    def accept(self, name, form, flavor):
        R = self.R
        s, (out, evs, at, mem) = self.sim(form, flavor)
        if out == 'undecided':
            R.u('forms', '%s: %s' % (name, s.undecided))
            return
        if out == 'endless':
            self.v('refused', self.where(s.lastrule), '%s: the parser does not come to an end' % name, ('endless',))
            return
        if out != 'accept':
            last = s.lastrule
            self.v('forms', self.where(last) if out != 'syntax' and last is not None else 'parse.y:1', '%s is refused at "%s" (in: %s)' % (name, form.names[at] if at < len(form.names) else 'the end', ' '.join(form.names[max(0, at - 6):at + 2])), ('refused', name))
            return
        rec = [(r, e) for r, e in evs if e.kind == 'rec']
        ok = True
        for k in range(max(len(rec), len(form.exp))):
            if k >= len(rec):
                fn, args = form.exp[k]
                self.v('forms', 'parse.y:1', '%s: %s is not called' % (name, fn), ('missing', name, fn))
                ok = False
                break
            r, e = rec[k]
            if k >= len(form.exp) or e.name != form.exp[k][0]:
                self.v('forms', e.where, '%s: %s is called%s' % (name, e.name, ' instead of ' + form.exp[k][0] if k < len(form.exp) else ' in addition'), ('call', name, e.name))
                ok = False
                break
            R.n('recordings')
            den = e.val[0]
            for j, w in enumerate(form.exp[k][1]):
                R.n('arguments')
                g = den[j] if j < len(den) else None
                if isinstance(w, tuple) and w[0] == 'line':
                    hi = s.seen_at[k] if w[2] is None else w[2]
                    good = g is not None and g[0] == 'line' and w[1] <= g[1] <= hi
                    odd = g is None or g[0] not in ('line', 'i')
                else:
                    good = g == w
                    odd = isinstance(g, tuple) and g[0] == '?'
                if good:
                    continue
                if odd:
                    R.u('operands', '%s: argument %d of %s is %s' % (name, j + 1, e.name, pretty.pt(g[1]) if isinstance(g, tuple) and isinstance(g[1], tuple) else g))
                    continue
                rl = 'line' if isinstance(w, tuple) and w[0] == 'line' else 'operands'
                self.v(rl, e.where, '%s: argument %d of %s is %s instead of %s' % (name, j + 1, e.name, show(form.names, form.toks, g), show(form.names, form.toks, w)), (e.where, e.name, j))
        self.memory(name, form, evs, s, None)
        return ok

    def memory(self, name, form, evs, s, popped):
        R = self.R
        gone, made = {}, {}
        for i, t in enumerate(form.toks):
            if self.lal.type.get(t) == 'string' and i < s.shifted:
                made[('tok', i)] = None
        for r, e in evs:
            if e.kind == 'short':
                self.v('memory', e.where, '%s: the text %s does not fit its %s' % (name, show(form.names, form.toks, ('txt', e.val)), e.name), ('short', e.where))
                continue
            if e.kind == 'alloc':
                made[e.args[0]] = e.where
                continue
            rel = e.args if e.kind == 'free' else e.val[1] if e.kind == 'rec' else ()
            if e.kind == 'use' and e.val in gone:
                self.v('memory', e.where, '%s: %s is used after it was released at %s' % (name, self.nm(form, e.val), gone[e.val]), ('use', e.where))
            for x in rel:
                if x == NULL or x not in made:
                    continue
                if x in gone:
                    self.v('memory', e.where, '%s: %s is released twice (first at %s)' % (name, self.nm(form, x), gone[x]), ('twice', e.where))
                gone.setdefault(x, e.where)
        for x, w in made.items():
            if x in gone or popped is not None and x not in popped:
                continue
            R.n('operands followed to their release')
            self.v('memory', w or self.where(s.lastrule), '%s: %s is never released' % (name, self.nm(form, x)), ('leak', name, w, x if x[0] == 'tok' else None))
        R.n('operands followed to their release', len(gone))

    def nm(self, form, x):
        return 'the operand %s' % form.names[x[1]] if x[0] == 'tok' else 'memory allocated for it'

    def refuse(self, name, form, flavor, allowed=()):
        s, (out, evs, at, mem) = self.sim(form, flavor)
        if out == 'undecided':
            self.R.u('forms', '%s: %s' % (name, s.undecided))
            return
        if out == 'endless':
            self.v('refused', self.where(s.lastrule), '%s: the parser does not come to an end' % name, ('endless',))
            return
        if out == 'accept':
            self.v('refused', self.where(s.lastrule) if not s.errors else 'parse.y:1', '%s is accepted%s' % (name, ' although an error was found' if s.errors else ''), ('accepted', name))
            return
        rec = [(r, e) for r, e in evs if e.kind == 'rec']
        if not any(e.name == 'yyerror' for r, e in rec) and not s.errors:
            self.v('refused', self.where(s.lastrule), '%s is refused without a message' % name, ('silent', name))
        for r, e in rec:
            if allowed is not None and e.name != 'yyerror' and e.name not in allowed:
                self.v('refused', e.where, '%s: %s is recorded although it is refused' % (name, e.name), ('recorded', name, e.name))
        if s.popped:
            self.memory(name, form, evs, s, s.popped)


def check(prog):
    R = Result()
    R.rule('forms', 'every form of statement is accepted wherever statements are, and causes exactly the recording it stands for, blocks opened before and closed after what they hold')
    R.rule('operands', 'every operand of the statement reaches the recording in its own role, sets with all their members in order, "~", "*" and "-" kept')
    R.rule('line', 'a statement is recorded at its own line')
    R.rule('memory', 'every operand is released or handed over exactly once and not used afterwards; composed texts fit their buffers')
    R.rule('refused', 'text that is no policy, or is policy of another kind of file, is refused with a message and without being recorded')
    J = Judge(prog, R)
    pm = HEADERS[0]

    def te(exp_head=True):
        f = Form()
        f.add(prog, pm[1], pm[2])
        return f
    for name, text, exp in HEADERS:
        f = Form()
        f.add(prog, text, exp)
        f.add(prog, ';', ['insert_semicolon L'])
        J.accept(name, f, 'NODE_TE_FILE')
        f = Form()
        f.add(prog, '//', ['insert_comment L'])
        f.add(prog, text, exp)
        f.add(prog, '//', [])
        J.accept(name + ' after a comment', f, 'NODE_TE_FILE')
    for name, text, exp in S:
        f = te()
        f.add(prog, text, exp)
        if not J.accept(name, f, 'NODE_TE_FILE'):
            continue
        f = te()
        ops, base = f.add(prog, text, exp)
        f.add(prog, '^z', ['!save_command cur ^z'])
        f.add(prog, ';', ['insert_semicolon L'])
        J.accept(name + ' with a suppression', f, 'NODE_TE_FILE')
    for bname, op, cl, eo, ec, kind in BLOCKS:
        forms = REQ if kind == 'REQ' else S
        first = True
        for name, text, exp in forms + ([('nothing', '', [])] if bname in EMPTY else []):
            for sup in (False, True):
                if sup and not text:
                    continue
                f = te() if kind != 'IF' else Form()
                names = op.split()
                o1, b1 = f.add(prog, op, [])
                # the closing part may name operands of the opening
                f.expect(prog, eo, o1, b1)
                if text:
                    f.add(prog, text, exp)
                if sup:
                    f.add(prog, '^s', ['!save_command cur ^s'])
                f.add(prog, cl, [])
                f.expect(prog, ec, o1, b1)
                if kind != 'IF':
                    f.add(prog, ';', ['insert_semicolon L'])
                J.accept('%s in %s%s' % (name, bname, ' with a suppression' if sup else ''), f, 'NODE_IF_FILE' if kind == 'IF' else 'NODE_TE_FILE')
    # blocks inside blocks
    for bname, op, cl, eo, ec, kind in BLOCKS:
        if kind == 'REQ':
            continue
        for b2, op2, cl2, eo2, ec2, kind2 in BLOCKS:
            if kind2 == 'IF':
                continue
            f = te() if kind != 'IF' else Form()
            o1, b1 = f.add(prog, op, [])
            f.expect(prog, eo, o1, b1)
            o2, b2_ = f.add(prog, op2, [])
            f.expect(prog, eo2, o2, b2_)
            n, t, e = (REQ if kind2 == 'REQ' else S)[0]
            f.add(prog, t, e)
            f.add(prog, cl2, [])
            f.expect(prog, ec2, o2, b2_)
            f.add(prog, '%q ( )', ['insert_interface_call %q NULL L'])
            f.add(prog, cl, [])
            f.expect(prog, ec, o1, b1)
            J.accept('%s in %s' % (b2, bname), f, 'NODE_IF_FILE' if kind == 'IF' else 'NODE_TE_FILE')
    for name, flavor, text, exp in FILES:
        f = Form()
        f.add(prog, text, exp)
        J.accept(name, f, flavor)
    J.accept('empty file', Form(), 'NODE_TE_FILE')
    for bname, op, cl, eo, ec, kind in BLOCKS:
        if kind == 'REQ':
            f = te()
            o1, b1 = f.add(prog, op, [])
            f.expect(prog, eo, o1, b1)
            for name, text, exp in REQ:
                f.add(prog, text, exp)
            f.add(prog, cl, [])
            f.expect(prog, ec, o1, b1)
            J.accept('several statements in ' + bname, f, 'NODE_TE_FILE')
    for text, flavor, _w in WRONG:
        for other in ('NODE_TE_FILE', 'NODE_IF_FILE', 'NODE_SPT_FILE', 'NODE_AV_FILE'):
            if other == flavor:
                continue
            f = Form()
            f.add(prog, text, [])
            J.refuse('"%s" where a %s is expected' % (text, other[5:].lower().replace('_', ' ')), f, other, None if text.startswith('common') or 'inherits %b {' in text or text.startswith('class') else ())
    for text, what in INVALID:
        f = te()
        f.add(prog, text, [])
        J.refuse('%s (%s)' % (what, text), f, 'NODE_TE_FILE', None)
        for bname, op, cl, eo, ec, kind in BLOCKS:
            if kind == 'S' and bname in ('optional_policy', 'if', 'ifdef') and text not in ("' )", '}'):
                f = te()
                f.add(prog, op, [])
                f.add(prog, text, [])
                f.add(prog, cl + ' ;', [])
                J.refuse('%s in %s (%s)' % (what, bname, text), f, 'NODE_TE_FILE', None)
    discards(J)
    R.n('grammar rules exercised', len(J.used))
    R.n('grammar rules', len(J.lal.rules))
    J.unused = sorted(set(J.lal.rules) - J.used)
    R.unused = J.unused
    return R


def discards(J):
    """operands dropped while recovering from an error are released"""
    prog, R = J.prog, J.R
    f = prog.funcs.get('yydestruct')
    if f is None:
        raise AnalysisBroken('no yydestruct')
    kind = [p for p, t in zip(f.params, f.ptypes) if t == 'i32']
    vp = [i for i, p in enumerate(f.params) if 'value' in p]
    if len(kind) != 1 or len(vp) != 1:
        raise AnalysisBroken('yydestruct')
    for sym, ty in sorted(J.lal.type.items()):
        want = {'string': 'free', 'sl': 'free_string_list'}.get(ty)
        if want is None:
            continue
        R.n('symbols with an operand')
        it = PathI(prog, opaque=('free_string_list', 'yy_symbol_print'), stores=False)
        args = tuple(('i', J.lal.sym[sym]) if p == kind[0] else ('p', f.name, p) for p in f.params)
        for v, st in it.call_function(f, args, State()):
            rel = [e for e in events(st) if e.name in ('free', 'free_string_list')]
            val = ('ld', args[vp[0]])
            if not any(e.name == want and e.args[0] == val for e in rel):
                J.v('memory', 'parse.y:1', 'the operand of %s is not released when it is discarded after an error' % sym, ('destructor', sym))
            elif len(rel) != 1:
                J.v('memory', rel[1].where, 'the operand of %s is released twice when it is discarded after an error' % sym, ('destructor', sym))
