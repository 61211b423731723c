"""P29: every loop and every recursion comes to an end.

Loops: every way once around a loop (inner loops passed without an iteration or through one of their exits) is looked at as a
whole; if nothing its own branch decisions depend on changes on the way, the loop repeats it for ever.
Recursion: a call inside a cycle of the call graph has to hand on a proper part of what the caller was given."""
import sys
from ..absint import CFG
from ..absint import NULL, State
from ..core import Result, loc
from .required import ShapeI, Endless, build_list, text
from .. import pretty

GENERATED = ('lex.c', 'parse.c')
NEG = {'ne': 'eq', 'uge': 'ult', 'sge': 'slt', 'ule': 'ugt', 'sle': 'sgt'}
SWAP = {'ugt': 'ult', 'sgt': 'slt'}
PURE = set('''strcmp strncmp strcasecmp strncasecmp strlen strchr strrchr strstr strpbrk memcmp isspace isalpha isalnum isdigit isxdigit isupper islower
 ispunct isprint tolower toupper __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc printf fprintf puts putchar fputs fputc fflush abs
 malloc calloc strdup strndup free access fclose closedir __errno_location strerror perror asprintf abort exit __assert_fail qsort
 strspn strcspn realloc sscanf __isoc99_sscanf strtol strtoul atoi pcre2_match pcre2_compile_8 regcomp regexec regerror regfree isatty fileno getenv stat feof ferror __builtin_expect __vf_hash_find __vf_hash_next __vf_hash_count'''.split())
WRITES8 = set('memcpy memmove memset strcpy strncpy strcat strncat snprintf sprintf stpcpy vsnprintf'.split())


EXIT = frozenset([('exit',)])
PRIO = ['list or tree link', 'counter or text position', 'input', 'result of a call', 'arithmetic', 'state', 'opaque']


def eff(prog):
    """function -> (classes written, classes read, reads input)"""
    if getattr(prog, '_eff', None) is not None:
        return prog._eff
    base, calls = {}, {}
    for f in prog.funcs.values():
        w, r, inp = set(), set(), set()
        cs = set()
        for i in f.instrs():
            if i.op == 'store':
                c = cls(f, i.args[1])
                if c[0] not in 'am':
                    w.add(c + (i.ty,))
            elif i.op == 'load':
                c = cls(f, i.args[0])
                if c[0] != 'a':
                    r.add(c + (i.ty,))
            elif i.op == 'call':
                n = i.callee
                if n is None:
                    cs |= targets(prog, i)
                elif n in prog.funcs:
                    cs.add(n)
                elif n.startswith('llvm.mem') or n in WRITES8:
                    w.add(('t', 'i8'))
                elif n in PURE or n.startswith('llvm.'):
                    pass
                else:
                    inp.add(n)
        base[f.name] = [w, r, inp]
        calls[f.name] = cs
    ch = True
    while ch:
        ch = False
        for n, b in base.items():
            for c in calls[n]:
                for k in range(3):
                    if not base[c][k] <= b[k]:
                        b[k] |= base[c][k]
                        ch = True
    prog._eff = base
    return base


def targets(prog, i):
    """functions an indirect call may reach: address taken, same signature"""
    out = set()
    for x in prog.address_taken():
        g = prog.funcs.get(x)
        if g is not None and len(g.params) == len(i.args) and list(g.ptypes) == list(i.aty) and g.retty == i.ty:
            out.add(x)
    return out


def cls(f, o):
    """what kind of memory an address denotes"""
    cs = kinds_of(f, o, set())
    return next(iter(cs)) if len(cs) == 1 else ('t',)


def kinds_of(f, o, seen):
    if o[0] == 'g':
        return {('g', o[1])}
    if o[0] == 'ce':
        if o[1] == 'getelementptr' and o[3] and o[3][0][0] == 'g':
            return {('g', o[3][0][1])}
        return {('t',)}
    if o[0] != 'l':
        return {('t',)}
    if o[1] in f.params:
        return {('p',)}
    if o[1] in seen:
        return set()
    seen = seen | {o[1]}
    i = f.defs.get(o[1])
    if i is None:
        return {('t',)}
    if i.op == 'alloca':
        return {('a', o[1])}
    if i.op == 'call' and i.callee in ('malloc', 'calloc', 'strdup', 'strndup'):
        return {('m', i.res)}
    if i.op == 'call' and i.callee in ('strchr', 'strrchr', 'strstr', 'strpbrk') or i.op in ('bitcast', 'freeze'):
        return kinds_of(f, i.args[0], seen)
    if i.op in ('phi', 'select'):
        out = set()
        for v in (i.args if i.op == 'phi' else i.args[1:]):
            if v[0] in ('null', 'i'):
                continue
            out |= kinds_of(f, v, seen)
            if ('t',) in out:
                return {('t',)}
        return out
    if i.op == 'getelementptr':
        if i.x.startswith('%struct') and len(i.args) == 3 and i.args[2][0] == 'i':
            b = kinds_of(f, i.args[0], seen)
            if b and all(x[0] in 'agm' for x in b):
                return b
            return {('f', i.x, i.args[2][1])}
        return kinds_of(f, i.args[0], seen)
    return {('t',)}


def alias(a, b):
    """may two accesses (class + type) touch the same memory"""
    if a[-1] != b[-1]:
        return False
    if {a[0], b[0]} == {'m', 'p'}:
        return False
    if a[0] == b[0] and a[0] not in 'tp':
        return a[:-1] == b[:-1]
    if 'p' in (a[0], b[0]) or 'm' in (a[0], b[0]):
        return a[0] in 'tpmf' and b[0] in 'tpmf'
    if 't' in (a[0], b[0]):
        return True
    return False


class Loop:
    cap = 30000

    def __init__(self, prog, f, cfg, h):
        self.prog, self.f, self.cfg, self.h = prog, f, cfg, h
        self.body = cfg.loops[h]
        self.eff = eff(prog)
        self.stuck = []
        self.ways = []
        self.direct = self.direct_store()
        self.kinds = set()
        self.paths = 0
        self.over = False

    # terms are tuples; deps are kept beside them
    def link(self, phi, t):
        """the last link followed from the header value"""
        if t[0] == 'ld' and t[1][0] == 'getelementptr' and isinstance(t[1][1], str) and t[1][1].startswith('%struct') and t[1][-1][0] == 'i' and phi in heads(t):
            return self.prog.field(t[1][1], t[1][-1][1])

    def revisit(self):
        """up to a node on one way, down into its children on another: the same children are walked again"""
        for phi in {p for n, _, _ in self.ways for p in n}:
            down = [(n, c, t) for n, c, t in self.ways if phi in n and self.link(phi, n[phi][0]) == 'first_child']
            up = [(n, c, t) for n, c, t in self.ways if phi in n and self.link(phi, n[phi][0]) == 'parent']
            for n, c, t in up:
                sub = {('h', p): v[0] for p, v in n.items() if v[0][0] in ('i', 'inv', 'k')}
                for n2, c2, t2 in down:
                    if not any(hits(resub(x, sub), k) for x, k, _ in c2):
                        self.stuck.append((t, 'up to a node whose children are then walked again along lines %s' % ' '.join(map(str, dedup(t2)))))
                        return

    def val(self, env, o):
        if o[0] == 'l':
            if o[1] in env:
                return env[o[1]]
            d = self.f.defs.get(o[1])
            if d is not None and d.bb.name in self.body and d.op != 'alloca':
                return (('?', o[1]), frozenset([('any',)]))       # defined in a part of the loop not on this path
            return (('inv', o[1]), frozenset())
        if o[0] == 'null':
            return (('i', 0), frozenset())
        if o[0] == 'i':
            return (o, frozenset())
        return (('k',) + tuple(map(repr, o)), frozenset())

    def run(self):
        env = {}
        for i in self.f.blocks[self.h].ins:
            if i.op == 'phi':
                env[i.res] = (('h', i.res), frozenset([('phi', i.res)]))
        self.walk(self.h, None, env, {}, [], [], frozenset(), True, ())
        self.revisit()

    def walk(self, b, prev, env, facts, conds, clob, seen, first, trail):
        if b in self.cfg.headers and b != self.h:
            self.walk1(b, prev, env, facts, conds, clob, seen, first, trail, True)
        self.walk1(b, prev, env, facts, conds, clob, seen, first, trail, False)

    def inner(self, b, entry):
        """what an inner loop writes, and for each of its header values what it may depend on after some iterations"""
        body = self.cfg.loops[b]
        hp = {r: entry[r][1] for r in entry}
        ctl = frozenset()
        while True:
            env, clob = dict(self.outer), []
            for r in hp:
                env[r] = (('after', r), hp[r])
            c2 = set(ctl)
            for x in self.cfg.rpo:
                if x not in body:
                    continue
                for i in self.f.blocks[x].ins:
                    if i.op == 'phi':
                        if x != b:
                            d = frozenset().union(*[self.val(env, v)[1] - {('any',)} for v, _ in i.x])
                            env[i.res] = (('after', i.res), d)
                        continue
                    self.step(i, env, [], clob)
                t = self.f.blocks[x].ins[-1]
                if t.op in ('br', 'switch') and t.args:
                    c2 |= self.val(env, t.args[0])[1]
            new = {}
            for i in self.f.blocks[b].ins:
                if i.op == 'phi':
                    d = set(hp[i.res]) | c2
                    for v, pb in i.x:
                        if pb in body:
                            d |= self.val(env, v)[1]
                    new[i.res] = frozenset(d)
            if new == hp and frozenset(c2) == ctl:
                return clob, hp
            hp, ctl = new, frozenset(c2)

    def walk1(self, b, prev, env, facts, conds, clob, seen, first, trail, after):
        if self.over:
            return
        f = self.f
        env, conds, clob = dict(env), list(conds), list(clob)
        seen = seen | {b}
        blk = f.blocks[b]
        if not first:
            new = {}
            for i in blk.ins:
                if i.op == 'phi':
                    for v, pb in i.x:
                        if pb == prev:
                            new[i.res] = self.val(env, v)
            if after:
                self.outer = env
                cl, hp = self.inner(b, new)
                clob += cl
                for r in new:
                    new[r] = (('after', r), hp[r])
            env.update(new)
        for i in blk.ins:
            if i.op == 'phi':
                continue
            self.step(i, env, conds, clob)
        t = blk.ins[-1]
        if t.line:
            trail = trail + (t.line,)
        outs = []
        if t.op == 'br':
            if t.args:
                c = self.cond(env, t.args[0])
                for k, tgt in ((True, t.x[0]), (False, t.x[1])):
                    outs.append((tgt, [(c, k)]))
            else:
                outs.append((t.x[0], []))
        elif t.op == 'switch':
            v = self.val(env, t.args[0])
            for k, tgt in t.x[1]:
                outs.append((tgt, [((('eq', v[0], ('i', k)), v[1]), True)]))
            outs.append((t.x[0], [((('eq', v[0], ('i', k)), v[1]), False) for k, _ in t.x[1]]))
        leaves = any(tgt not in self.body for tgt, _ in outs)
        for tgt, cs in outs:
            if tgt not in self.body or (tgt in seen and tgt != self.h):
                continue
            fc = facts
            ok = True
            nc = list(conds)
            for (c, d), k in cs:
                if c[0] == 'not':
                    c, k = c[1], not k
                if c[0] == 'i':
                    if bool(c[1]) != k:
                        ok = False
                        break
                    continue
                if fc.get(c, k) != k or not consistent(fc, c, k):
                    ok = False
                    break
                if c not in fc:
                    fc = dict(fc)
                    fc[c] = k
                    nc.append((c, k, d | EXIT if leaves else d))
            if not ok:
                continue
            if tgt == self.h:
                self.paths += 1
                if self.paths > self.cap:
                    self.over = True
                    return
                self.close(b, env, nc, clob, trail)
            else:
                self.walk(tgt, b, env, fc, nc, clob, seen, False, trail)

    def cond(self, env, o):
        t, d = self.val(env, o)
        if t[0] in ('eq', 'ult', 'slt', 'not', 'i'):
            return (t, d)
        return (('not', ('eq', t, ('i', 0))), d)

    def step(self, i, env, conds, clob):
        op = i.op
        if op in ('store',):
            c = cls(self.f, i.args[1])
            clob.append(c + (i.ty,))
            if c[0] == 'a':
                env.pop(('mem', c[1]), None)
                if i.args[1] == ('l', c[1]):
                    env[('mem', c[1])] = self.val(env, i.args[0])
            return
        if op == 'call':
            n = i.callee
            if n and n.startswith('llvm.dbg'):
                return
            vs = [self.val(env, a) for a in i.args if a[0] != 'md']
            d = frozenset().union(*[v[1] for v in vs]) if vs else frozenset()
            # what pointers to locals point to can be read and written by the callee
            loc_ = [c for c in (cls(self.f, a) for a in i.args if a[0] == 'l') if c[0] == 'a']
            if n in self.eff:
                w, r, inp = self.eff[n]
                clob.extend(w)
                for c in loc_:
                    clob.append(('A', c[1]))
                    env.pop(('mem', c[1]), None)
                d |= frozenset(('ld',) + x for x in r)
                d |= frozenset(('ldA', c[1]) for c in loc_)
                if inp:
                    d |= frozenset([('input', tuple(sorted(inp))[0])])
            elif n is None:
                ts = targets(self.prog, i)
                for t in ts:
                    clob.extend(self.eff[t][0])
                    d |= frozenset(('ld',) + x for x in self.eff[t][1])
                    if self.eff[t][2]:
                        d |= frozenset([('input', sorted(self.eff[t][2])[0])])
                for c in loc_:
                    clob.append(('A', c[1]))
                    d |= frozenset([('ldA', c[1])])
                if not ts:
                    d |= frozenset([('any',)])
                    clob.append(('any',))
            elif n.startswith('llvm.mem') or n in WRITES8:
                c = cls(self.f, i.args[0])
                if c[0] != 'a':
                    clob.append(c + ('i8',))
                for c in loc_:
                    clob.append(('A', c[1]))
            elif n in ('sscanf', '__isoc99_sscanf'):
                # what it stores is determined by the text it reads
                d |= frozenset([('ld',) + cls(self.f, i.args[0]) + ('i8',)])
                for k, a in enumerate(i.args[2:]):
                    c = cls(self.f, a)
                    if c[0] == 'a':
                        env[('mem', c[1])] = (('scan', k, vs[0][0], vs[1][0], len(clob)), d)
            elif n in PURE or n.startswith('llvm.'):
                if n.startswith('str') or n in ('memcmp',):
                    for a in i.args:
                        if a[0] == 'l':
                            c = cls(self.f, a)
                            if c[0] not in 'ag':
                                d |= frozenset([('ld',) + c + ('i8',)])
                for c in loc_:
                    d |= frozenset([('ldA', c[1])])
                    clob.append(('A', c[1]))
            else:
                clob.append(('IN', n))
                for c in loc_:
                    clob.append(('A', c[1], 'input'))
                    env.pop(('mem', c[1]), None)
                d |= frozenset([('input', n)])
            if i.res:
                if n in PURE and not loc_ and n not in ('malloc', 'calloc', 'strdup', 'strndup'):
                    t = ('call', n) + tuple(v[0] for v in vs) + (len(clob),)
                else:
                    t = ('call', i.uid if hasattr(i, 'uid') else id(i))
                env[i.res] = (t, d)
            return
        if not i.res:
            return
        vs = [self.val(env, a) for a in i.args]
        d = frozenset().union(*[v[1] for v in vs]) if vs else frozenset()
        if op == 'load' and i.args[0][0] == 'l' and ('mem', i.args[0][1]) in env:
            env[i.res] = env[('mem', i.args[0][1])]
        elif op == 'load':
            c = cls(self.f, i.args[0])
            d |= frozenset([('ld',) + c + (i.ty,)])
            if c[0] == 'a':
                d |= frozenset([('ldA', c[1])])
            env[i.res] = (('ld', vs[0][0], len(clob)), d)
        elif op == 'icmp':
            env[i.res] = (icmp(i.x, vs[0][0], vs[1][0]), d)
        elif op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            env[i.res] = (vs[0][0], d)
        elif op == 'xor' and i.ty == 'i1' and i.args[1][0] == 'i':
            t = vs[0][0]
            env[i.res] = (t[1] if t[0] == 'not' else ('not', t), d)
        elif op in ('add', 'sub') and all(v[0][0] == 'i' for v in vs):
            a, b = vs[0][0][1], vs[1][0][1]
            env[i.res] = (('i', a + b if op == 'add' else a - b), d)
        else:
            env[i.res] = ((op, i.x if isinstance(i.x, str) else '') + tuple(v[0] for v in vs), d)

    def direct_store(self):
        """the loop itself (not only what it calls) writes to memory"""
        return any(i.op == 'store' for b in self.body for i in self.f.blocks[b].ins)

    def close(self, last, env, conds, clob, trail):
        """the path is back at the header"""
        f = self.f
        nxt = {}
        for i in f.blocks[self.h].ins:
            if i.op == 'phi':
                for v, pb in i.x:
                    if pb == last:
                        nxt[i.res] = self.val(env, v)
        self.ways.append((nxt, conds, trail))
        facts = {c: k for c, k, _ in conds}
        work = set().union(*[d for _, _, d in conds]) if conds else set()
        seen, sub = set(), {}
        got = []
        while work:
            d = work.pop()
            if d in seen:
                continue
            seen.add(d)
            if d[0] == 'any':
                got.append('opaque')
            elif d[0] == 'exit':
                continue
            elif d[0] == 'input':
                got.append('input (%s)' % d[1])
            elif d[0] == 'phi':
                n = nxt.get(d[1])
                if n is None or n[0] == ('h', d[1]):
                    continue
                if n[0][:2] in (('call', 'strchr'), ('call', 'strstr'), ('call', 'strpbrk')) and n[0][2] == ('h', d[1]):
                    continue        # searches on from where it already is
                if ('phi', d[1]) in n[1]:
                    got.append(self.kind(d[1], n[0]))
                else:
                    # takes a value that has nothing to do with the old one: it settles as soon as what it is computed from does
                    sub[('h', d[1])] = n[0]
                    work |= n[1]
            elif d[0] == 'ld':
                if any(c[0] in ('any', 'IN') or c[0] != 'A' and alias(c, d[1:]) for c in clob):
                    got.append('state')
            elif d[0] == 'ldA':
                if any(c[0] in ('any', 'IN') or c[0] in ('A', 'a') and c[1] == d[1] for c in clob):
                    got.append('state')
        if got and (all(g in ('counter or text position', 'arithmetic') for g in got)
                    or all(g in ('counter or text position', 'arithmetic', 'state') for g in got) and not self.direct):
            w = self.standstill(nxt, conds) or self.away(nxt, conds)
            if w:
                self.stuck.append((trail, w))
                return
        if got:
            self.kinds.add(min(got, key=lambda k: PRIO.index(k.split(' (')[0]) if k.split(' (')[0] in PRIO else 9))
            return
        if sub:
            for c, k, _ in conds:
                t = resub(c, sub)
                if t != c:
                    if t[0] == 'not':
                        t, k = t[1], not k
                    if facts.get(t) == k or t[0] == 'i' and bool(t[1]) == k:
                        continue
                    self.kinds.add('flag')
                    return
        self.stuck.append((trail, 'without changing anything its decisions depend on'))

    def standstill(self, nxt, conds):
        """small numbers for which the way is taken and leaves every number as it was"""
        names = sorted({x for c, _, _ in conds for x in heads(c)})
        work, seen = list(names), set(names)
        while work:
            x = work.pop()
            if x in nxt:
                for y in heads(nxt[x][0]):
                    if y not in seen:
                        seen.add(y)
                        names.append(y)
                        work.append(y)
        if not names or len(names) > 3 or any(x not in nxt for x in names):
            return None
        from itertools import product
        rng = []
        for x in names:
            i = self.f.defs[x]
            start = [v[1] for v, pb in i.x if pb not in self.body and v[0] == 'i']
            lo = max(min(start), 0) if start else 0
            rng.append(range(lo, lo + 7))
        for vs in product(*rng):
            e = dict(zip(names, vs))
            if any(evalt(nxt[x][0], e) != e[x] for x in names):
                continue
            rs = [(evalt(c, e), k) for c, k, _ in conds]
            if all(r is None or bool(r) == k for r, k in rs) and any(r is not None for r, _ in rs):
                return 'with %s, leaving them so' % ', '.join('%s = %d' % (x.split('.')[0], v) for x, v in e.items())
        return None

    def away(self, nxt, conds):
        """a counter that moves away from the bound it is compared with"""
        found = None
        for c, k, d in conds:
            if ('exit',) not in d or all(nxt.get(h_, [('h', h_)])[0] == ('h', h_) for h_ in heads(c)):
                continue
            if c[0] not in ('slt', 'ult'):
                return None
            hit = None
            for me, other, want in ((c[1], c[2], 1 if k else -1), (c[2], c[1], -1 if k else 1)):
                if me[0] != 'h' or any(h_ in nxt and nxt[h_][0] != ('h', h_) for h_ in heads(other)):
                    continue
                n = nxt.get(me[1])
                if n is None or n[0][0] not in ('add', 'sub') or n[0][2:3] != (me,) or n[0][3][0] != 'i':
                    continue
                st = n[0][3][1] * (1 if n[0][0] == 'add' else -1)
                if st * want < 0:
                    hit = '%s moving away from its bound' % me[1].split('.')[0]
            if not hit:
                return None
            found = hit
        return found

    def kind(self, phi, t):
        if t[0] == 'ld':
            return 'list or tree link'
        if t[0] in ('add', 'sub', 'getelementptr'):
            return 'counter or text position'
        if t[0] == 'call':
            return 'result of a call'
        return 'arithmetic'


def hits(t, k):
    """the decision contradicts what is known"""
    if t[0] == 'not':
        t, k = t[1], not k
    return t[0] == 'i' and bool(t[1]) != k


def heads(t):
    if t[0] == 'h':
        return {t[1]}
    out = set()
    for x in t:
        if isinstance(x, tuple) and x:
            out |= heads(x)
    return out


def evalt(t, e):
    if t[0] == 'h':
        return e.get(t[1])
    if t[0] == 'i':
        return t[1]
    if t[0] == 'not':
        a = evalt(t[1], e)
        return None if a is None else int(not a)
    if t[0] in ('eq', 'slt', 'ult'):
        a, b = evalt(t[1], e), evalt(t[2], e)
        if a is None or b is None:
            return None
        if t[0] == 'ult':
            a, b = a % 2 ** 64, b % 2 ** 64
        return int(a == b if t[0] == 'eq' else a < b)
    if len(t) == 4 and isinstance(t[1], str):
        a, b = evalt(t[2], e), evalt(t[3], e)
        if a is None or b is None:
            return None
        o = t[0]
        if o == 'add':
            return a + b
        if o == 'sub':
            return a - b
        if o == 'mul':
            return a * b
        if o in ('sdiv', 'udiv') and b:
            q = abs(a) // abs(b)
            return q if (a < 0) == (b < 0) else -q
        if o == 'and':
            return a & b
        if o == 'or':
            return a | b
        if o in ('lshr', 'ashr') and b >= 0 and a >= 0:
            return a >> b
        if o == 'shl' and b >= 0:
            return a << b
    return None


def resub(t, sub):
    if t in sub:
        return sub[t]
    if isinstance(t, tuple) and t and t[0] in ('eq', 'ult', 'slt'):
        return icmp(t[0], resub(t[1], sub), resub(t[2], sub))
    if isinstance(t, tuple) and t and t[0] == 'not':
        x = resub(t[1], sub)
        return ('i', 1 - x[1]) if x[0] == 'i' else x[1] if x[0] == 'not' else ('not', x)
    if isinstance(t, tuple):
        return tuple(resub(x, sub) if isinstance(x, tuple) else x for x in t)
    return t


def icmp(p, a, b):
    neg = False
    if p in NEG:
        p, neg = NEG[p], True
    if p in SWAP:
        p, a, b = SWAP[p], b, a
    t = None
    if a[0] in ('not', 'eq', 'ult', 'slt') and b == ('i', 0) and p == 'eq':
        t = a[1] if a[0] == 'not' else ('not', a)
    elif a[0] == 'i' and b[0] == 'i':
        x, y = a[1], b[1]
        if p == 'ult':
            x, y = x % 2 ** 64, y % 2 ** 64
        t = ('i', int(x == y if p == 'eq' else x < y))
    elif a == b:
        t = ('i', int(p == 'eq'))
    elif p == 'ult' and b == ('i', 0):
        t = ('i', 0)
    else:
        if p == 'eq' and repr(a) > repr(b) and a[0] != 'i' or p == 'eq' and a[0] == 'i':
            a, b = b, a
        t = (p, a, b)
    if neg:
        if t[0] == 'i':
            return ('i', 1 - t[1])
        return t[1] if t[0] == 'not' else ('not', t)
    return t


def consistent(facts, c, k):
    if c[0] == 'eq' and c[2][0] == 'i':
        for (x, v) in facts.items():
            if x[0] == 'eq' and x[1] == c[1] and x[2][0] == 'i' and v and k and x[2] != c[2]:
                return False
    return True


def check_loops(prog):
    R = Result()
    R.rule('R1', 'every way once around a loop changes something the decisions on that way depend on (a list position, a counter, a text position, the input, a recorded name)')
    for f in sorted(prog.funcs.values(), key=lambda x: (x.file, x.line)):
        if f.file in GENERATED:
            continue
        cfg = CFG(f)
        for h in sorted(cfg.headers, key=lambda x: cfg.rpo_index.get(x, 0)):
            L = Loop(prog, f, cfg, h)
            L.run()
            R.n('loops')
            R.n('ways around', L.paths)
            line = min([i.line for b in L.body for i in f.blocks[b].ins if i.line and i.file == f.file] or [f.line])
            if L.over:
                R.u('R1', '%s: loop at line %s has too many ways around' % (f.name, line))
            for k in L.kinds:
                R.n('loops that advance by: ' + k.split(' (')[0])
            R.functions.add(f.name)
            for t, how in L.stuck:
                R.v('R1', '%s:%s' % (f.file, line), 'in %s the loop at line %s can go round along lines %s %s: it never ends' % (f.name, line, ' '.join(map(str, dedup(t))), how), key='%s loop goes round unchanged' % f.name)
    R.atleast('loops', 1)
    return R


def dedup(t):
    out = []
    for x in t:
        if not out or out[-1] != x:
            out.append(x)
    return out


# ------------------------------------------------------------------ recursion
def sccs(prog):
    names = [f.name for f in prog.funcs.values() if f.file not in GENERATED]
    succ = {n: sorted({i.callee for i in prog.funcs[n].instrs() if i.op == 'call' and i.callee in prog.funcs and prog.funcs[i.callee].file not in GENERATED}) for n in names}
    idx, low, st, on, out = {}, {}, [], set(), []

    def go(v):
        work = [(v, iter(succ[v]))]
        idx[v] = low[v] = len(idx)
        st.append(v)
        on.add(v)
        while work:
            x, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ[w])))
                    break
                if w in on:
                    low[x] = min(low[x], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == idx[x]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == x:
                            break
                    if len(c) > 1 or x in succ[x]:
                        out.append(c)
    for n in names:
        if n not in idx:
            go(n)
    return out


def derive(prog, f, o, seen=()):
    """how a value comes from the parameters of f: set of (parameter, links followed) or None"""
    if o[0] in ('i', 'null', 'g', 'ce', 'cstr', 'undef'):
        return set()
    if o[0] != 'l':
        return None
    if o[1] in f.params:
        return {(o[1], ())}
    if o[1] in seen:
        return set()
    seen = seen + (o[1],)
    i = f.defs.get(o[1])
    if i is None:
        return None
    if i.op in ('phi', 'select'):
        out = set()
        for a in (i.args if i.op == 'phi' else i.args[1:]):
            d = derive(prog, f, a, seen)
            if d is None:
                return None
            out |= d
        return out
    if i.op in ('bitcast', 'sext', 'zext', 'trunc', 'freeze'):
        return derive(prog, f, i.args[0], seen)
    if i.op == 'load':
        g = f.defs.get(i.args[0][1]) if i.args[0][0] == 'l' else None
        if g is not None and g.op == 'getelementptr' and g.x.startswith('%struct') and len(g.args) == 3 and g.args[2][0] == 'i':
            d = derive(prog, f, g.args[0], seen)
            name = prog.field(g.x, g.args[2][1])
        elif g is not None and g.op == 'getelementptr':
            return None
        elif g is not None and g.op == 'alloca':
            return None
        else:
            d = derive(prog, f, i.args[0], seen)
            name = '*'
        if d is None:
            return None
        return {(p, l + (name,)) for p, l in d}
    if i.op == 'getelementptr':
        return derive(prog, f, i.args[0], seen)
    return None


def covered(prog):
    """functions whose recursion is decided by following the expansion of names (check_names)"""
    out = set()
    for root in ('compute_perm_mask', 'add_template_declarations'):
        work = [root]
        while work:
            n = work.pop()
            if n in out or n not in prog.funcs:
                continue
            out.add(n)
            work += [i.callee for i in prog.funcs[n].instrs() if i.op == 'call' and i.callee in prog.funcs]
    return out


def inloop(f, call):
    """the call is made in a loop over the list: the depth does not grow with it"""
    return any(call.bb.name in body for body in CFG(f).loops.values())


def guarded_once(prog, f, cfg, call):
    """the call is made only for the node that opens a block, of which there is one per block"""
    sb = prog.enum('NODE_START_BLOCK')
    for b in f.order:
        t = f.blocks[b].ins[-1]
        tgts = []
        if t.op == 'switch':
            tgts = [x for k, x in t.x[1] if k == sb and [y for _, y in t.x[1]].count(x) == 1 and x != t.x[0]]
            src = t.args[0]
        elif t.op == 'br' and t.args and t.args[0][0] == 'l':
            c = f.defs.get(t.args[0][1])
            if c is not None and c.op == 'icmp' and c.args[1] == ('i', sb):
                tgts = [t.x[0]] if c.x == 'eq' else [t.x[1]] if c.x == 'ne' else []
                src = c.args[0]
        for x in tgts:
            l = f.defs.get(src[1]) if src[0] == 'l' else None
            if l is None or l.op != 'load':
                continue
            g = f.defs.get(l.args[0][1]) if l.args[0][0] == 'l' else None
            if g is None or g.op != 'getelementptr' or not g.x.startswith('%struct') or prog.field(g.x, g.args[2][1]) != 'flavor':
                continue
            if set(f.blocks[x].pred) == {b} and cfg.dominates(x, call.bb.name):
                return True
    return False


def check_recursion(prog):
    R = Result()
    R.rule('R2', 'a function that calls itself, directly or through others, hands on a proper part of what it was given')
    R.rule('R3', 'the depth of a recursion follows the nesting of the input, not its length: a function does not call itself for the next element of a list')
    cov = covered(prog)
    for comp in sccs(prog):
        if comp & cov:
            R.functions |= comp
            R.n('recursions through names')
            continue
        along = {}                      # edges that may stay within one list: callee, really moves on, where
        weak = {}                       # edges that may hand on the whole of what was given
        for n in sorted(comp):
            f = prog.funcs[n]
            cfg = CFG(f)
            R.functions.add(n)
            for i in f.instrs():
                if i.op != 'call' or i.callee not in comp or i.bb.name not in cfg.rpo_index:
                    continue
                R.n('recursive calls')
                g = prog.funcs[i.callee]
                best, why, unknown = None, [], True
                for j, a in enumerate(i.args[:len(g.params)]):
                    d = derive(prog, f, a)
                    if not d:
                        continue
                    if n == i.callee and any(p != f.params[j] for p, _ in d):
                        continue
                    unknown = False
                    if all(l for _, l in d):
                        best = d
                    else:
                        why.append(f.params[j])
                if not guarded_once(prog, f, cfg, i):
                    for j, a in enumerate(i.args[:len(g.params)]):
                        for p, l in derive(prog, f, a) or ():
                            if set(l) <= {'next', 'prev'} and (n != i.callee or p == f.params[j]):
                                along.setdefault(n, []).append((i.callee, bool(l), i))
                if best is None:
                    weak.setdefault(n, []).append((i, why, unknown))
                    continue
        for n in sorted(along):
            for tgt, moves, i in along[n]:
                seen, work = set(), [tgt]
                while work:
                    x = work.pop()
                    if x not in seen:
                        seen.add(x)
                        work += [t for t, _, _ in along.get(x, ())]
                if moves and n in seen and i.bb.name not in CFG(prog.funcs[n]).loops and not inloop(prog.funcs[n], i):
                    R.v('R3', loc(prog.funcs[n], i), '%s calls %s for the next element of a list: a long list exhausts the stack' % (n, tgt if tgt != n else 'itself'), key='%s recursion along a list' % n)
        # without the calls that hand on a proper part no cycle may be left
        for n in sorted(weak):
            for i, why, unknown in weak[n]:
                seen, work = set(), [i.callee]
                while work:
                    x = work.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    work += [k.callee for k, _, _ in weak.get(x, ())]
                if n not in seen:
                    continue
                f = prog.funcs[n]
                if unknown:
                    R.u('R2', '%s calls %s: what it hands on is not followed' % (n, i.callee))
                else:
                    R.v('R2', loc(f, i), '%s calls %s for what it was itself called for (%s): the recursion never ends' % (n, i.callee if i.callee != n else 'itself', ', '.join(why)), key='%s no descent' % n)
    R.atleast('recursive calls', 0)
    return R


# ------------------------------------------------------------------ expansion of names
class NameI(ShapeI):
    """macros (templates) are the ones of the scenario; the expansion is followed name by name"""
    limit = 600

    def __init__(self, prog, scen, macros, **kw):
        self.macros = macros
        kw.setdefault('depth', 200)
        super().__init__(prog, scen, more_opaque=('look_up_in_permmacros_map', 'look_up_call_in_template_map', 'look_up_decl_in_template_map', 'look_up_in_template_map', 'replace_m4_list', 'insert_into_decl_map'), **kw)

    def on_backedge(self, st, f, header, killed):
        pass

    def default_call(self, st, ins, name, args):
        if name in self.prog.funcs and name in self.stack and self.inline(name):
            if len(self.stack) > 150:
                raise Endless()
            return self.call_function(self.prog.funcs[name], args, st)
        return super().default_call(st, ins, name, args)

    def on_call(self, st, ins, name, args):
        if name in ('look_up_in_permmacros_map', 'look_up_call_in_template_map'):
            t = text(args[0])
            if t is None:
                self.scen.odd.append('%s: look-up of %s' % (ins.where(), pretty.pt(args[0])))
                return None
            k = sum(1 for e in st.cl if isinstance(e, tuple) and e[0] == 'expand')
            if k >= self.limit:
                raise Endless()
            st.cl = st.cl + (('expand', t, ins.where()),)
            if name == 'look_up_in_permmacros_map':
                return [(build_list(st, 'M%d' % k, self.macros.get(t, ())), st)]
            head = NULL
            for j, c in reversed(list(enumerate(self.macros.get(t, ())))):
                o, d = ('al', 'scen', 'C%d.%d' % (k, j)), ('al', 'scen', 'K%d.%d' % (k, j))
                st.mem[('fld', d, 'if_call_data.name')] = ('s', c)
                st.mem[('fld', d, 'if_call_data.args')] = NULL
                st.mem[('fld', o, 'if_call_list.call')] = d
                st.mem[('fld', o, 'if_call_list.next')] = head
                head = o
            return [(head, st)]
        if name in ('calloc', 'malloc'):
            k = sum(1 for e in st.cl if isinstance(e, tuple) and e[0] == 'fresh')
            st.cl = st.cl + (('fresh', k),)
            o = ('al', 'scen', 'F%d' % k)
            if name == 'calloc':
                st.mem[('zero', o)] = ('i', 1)
            return [(o, st)]
        if name == 'free':
            return [(NULL, st)]
        if name == 'strdup' and text(args[0]) is not None:
            return [(('s', text(args[0])), st)]
        if name == 'look_up_decl_in_template_map':
            return [(NULL, st)]
        if name == 'replace_m4_list':
            return [(NULL, st)]
        if name == 'insert_into_decl_map':
            return [(('i', 0), st)]
        return super().on_call(st, ins, name, args)


class World:
    def __init__(self):
        self.odd, self.bad, self.asked = [], [], set()
        self.names, self.req, self.kinds, self.mods = {}, {}, {}, {}
        self.st = State()


CYCLES = (
    ('a macro that names itself', {'a_perms': ('a_perms',)}, ('a_perms',)),
    ('two macros that name each other', {'a_perms': ('b_perms',), 'b_perms': ('a_perms',)}, ('a_perms',)),
    ('a macro that leads into two macros that name each other', {'c_perms': ('a_perms',), 'a_perms': ('b_perms',), 'b_perms': ('a_perms',)}, ('c_perms',)),
    ('three macros in a ring', {'a_perms': ('b_perms',), 'b_perms': ('c_perms',), 'c_perms': ('a_perms',)}, ('b_perms',)),
    ('a macro that names itself behind another permission', {'a_perms': ('open', 'a_perms', 'read')}, ('write', 'a_perms')),
    ('two macros that name each other among others', {'a_perms': ('open', 'b_perms'), 'b_perms': ('d_perms', 'a_perms'), 'd_perms': ('read',)}, ('d_perms', 'b_perms')),
    ('macros that do not name each other', {'a_perms': ('b_perms', 'd_perms'), 'b_perms': ('d_perms',), 'd_perms': ('read',)}, ('a_perms', 'd_perms')),
)


def follow(prog, fname, macros, start):
    """(final states, expansions) or None when the expansion does not come to an end"""
    f = prog.fn(fname)
    w = World()
    st = w.st
    it = NameI(prog, w, macros)
    if fname == 'compute_perm_mask':
        A, B = ('al', 'scen', 'raw'), ('al', 'scen', 'ext')
        st.mem[A] = st.mem[B] = ('i', 0)
        args = [build_list(st, 'P', start), A, B]
    else:
        args = [('s', start[0]), NULL, NULL, ('s', 'alpha')]
    old = sys.getrecursionlimit()
    try:
        sys.setrecursionlimit(max(old, 12000))
        outs = it.call_function(f, tuple(args), st)
    except Endless:
        return None, w, it
    finally:
        sys.setrecursionlimit(old)
    return outs, w, it


def check_names(prog):
    R = Result()
    R.rule('R4', 'permission macros and templates that name themselves, directly or through others, are expanded finitely')
    for fn, what in (('compute_perm_mask', 'macro'), ('add_template_declarations', 'template')):
        f = prog.fn(fn)
        for title, macros, start in CYCLES:
            title = title.replace('macro', what)
            outs, w, it = follow(prog, fn, macros, start)
            R.n('expansions followed')
            R.functions |= it.visited_fn
            if outs is None:
                R.v('R4', loc(f), '%s: the expansion never ends' % title, key='%s|%s' % (fn, title))
            elif w.odd:
                R.u('R4', '%s: %s' % (title, w.odd[0]))
            elif len(outs) != 1 or it.truncated:
                R.u('R4', '%s: %d outcomes' % (title, len(outs)))
            else:
                R.sample('%s: %d names expanded' % (title, sum(1 for e in outs[0][1].cl if isinstance(e, tuple) and e[0] == 'expand')))
    R.atleast('expansions followed', 1)
    return R
