"""Path-sensitive abstract interpreter over the IR of one program.

Values are canonical *terms* (nested tuples).  A state is a set of SSA bindings,
an abstract memory, a set of value facts (finite domain: known constant, excluded
constants, interval, known literal string) and a client typestate.  States are kept
disjunctive and merged when they agree on everything but dropped facts.  Loop-carried
pointers that advance along a list become one generic element term, integer inductions
one generic index term, so every loop body is analysed once for an arbitrary iteration.
No constraint solver is involved; a branch is pruned only when the finite facts decide it.
"""
import sys
import time
from .build import AnalysisBroken

sys.setrecursionlimit(20000)

PURE_EXT = {'strcmp', 'strncmp', 'strlen', 'strchr', 'strrchr', 'strstr', 'isspace', 'isdigit', 'isprint',
            'isalpha', 'isalnum', 'atoi', 'strcasecmp', 'strnlen', 'strspn', 'strcspn', 'memcmp', '__vf_hash_find', '__vf_hash_count',
            '__vf_hash_next'}
NOESCAPE_EXT = PURE_EXT | {'printf', 'fprintf', 'snprintf', 'puts', 'fclose', 'free', 'vprintf', 'isatty', 'strerror', 'exit', '__errno_location', 'malloc', 'calloc', 'strdup', 'strndup'}
ALLOC_EXT = {'malloc', 'calloc', 'strdup', 'strndup', 'realloc', 'fopen', 'fts_open'}
NORETURN = {'exit', 'abort', '_exit', '__assert_fail', 'yy_fatal_error', 'usage_exit', 'quick_exit'}

NULL = ('i', 0)


class TimeBudget(Exception):
    pass


DEADLINE = [None]


def walk(t):
    """all sub-terms of a term"""
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x:
            if isinstance(x[0], tuple):
                st.extend(y for y in x if isinstance(y, tuple))
                continue
            yield x
            for y in x[1:]:
                if isinstance(y, tuple):
                    st.append(y)


_contains_cache = {}


def contains(t, pred_terms):
    """does term t contain any of the given sub-terms"""
    if not isinstance(t, tuple):
        return False
    if t in pred_terms:
        return True
    for y in t:
        if isinstance(y, tuple) and contains(y, pred_terms):
            return True
    return False


class VS:
    """finite value-set of one term: known value, or excluded values + interval"""
    __slots__ = ('eq', 'ne', 'lo', 'hi')

    def __init__(self, eq=None, ne=frozenset(), lo=None, hi=None):
        self.eq, self.ne, self.lo, self.hi = eq, ne, lo, hi

    def key(self):
        return (self.eq, self.ne, self.lo, self.hi)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '=%s' % (self.eq,) if self.eq is not None else '!%s[%s,%s]' % (sorted(map(str, self.ne)), self.lo, self.hi)


def join_vs(a, b):
    if a == b:
        return a
    if a.eq is not None and b.eq is not None:
        if a.eq[0] == 'i' and b.eq[0] == 'i':
            return VS(lo=min(a.eq[1], b.eq[1]), hi=max(a.eq[1], b.eq[1]))
        return None
    if a.eq is not None:
        a, b = b, a
    if b.eq is not None:
        if b.eq in a.ne:
            ne = frozenset(x for x in a.ne if x != b.eq)
        else:
            ne = a.ne
        lo, hi = a.lo, a.hi
        if b.eq[0] == 'i':
            if lo is not None:
                lo = min(lo, b.eq[1])
            if hi is not None:
                hi = max(hi, b.eq[1])
        else:
            lo = hi = None
        if not ne and lo is None and hi is None:
            return None
        return VS(None, ne, lo, hi)
    ne = a.ne & b.ne
    lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
    hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    if not ne and lo is None and hi is None:
        return None
    return VS(None, ne, lo, hi)


class State:
    __slots__ = ('mem', 'facts', 'cl', 'epoch', 'cnt')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.cl = ()
        self.epoch = 0
        self.cnt = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.cl = self.cl
        s.epoch = self.epoch
        s.cnt = dict(self.cnt)
        return s

    # ---- facts
    def vs(self, t):
        if t[0] in ('i', 's', 'fn'):
            return VS(t)
        return self.facts.get(t)

    def assume_eq(self, t, c):
        """t == c (constant).  Returns False when contradictory."""
        v = self.vs(t)
        if v is not None:
            if v.eq is not None:
                return v.eq == c
            if c in v.ne:
                return False
            if c[0] == 'i':
                if v.lo is not None and c[1] < v.lo:
                    return False
                if v.hi is not None and c[1] > v.hi:
                    return False
        if c == NULL and nonnull_term(t):
            return False
        self.facts[t] = VS(c)
        return True

    def assume_ne(self, t, c):
        v = self.vs(t)
        if v is not None:
            if v.eq is not None:
                return v.eq != c
            lo, hi = v.lo, v.hi
            if c[0] == 'i':
                if lo == c[1]:
                    lo += 1
                if hi == c[1]:
                    hi -= 1
                if lo is not None and hi is not None:
                    if lo > hi:
                        return False
                    if lo == hi:
                        if ('i', lo) in v.ne:
                            return False
                        self.facts[t] = VS(('i', lo))
                        return True
            self.facts[t] = VS(None, v.ne | {c}, lo, hi)
            return True
        if not (c == NULL and nonnull_term(t)):
            self.facts[t] = VS(None, frozenset([c]))
        return True

    def assume_bound(self, t, lo=None, hi=None):
        v = self.vs(t)
        if v is not None and v.eq is not None:
            if v.eq[0] != 'i':
                return True
            return (lo is None or v.eq[1] >= lo) and (hi is None or v.eq[1] <= hi)
        ne = frozenset()
        if v is not None:
            ne = v.ne
            if v.lo is not None:
                lo = v.lo if lo is None else max(lo, v.lo)
            if v.hi is not None:
                hi = v.hi if hi is None else min(hi, v.hi)
        while lo is not None and ('i', lo) in ne:
            lo += 1
        while hi is not None and ('i', hi) in ne:
            hi -= 1
        if lo is not None and hi is not None:
            if lo > hi:
                return False
            if lo == hi:
                self.facts[t] = VS(('i', lo))
                return True
        self.facts[t] = VS(None, ne, lo, hi)
        return True

    def val(self, t):
        """replace a term by its known constant, if any"""
        v = self.facts.get(t)
        if v is not None and v.eq is not None and v.eq[0] == 'i':
            return v.eq
        return t


def nonnull_term(t):
    if t[0] in ('al', 's', 'g', 'fn'):
        return True
    if t[0] in ('fld',):
        return True          # address of a field: base non-null is a separate obligation
    return False


PRED_SWAP = {'eq': 'eq', 'ne': 'ne', 'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge',
             'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge'}
PRED_NEG = {'eq': 'ne', 'ne': 'eq', 'sgt': 'sle', 'sle': 'sgt', 'slt': 'sge', 'sge': 'slt',
            'ugt': 'ule', 'ule': 'ugt', 'ult': 'uge', 'uge': 'ult'}


def is_const(t):
    return t[0] in ('i', 's', 'fn')


def norm_cmp(pred, a, b):
    """canonical (pred, a, b, polarity)"""
    if is_const(a) and not is_const(b):
        a, b = b, a
        pred = PRED_SWAP[pred]
    pol = True
    if pred in ('ne', 'sge', 'uge', 'sle', 'ule') and not (b[0] == 'i'):
        if pred == 'ne':
            pred, pol = 'eq', False
        elif pred == 'sge':
            pred, pol = 'slt', False
        elif pred == 'uge':
            pred, pol = 'ult', False
        elif pred == 'sle':
            pred, a, b, pol = 'slt', b, a, False
        elif pred == 'ule':
            pred, a, b, pol = 'ult', b, a, False
    elif pred in ('sgt', 'ugt') and b[0] != 'i':
        pred, a, b = {'sgt': 'slt', 'ugt': 'ult'}[pred], b, a
    if pred == 'ne':
        pred, pol = 'eq', not pol
    if pred == 'eq' and not is_const(b) and repr(b) < repr(a):
        a, b = b, a
    if b[0] == 'i':
        # integers: x > c  ->  not (x < c+1)
        if pred in ('sgt', 'ugt'):
            pred, b, pol = {'sgt': 'slt', 'ugt': 'ult'}[pred], ('i', b[1] + 1), not pol
        elif pred in ('sge', 'uge'):
            pred, pol = {'sge': 'slt', 'uge': 'ult'}[pred], not pol
        elif pred in ('sle', 'ule'):
            pred, b = {'sle': 'slt', 'ule': 'ult'}[pred], ('i', b[1] + 1)
        if pred == 'ult' and b[1] == 1:
            pred, b = 'eq', ('i', 0)
        if pred == 'ult' and b[1] == 0:
            return None, None, None, not pol
    return pred, a, b, pol


class Interp:
    """Run with explore(fn, args, state).  Override hooks in a client class."""

    track_first = False
    unroll = 0
    iter_calls = ('__vf_hash_next', 'dfs_next')

    def __init__(self, prog, inline=None, max_states=4000, keep_facts=None, depth=8, merge=True, loop_limit=4):
        self.prog = prog
        self.inline = inline or (lambda n: False)
        self.max_states = max_states
        self.depth = depth
        self.merge = merge
        self.keep_facts = keep_facts
        self.truncated = set()
        self.loop_limit = loop_limit
        self._cfg = {}
        self.stack = []
        self.steps = 0
        self.visited_fn = set()
        self.visited_edges = set()

    # ------------------------------------------------------------- hooks
    def on_call(self, st, ins, name, args):
        """return None for default treatment or list of (ret, state)"""
        return None

    def on_load(self, st, ins, addr, val):
        pass

    def on_store(self, st, ins, addr, val):
        pass

    def on_ret(self, st, fn, ins, val):
        pass

    def on_branch(self, st, ins, pred, a, b, truth):
        """called for each feasible outcome of a conditional branch (st already refined)"""
        pass

    def on_backedge(self, st, fn, header, killed):
        pass

    def on_enter(self, st, fn, header):
        """loop header entered from outside the loop"""
        pass

    def init_load(self, st, addr):
        """value of memory never written on this path"""
        return None

    # ------------------------------------------------------------- cfg
    def cfg(self, f):
        c = self._cfg.get(f.name)
        if c is None:
            c = CFG(f)
            self._cfg[f.name] = c
        return c

    # ------------------------------------------------------------- values
    def operand(self, env, o):
        k = o[0]
        if k == 'l':
            v = env.get(o[1])
            return v if v is not None else ('hv', 'unbound', o[1])
        if k == 'i':
            return o
        if k == 'null' or k == 'zero':
            return NULL
        if k == 'undef':
            return ('undef',)
        if k == 'g':
            return self.gterm(o[1])
        if k == 'ce':
            return self.constexpr(o)
        return ('hv', str(o[0]))

    def gterm(self, name):
        if name in self.prog.funcs:
            return ('fn', name)
        g = self.prog.globals.get(name)
        if g is not None and g.const:
            s = self.prog.cstring(name)
            if s is not None:
                return ('s', s)
        if g is None:
            return ('fn', name)
        return ('g', name)

    def constexpr(self, o):
        op, sty, ops = o[1], o[2], o[3]
        if op == 'getelementptr':
            vals = [self.operand({}, x) for x in ops]
            return self.gep(sty, vals)
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext'):
            return self.operand({}, ops[0])
        return ('op', op) + tuple(self.operand({}, x) for x in ops)

    def gep(self, sty, vals):
        base = vals[0]
        t = sty
        a = base
        i0 = vals[1]
        if i0 != ('i', 0):
            a = mk_idx(a, i0, t)
        for v in vals[2:]:
            if t.startswith('%struct'):
                fi = v[1]
                fn = t[len('%struct.'):] + '.' + self.prog.field(t, fi)
                t2 = self.prog.structs[t].irtypes[fi] if t in self.prog.structs else '?'
                a = ('fld', a, fn)
                t = t2
            elif t.startswith('%union') or t.startswith('{'):
                t = '?'
            elif t.startswith('['):
                et = t[t.index(' x ') + 3:-1]
                a = mk_idx(a, v, et)
                t = et
            else:
                a = mk_idx(a, v, t)
        return a

    # ------------------------------------------------------------- memory
    def load(self, st, addr):
        v = st.mem.get(addr)
        if v is not None:
            return v
        if addr[0] == 'g':
            g = self.prog.globals.get(addr[1])
            if g is not None and g.const and g.init is not None and g.init[0] in ('i', 'null', 'g', 'ce'):
                return self.operand({}, g.init)
        r = self.const_load(addr)
        if r is not None:
            return r
        v = self.init_load(st, addr)
        if v is not None:
            return v
        root = addr
        while root[0] in ('fld', 'idx'):
            root = root[1]
        if root[0] == 'al':
            # zeroed by memset / initialiser?
            z = st.mem.get(('zero', root))
            if z is not None:
                return NULL
            return ('ld', addr, st.mem.get(('ver', root), 0))
        z = st.mem.get(('zero', root))
        if z is not None:
            return NULL
        ep = st.mem.get(('epoch',), 0) if not self.immutable_addr(addr) else 0
        return ('ld', addr, ep) if ep else ('ld', addr)

    def immutable_addr(self, addr):
        return False

    def const_load(self, addr):
        """load from a constant global table with constant indices"""
        path = []
        a = addr
        while a[0] in ('fld', 'idx'):
            path.append(a)
            a = a[1]
        if a[0] == 's':
            if len(path) == 1 and path[0][0] == 'idx' and path[0][2][0] == 'i':
                n = path[0][2][1]
                if 0 <= n < len(a[1]):
                    c = ord(a[1][n])
                    return ('i', c - 256 if c > 127 else c)
                if n == len(a[1]):
                    return ('i', 0)
            if not path:
                return ('i', ord(a[1][0])) if a[1] else ('i', 0)
            return None
        if a[0] != 'g':
            return None
        g = self.prog.globals.get(a[1])
        if g is None or not g.const or g.init is None:
            return None
        v = g.init
        ty = g.ty
        for p in reversed(path):
            if v[0] == 'zero':
                return NULL
            if v[0] != 'agg':
                return None
            if p[0] == 'idx':
                if p[2][0] != 'i':
                    return None
                n = p[2][1]
            else:
                stn, fnm = p[2].rsplit('.', 1)
                stt = self.prog.structs.get('%struct.' + stn)
                names = [x[0] for x in stt.fields] if stt else []
                if fnm in names:
                    n = names.index(fnm)
                elif fnm[:1] == 'f' and fnm[1:].isdigit():
                    n = int(fnm[1:])             # anonymous structure
                else:
                    return None
            if n < 0 or n >= len(v[1]):
                return None
            v = v[1][n]
        # implicit first element
        while v[0] == 'agg' and v[1]:
            v = v[1][0]
        return self.operand({}, v)

    def store(self, st, addr, val):
        fld = addr[2] if addr[0] == 'fld' else None
        root = addr
        while root[0] in ('fld', 'idx'):
            root = root[1]
        fresh = root[0] == 'al'
        if not fresh:
            for k in list(st.mem):
                if k == addr or k[0] not in ('fld', 'idx', 'ld', 'hv', 'call', 'p', 'g', 'phi', 'elem'):
                    continue
                r2 = k
                while r2[0] in ('fld', 'idx'):
                    r2 = r2[1]
                if r2[0] == 'al' or r2 == root and k[0] == 'fld' and addr[0] == 'fld' and k[2] != addr[2]:
                    continue
                if fld is not None and k[0] == 'fld':
                    if k[2] != fld:
                        continue
                    if self.noalias(k, addr):
                        continue
                    del st.mem[k]
                elif fld is None and k[0] != 'fld':
                    if self.noalias(k, addr):
                        continue
                    del st.mem[k]
        elif addr[0] == 'idx' or (addr[0] == 'fld' and False):
            for k in list(st.mem):
                if k[0] == 'idx' and k != addr and k[1] == addr[1] and not (k[2][0] == 'i' and addr[2][0] == 'i'):
                    del st.mem[k]
        st.mem[addr] = val
        # facts about the previous content
        old = ('ld', addr)
        if old in st.facts and not fresh:
            pass

    def noalias(self, a, b):
        ra, rb = a, b
        while ra[0] in ('fld', 'idx'):
            ra = ra[1]
        while rb[0] in ('fld', 'idx'):
            rb = rb[1]
        if ra == rb:
            if a[0] == 'idx' and b[0] == 'idx' and a[1] == b[1] and a[2][0] == 'i' and b[2][0] == 'i':
                return a[2] != b[2]
            return a[0] == 'fld' and b[0] == 'fld' and a[1] == b[1] and a[2] != b[2]
        fa = ra[0] == 'call' and ra[1] in ALLOC_EXT or ra[0] in ('al', 'g', 's')
        fb = rb[0] == 'call' and rb[1] in ALLOC_EXT or rb[0] in ('al', 'g', 's')
        return fa and fb

    def havoc_call(self, st, ins, name, args):
        """default effect of an impure call: everything reachable may change"""
        ep = ('c', ins.uid)
        st.mem[('epoch',)] = ep
        for k in list(st.mem):
            if k[0] in ('epoch', 'ver', 'zero'):
                continue
            root = k
            while root[0] in ('fld', 'idx'):
                root = root[1]
            if root[0] == 'al':
                esc = any(contains(a, {root}) for a in args)
                if not esc:
                    continue
                st.mem[('ver', root)] = ep
                st.mem.pop(('zero', root), None)
            del st.mem[k]
        for a in args:
            root = a
            while isinstance(root, tuple) and root[0] in ('fld', 'idx'):
                root = root[1]
            if isinstance(root, tuple) and root[0] == 'al':
                st.mem[('ver', root)] = ep
                st.mem.pop(('zero', root), None)

    # ------------------------------------------------------------- conditions
    def cmp_parts(self, st, pred, a, b):
        """canonicalise comparison, rewriting strcmp()==0 and boolean wrappers"""
        pol = True
        for _ in range(8):
            p, x, y, q = norm_cmp(pred, a, b)
            if p is None:
                return None, None, None, (q if pol else not q)
            pred, a, b = p, x, y
            if not q:
                pol = not pol
            if pred == 'eq' and b == ('i', 0):
                if a[0] == 'cmp':
                    pol = not pol
                    pred, a, b = a[1], a[2], a[3]
                    continue
                if a[0] == 'not':
                    pred, a, b = 'eq', a[1], ('i', 0)
                    pol = not pol
                    continue
                if a[0] == 'call' and a[1] == 'strcmp':
                    x, y = a[2]
                    if x[0] == 's' and y[0] != 's':
                        x, y = y, x
                    if y[0] == 's':
                        return 'eq', ('strval', x), y, pol
                    if repr(y) < repr(x):
                        x, y = y, x
                    return 'eq', ('strval', x), ('strval', y), pol
                if a[0] == 'op' and a[1] == 'sub':
                    pred, a, b = 'eq', a[2], a[3]
                    continue
            if pred == 'eq' and b == ('i', 1) and a[0] in ('cmp', 'not'):
                pred, a, b = 'eq', a, ('i', 0)
                pol = not pol
                continue
            return pred, a, b, pol
        return pred, a, b, pol

    def decide(self, st, pred, a, b):
        """True/False/None for canonical atom"""
        if pred == 'eq':
            if a == b:
                return True
            if a[0] == 'al' and b[0] == 'al':
                return False                # two different objects
            va, vb = st.vs(a), st.vs(b)
            if b[0] in ('i', 's', 'fn') :
                if a == ('strval', b):
                    return True
                if a[0] == 'strval' and a[1][0] == 's' and b[0] == 's':
                    return a[1][1] == b[1]
                if a[0] in ('s', 'g', 'al', 'fld', 'fn') and b == NULL:
                    return False
                if va is not None:
                    if va.eq is not None:
                        return va.eq == b
                    if b in va.ne:
                        return False
                    if b[0] == 'i':
                        if va.lo is not None and b[1] < va.lo:
                            return False
                        if va.hi is not None and b[1] > va.hi:
                            return False
                return None
            if va is not None and vb is not None:
                if va.eq is not None and vb.eq is not None:
                    return va.eq == vb.eq
                if va.eq is not None and va.eq in vb.ne or vb.eq is not None and vb.eq in va.ne:
                    return False
            f = st.facts.get(('cmp', 'eq', a, b))
            if f is not None and f.eq is not None:
                return f.eq == ('i', 1)
            return None
        va, vb = st.vs(a), st.vs(b)
        if pred in ('slt', 'ult'):
            if va is not None and vb is not None:
                alo = va.eq[1] if va.eq is not None and va.eq[0] == 'i' else va.lo
                ahi = va.eq[1] if va.eq is not None and va.eq[0] == 'i' else va.hi
                blo = vb.eq[1] if vb.eq is not None and vb.eq[0] == 'i' else vb.lo
                bhi = vb.eq[1] if vb.eq is not None and vb.eq[0] == 'i' else vb.hi
                if pred == 'slt' or (alo is not None and alo >= 0 and blo is not None and blo >= 0):
                    if ahi is not None and blo is not None and ahi < blo:
                        return True
                    if alo is not None and bhi is not None and alo >= bhi:
                        return False
            f = st.facts.get(('cmp', pred, a, b))
            if f is not None and f.eq is not None:
                return f.eq == ('i', 1)
            return None
        f = st.facts.get(('cmp', pred, a, b))
        if f is not None and f.eq is not None:
            return f.eq == ('i', 1)
        return None

    def assume(self, st, pred, a, b, truth):
        """refine st; False if contradictory"""
        if pred == 'eq' and is_const(b):
            if truth:
                if not st.assume_eq(a, b):
                    return False
                # x & mask etc. not propagated
                return True
            return st.assume_ne(a, b)
        if pred == 'slt' and b[0] == 'i':
            return st.assume_bound(a, hi=b[1] - 1) if truth else st.assume_bound(a, lo=b[1])
        if pred == 'slt' and a[0] == 'i':
            return st.assume_bound(b, lo=a[1] + 1) if truth else st.assume_bound(b, hi=a[1])
        if pred == 'ult' and b[0] == 'i' and truth:
            return st.assume_bound(a, lo=0, hi=b[1] - 1)
        if pred == 'ult' and b[0] == 'i' and not truth:
            v = st.vs(a)
            if v is not None and v.lo is not None and v.lo >= 0:
                return st.assume_bound(a, lo=b[1])
        st.facts[('cmp', pred, a, b)] = VS(('i', 1 if truth else 0))
        return True

    def branch(self, st, cond):
        """list of (truth, state)"""
        cond = st.val(cond)
        if cond[0] == 'i':
            return [(cond[1] != 0, st)]
        if cond[0] == 'cmp':
            pred, a, b, pol = self.cmp_parts(st, cond[1], cond[2], cond[3])
        else:
            pred, a, b, pol = self.cmp_parts(st, 'ne', cond, ('i', 0))
        if pred is None:
            return [(pol, st)]
        d = self.decide(st, pred, a, b)
        if d is not None:
            return [(d == pol, st)]
        out = []
        for tr in (True, False):
            s2 = st.copy()
            if self.assume(s2, pred, a, b, tr):
                out.append((tr == pol, s2, (pred, a, b, tr)))
        return out

    # ------------------------------------------------------------- run
    def call_function(self, f, args, st):
        """-> list of (retval, state)"""
        self.stack.append(f.name)
        self.visited_fn.add(f.name)
        try:
            return self._run(f, args, st)
        finally:
            self.stack.pop()

    def _run(self, f, args, st0):
        cfg = self.cfg(f)
        env0 = {}
        for i, p in enumerate(f.params):
            env0[p] = args[i] if i < len(args) else ('hv', 'vararg', i)
        rets = []
        retkeys = set()
        pend = {}     # block -> list of (env, state)
        seen = {}     # block -> {key: facts}
        order = cfg.rpo_index
        count = {}
        lastvals = {}
        import heapq
        heap = []
        inheap = set()

        def push(b, env, st):
            live = cfg.live_in[b]
            env = {k: v for k, v in env.items() if k in live}
            ekey = frozenset(env.items())
            mkey = frozenset(st.mem.items())
            fk = st.facts
            if self.keep_facts is not None:
                fk = {k: v for k, v in fk.items() if self.keep_facts(k, v)}
                st.facts = fk
            fkey = frozenset((k, v) for k, v in fk.items())
            key = (ekey, mkey, st.cl)
            lst = seen.setdefault(b, {})
            old = lst.get(key)
            if old is None:
                old = []
                lst[key] = old
            for o in old:
                if o <= fkey:
                    return          # an earlier, weaker state covers this one
            n = count.get(b, 0)
            if (self.merge and len(old) >= self.merge_width(b)) or n > self.max_states:
                # join facts with the previous states for this key
                j = dict(st.facts)
                for o in old:
                    od = dict(o)
                    for k in list(j):
                        if k not in od:
                            del j[k]
                        else:
                            v = join_vs(j[k], od[k])
                            if v is None:
                                del j[k]
                            else:
                                j[k] = v
                st.facts = j
                fkey = frozenset(j.items())
                if any(o <= fkey for o in old):
                    return
                del old[:]
            if n > self.max_states * 3:
                self.truncated.add(f.name)
                return
            old.append(fkey)
            count[b] = n + 1
            pend.setdefault(b, []).append((env, st))
            if b not in inheap:
                inheap.add(b)
                heapq.heappush(heap, (order[b], b))

        push(f.entry(), env0, st0)
        while heap:
            _, b = heapq.heappop(heap)
            inheap.discard(b)
            work = pend.pop(b, [])
            if DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]:
                raise TimeBudget(f.name)
            for env, st in work:
                for item in self._block(f, cfg, b, dict(env), st.copy()):
                    if item[0] == 'ret':
                        _, val, s2 = item
                        rk = (val, frozenset(s2.mem.items()), s2.cl, frozenset(s2.facts.items()))
                        if rk not in retkeys:
                            retkeys.add(rk)
                            rets.append((val, s2))
                    else:
                        _, succ, env2, s2 = item
                        self.visited_edges.add((f.name, b, succ))
                        e3, s3 = self._edge(f, cfg, b, succ, env2, s2, lastvals)
                        if e3 is not None:
                            push(succ, e3, s3)
        return rets

    def merge_width(self, b):
        return 64

    def _edge(self, f, cfg, b, succ, env, st, lastvals):
        blk = f.blocks[succ]
        back = (b, succ) in cfg.backedges
        isheader = succ in cfg.headers
        new = {}
        phis = [i for i in blk.ins if i.op == 'phi']
        for ph in phis:
            for v, pb in ph.x:
                if pb == b:
                    new[ph.res] = st.val(self.operand(env, v)) if ph.ty == 'ptr' else self.operand(env, v)
                    break
        if isheader and not back:
            self.on_enter(st, f, succ)
        if isheader:
            killed = set()
            ctx = tuple(self.stack[-2:])
            for ph in phis:
                ind = cfg.induction.get(ph.res)
                val = new[ph.res]
                if ind is not None and self.unrolled(cfg, ph, ind, val):
                    pass
                elif ind is not None and not back:
                    g = self.induct_term(f, succ, ph, ind, val, env)
                    new[ph.res] = g
                    for k in list(st.facts):
                        if contains(k, {g}):
                            del st.facts[k]
                    for k in list(st.mem):
                        if contains(k, {g}):
                            del st.mem[k]
                    if g[0] == 'iter' and g[1][0] == 'i' and g[2] > 0:
                        st.assume_bound(g, lo=g[1][1])
                    if self.track_first and g[0] == 'elem':
                        st.facts[('first', g)] = VS(('i', 1))
                elif ind is not None and back:
                    g = None
                    # generic element already bound: find it
                    g = env.get(ph.res)
                    if g is None:
                        g = val
                    killed.add(g)
                    new[ph.res] = g
                elif back:
                    # several different values around the loop: keep a few, then generalise
                    vals = lastvals.setdefault((succ, ph.res), [])
                    if val not in vals:
                        if depth(val) > 12 or len(vals) >= self.loop_limit:
                            val = ('phi', f.name, succ, ph.res)
                            killed.add(val)
                        else:
                            vals.append(val)
                    new[ph.res] = val
            if back:
                gens = {g for g in killed if g[0] in ('elem', 'iter')}
                self.on_backedge(st, f, succ, killed)
                if gens:
                    for r in list(new):
                        if new[r] not in gens and contains(new[r], gens):
                            new[r] = subst(new[r], gens)
                        elif new[r] in gens and cfg.induction.get(r) is None:
                            new[r] = ('prev', new[r])
                    for k, v in list(st.mem.items()):
                        if isinstance(v, tuple) and contains(v, gens):
                            st.mem[k] = subst(v, gens)
                    prevs = {('prev', g) for g in gens}
                    if self.track_first or any(contains(v, prevs) for v in new.values()):
                        for k in list(st.facts):
                            if contains(k, prevs):
                                del st.facts[k]
                        for k, v in list(st.facts.items()):
                            if contains(k, gens):
                                k2 = subst(k, gens)
                                st.facts[k2] = v
                                prevs.add(k2)
                    else:
                        prevs = set()
                else:
                    prevs = set()
                # everything computed in the loop body from a previous iteration is stale
                iters = [g for g in killed if g[0] == 'iter' and g[1][0] == 'i' and g[2] > 0]
                for k in list(st.facts):
                    if killed and k not in prevs and contains(k, killed):
                        del st.facts[k]
                for k in list(st.mem):
                    if killed and contains(k, killed):
                        del st.mem[k]
                for k, v in list(st.mem.items()):
                    if isinstance(v, tuple) and depth(v) > 14:
                        st.mem[k] = ('phi', f.name, succ, 'mem')
                for g in iters:
                    st.assume_bound(g, lo=g[1][1])
                if self.track_first:
                    for g in gens:
                        if g[0] == 'elem':
                            st.facts[('first', g)] = VS(('i', 0))
        env = dict(env)
        env.update(new)
        return env, st

    def unrolled(self, cfg, ph, ind, val):
        """a counted loop with a small constant trip count is followed iteration by iteration"""
        if not self.unroll or ind[0] != 'add' or val[0] != 'i':
            return False
        c = cfg.bounds.get(ph.res)
        return c is not None and ind[1] > 0 and c <= self.unroll and 0 <= val[1] <= c

    def induct_term(self, f, header, ph, ind, init, env):
        kind = ind[0]
        if kind == 'next':
            if init == NULL:
                return init
            return ('elem', init, ind[1], header_id(f, header))
        if kind == 'add':
            return ('iter', init, ind[1], header_id(f, header))
        return ('phi', f.name, header, ph.res)

    def _block(self, f, cfg, b, env, st):
        """execute instructions; yields ('ret', val, st) | ('edge', succ, env, st)"""
        cur = [(env, st)]
        blk = f.blocks[b]
        for ins in blk.ins:
            self.steps += 1
            op = ins.op
            if op == 'phi':
                continue
            if op == 'call':
                nxt = []
                for env, st in cur:
                    nxt.extend(self._call(f, ins, env, st))
                cur = nxt
                if not cur:
                    return
                continue
            if op in ('br', 'switch', 'ret', 'unreachable'):
                for env, st in cur:
                    yield from self._term(f, cfg, ins, env, st)
                return
            for env, st in cur:
                self._simple(f, ins, env, st)

    def _term(self, f, cfg, ins, env, st):
        op = ins.op
        if op == 'ret':
            v = self.operand(env, ins.args[0]) if ins.args else None
            if v is not None:
                v = st.val(v)
            self.on_ret(st, f, ins, v)
            yield ('ret', v, st)
        elif op == 'br':
            if len(ins.x) == 1:
                yield ('edge', ins.x[0], env, st)
            else:
                c = self.operand(env, ins.args[0])
                for r in self.branch(st, c):
                    if len(r) == 3:
                        self.on_branch(r[1], ins, r[2][0], r[2][1], r[2][2], r[2][3])
                    yield ('edge', ins.x[0] if r[0] else ins.x[1], dict(env), r[1] if len(r) == 3 else r[1].copy())
        elif op == 'switch':
            v = st.val(self.operand(env, ins.args[0]))
            dflt, cases = ins.x
            if v[0] == 'i':
                for c, l in cases:
                    if c == v[1]:
                        yield ('edge', l, env, st)
                        return
                yield ('edge', dflt, env, st)
                return
            dst = st.copy()
            ok = True
            for c, l in cases:
                s2 = st.copy()
                if s2.assume_eq(v, ('i', c)):
                    self.on_branch(s2, ins, 'eq', v, ('i', c), True)
                    yield ('edge', l, dict(env), s2)
                if ok and not dst.assume_ne(v, ('i', c)):
                    ok = False
            if ok:
                for c, l in cases:
                    self.on_branch(dst, ins, 'eq', v, ('i', c), False)
                yield ('edge', dflt, dict(env), dst)

    def _simple(self, f, ins, env, st):
        op = ins.op
        A = lambda i: self.operand(env, ins.args[i])
        if op == 'alloca':
            r = ('al', f.name, ins.res, len(self.stack))
            env[ins.res] = r
            for k in list(st.mem):
                root = k
                while root[0] in ('fld', 'idx', 'ver', 'zero'):
                    root = root[1]
                if root == r:
                    del st.mem[k]
            return
        if op == 'load':
            a = A(0)
            v = self.load(st, a)
            v = st.val(v)
            env[ins.res] = v
            self.on_load(st, ins, a, v)
            return
        if op == 'store':
            v, a = A(0), A(1)
            self.on_store(st, ins, a, v)
            self.store(st, a, v)
            return
        if op == 'getelementptr':
            env[ins.res] = self.gep(ins.x, [self.operand(env, x) for x in ins.args])
            return
        if op == 'icmp':
            a, b = st.val(A(0)), st.val(A(1))
            if a[0] == 'i' and b[0] == 'i':
                env[ins.res] = ('i', int(const_cmp(ins.x, a[1], b[1])))
                return
            env[ins.res] = ('cmp', ins.x, a, b)
            return
        if op in ('sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            v = A(0)
            if op == 'trunc' and v[0] == 'i':
                bits = int(ins.ty[1:])
                n = v[1] & ((1 << bits) - 1)
                if bits > 1 and n >= (1 << (bits - 1)):
                    n -= 1 << bits
                v = ('i', n)
            elif op == 'zext' and v[0] == 'i' and v[1] < 0:
                fb = int(ins.aty[0][1:])
                v = ('i', v[1] & ((1 << fb) - 1))
            env[ins.res] = v
            return
        if op == 'select':
            c = self.operand(env, ins.args[0])
            rs = self.branch(st.copy(), c)
            if len(rs) == 1:
                env[ins.res] = A(1) if rs[0][0] else A(2)
            else:
                env[ins.res] = ('sel', c, A(1), A(2))
            return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            a, b = st.val(A(0)), st.val(A(1))
            env[ins.res] = mk_op(op, a, b, ins.ty)
            return
        if op in ('extractvalue', 'insertvalue', 'fptosi', 'sitofp', 'uitofp', 'fptoui', 'fadd', 'fmul', 'fdiv', 'fsub', 'fcmp', 'fneg', 'va_arg', 'fpext', 'fptrunc'):
            env[ins.res] = ('op', op) + tuple(self.operand(env, x) for x in ins.args)
            return
        raise AnalysisBroken("unmodelled instruction %s at %s" % (op, ins.where()))

    def _call(self, f, ins, env, st):
        args = tuple(st.val(self.operand(env, a)) for a in ins.args)
        name = ins.callee
        self.ind_target = None
        if name is None:
            t = self.operand(env, ins.x)
            self.ind_target = t
            if t[0] == 'fn':
                name = t[1]
        if name and name.startswith('llvm.'):
            base = name.split('.')[1]
            if base == 'memset':
                root = args[0]
                for k in list(st.mem):
                    r2 = k
                    while r2[0] in ('fld', 'idx'):
                        r2 = r2[1]
                    if r2 == root:
                        del st.mem[k]
                if args[1] == ('i', 0):
                    st.mem[('zero', root)] = ('i', 1)
                return [(env, st)]
            if base == 'memcpy':
                self._memcpy(st, args, ins)
                return [(env, st)]
            if ins.res:
                env[ins.res] = ('call', name, args)
            return [(env, st)]
        r = self.on_call(st, ins, name, args)
        if r is None:
            r = self.default_call(st, ins, name, args)
        out = []
        for v, s2 in r:
            e2 = dict(env)
            if ins.res is not None:
                e2[ins.res] = v if v is not None else ('hv', 'void', ins.uid)
            out.append((e2, s2))
        return out

    def _memcpy(self, st, args, ins=None):
        dst, src = args[0], args[1]
        if src[0] == 'g':
            g = self.prog.globals.get(src[1])
            if g is not None and g.const and g.init is not None:
                self._copy_init(st, dst, g.init, g.ty)
                return
        for k in list(st.mem):
            r2 = k
            while r2[0] in ('fld', 'idx'):
                r2 = r2[1]
            if r2 == dst:
                del st.mem[k]
        st.mem[('ver', dst)] = ('cpy', src)
        if src[0] == 'al':
            # what was written into the local is what the copy holds
            for k, v in list(st.mem.items()):
                r2 = k
                while r2[0] in ('fld', 'idx'):
                    r2 = r2[1]
                if r2 == src:
                    k2 = reroot(k, src, dst)
                    if ins is not None:
                        self.on_store(st, ins, k2, v)
                    self.store(st, k2, v)

    def _copy_init(self, st, dst, v, ty):
        if v[0] == 'zero':
            st.mem[('zero', dst)] = ('i', 1)
            return
        if v[0] == 'agg':
            if ty.startswith('%struct'):
                stt = self.prog.structs.get(ty)
                for i, x in enumerate(v[1]):
                    if stt and i < len(stt.irtypes):
                        self._copy_init(st, ('fld', dst, ty[len('%struct.'):] + '.' + self.prog.field(ty, i)), x, stt.irtypes[i])
            elif ty.startswith('['):
                et = ty[ty.index(' x ') + 3:-1]
                for i, x in enumerate(v[1]):
                    self._copy_init(st, mk_idx(dst, ('i', i), et) , x, et)
            return
        if v[0] == 'cstr':
            return
        st.mem[dst] = self.operand({}, v)

    def default_call(self, st, ins, name, args):
        if name in NORETURN:
            return []
        if name and name in self.prog.funcs and self.inline(name) and name not in self.stack and len(self.stack) < self.depth:
            return self.call_function(self.prog.funcs[name], args, st)
        if name == 'strlen' and args[0][0] == 's':
            return [(('i', len(args[0][1])), st)]
        if name in PURE_EXT or (name and self.is_pure(name)):
            return [(('call', name, args), st)]
        tag = (ins.uid, tuple(self.stack[1:])) if len(self.stack) > 1 else ins.uid
        v = ('call', name or '?', args, tag)
        # a fresh result replaces any facts about the previous execution of this call
        for k in list(st.facts):
            if contains(k, {v}):
                del st.facts[k]
        for k in list(st.mem):
            if contains(k, {v}):
                del st.mem[k]
        if name in NOESCAPE_EXT or (name and self.no_effect(name)):
            return [(v, st)]
        self.havoc_call(st, ins, name, args)
        return [(v, st)]

    def is_pure(self, name):
        return False

    def no_effect(self, name):
        return False


def reroot(k, a, b):
    if k == a:
        return b
    return (k[0], reroot(k[1], a, b)) + k[2:]


def subst(t, gens):
    """values of the finished iteration become values of 'the previous element'"""
    if not isinstance(t, tuple):
        return t
    if t in gens:
        return ('prev', t)
    if t and t[0] == 'prev':
        return t
    return tuple(subst(x, gens) for x in t)


def header_id(f, header):
    return f.name + ':' + header


def depth(t):
    d = 0
    while isinstance(t, tuple):
        nx = None
        for y in t[1:]:
            if isinstance(y, tuple) and (nx is None or len(repr(y)) > len(repr(nx))):
                nx = y
        if nx is None:
            break
        t = nx
        d += 1
        if d > 20:
            break
    return d


def mk_idx(a, i, ty):
    if a[0] == 'idx':
        n = mk_op('add', a[2], i, 'i64')
        if n == ('i', 0):
            return a[1]
        return ('idx', a[1], n)
    if i == ('i', 0) and False:
        return a
    return ('idx', a, i)


def const_cmp(p, a, b):
    if p in ('ugt', 'uge', 'ult', 'ule'):
        a &= (1 << 64) - 1
        b &= (1 << 64) - 1
    return {'eq': a == b, 'ne': a != b, 'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b,
            'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b}[p]


def mk_op(op, a, b, ty):
    if op == 'sub' and a == b and a[0] in ('s', 'al', 'p', 'idx'):
        return ('i', 0)
    if op == 'sub' and (a[0] == 'idx' or b[0] == 'idx') and a[0] != 'i':
        # the distance of two places in one object
        ra, i = (a[1], a[2]) if a[0] == 'idx' else (a, ('i', 0))
        rb, j = (b[1], b[2]) if b[0] == 'idx' else (b, ('i', 0))
        if ra == rb and i[0] == 'i' and j[0] == 'i':
            return ('i', i[1] - j[1])
    if a[0] == 'i' and b[0] == 'i':
        x, y = a[1], b[1]
        bits = int(ty[1:]) if ty and ty[1:].isdigit() else 64
        try:
            if op == 'shl':
                r = x << y if 0 <= y < 128 else 0
            elif op == 'lshr':
                r = (x & ((1 << bits) - 1)) >> y
            elif op == 'ashr':
                r = x >> y
            elif op in ('sdiv', 'udiv'):
                r = int(x / y) if y else 0
            elif op in ('srem', 'urem'):
                r = x - y * int(x / y) if y else 0
            else:
                r = {'add': x + y, 'sub': x - y, 'mul': x * y, 'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
        except Exception:
            return ('op', op, a, b)
        if bits == 1:
            return ('i', r & 1)
        r &= (1 << bits) - 1
        if r >= 1 << (bits - 1):
            r -= 1 << bits
        return ('i', r)
    if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and b == ('i', 0):
        return a
    if op == 'add' and a == ('i', 0):
        return b
    if op == 'sub' and b[0] == 'i':
        return mk_op('add', a, ('i', -b[1]), ty)
    if op == 'add' and a[0] == 'i':
        a, b = b, a
    if op == 'add' and b[0] == 'i' and a[0] == 'op' and a[1] == 'add' and a[3][0] == 'i':
        return mk_op('add', a[2], ('i', a[3][1] + b[1]), ty)
    if op == 'and' and (a == ('i', 0) or b == ('i', 0)):
        return ('i', 0)
    if op == 'and' and ty == 'i1' and a == b:
        return a
    if op == 'xor' and ty == 'i1' and b == ('i', 1):
        if a[0] == 'not':
            return a[1]
        return ('not', a)
    if op == 'xor' and ty == 'i1' and b == ('i', -1):
        return ('not', a)
    if op in ('mul', 'and', 'or', 'xor') and is_const(a) and not is_const(b):
        a, b = b, a
    return ('op', op, a, b)


class CFG:
    def __init__(self, f):
        self.f = f
        # reverse post order
        seen = set()
        post = []
        stack = [(f.entry(), iter(f.blocks[f.entry()].succ))]
        seen.add(f.entry())
        onstack = {f.entry()}
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(f.blocks[s].succ)))
                    adv = True
                    break
            if not adv:
                post.append(b)
                stack.pop()
        self.rpo = list(reversed(post))
        self.rpo_index = {b: i for i, b in enumerate(self.rpo)}
        self._dom()
        self.backedges = set()
        for b in self.rpo:
            for s in f.blocks[b].succ:
                if self.dominates(s, b):
                    self.backedges.add((b, s))
        # irreducible retreating edges also count
        for b in self.rpo:
            for s in f.blocks[b].succ:
                if self.rpo_index[s] <= self.rpo_index[b]:
                    self.backedges.add((b, s))
        self.headers = {s for _, s in self.backedges}
        self.loops = {}
        for b, h in self.backedges:
            body = self.loops.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                for p in f.blocks[x].pred:
                    if p in self.rpo_index:
                        st.append(p)
        self._live()
        self._induct()

    def _dom(self):
        f = self.f
        idom = {f.entry(): f.entry()}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in f.blocks[b].pred:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.rpo_index[x] > self.rpo_index[y]:
                                    x = idom[x]
                                while self.rpo_index[y] > self.rpo_index[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom.get(b)
            if n is None or n == b:
                return False
            b = n

    def _live(self):
        f = self.f
        use, deff, phiuse = {}, {}, {}
        for b in self.rpo:
            u, d = set(), set()
            for i in f.blocks[b].ins:
                if i.op == 'phi':
                    d.add(i.res)
                    continue
                ops = list(i.args)
                if i.op == 'call':
                    ops.append(i.x)
                for o in ops:
                    for n in opnames(o):
                        if n not in d:
                            u.add(n)
                if i.res:
                    d.add(i.res)
            use[b], deff[b] = u, d
        live = {b: set() for b in self.rpo}
        phidefs = {b: {i.res for i in f.blocks[b].ins if i.op == 'phi'} for b in self.rpo}
        changed = True
        while changed:
            changed = False
            for b in reversed(self.rpo):
                out = set()
                for s in f.blocks[b].succ:
                    out |= live[s] - phidefs[s]
                    for i in f.blocks[s].ins:
                        if i.op != 'phi':
                            break
                        for v, pb in i.x:
                            if pb == b and v[0] == 'l':
                                out.add(v[1])
                n = use[b] | (out - deff[b]) | (phidefs[b] & (use[b] | out | self._usedin(b)))
                # phis used inside block are in use[b] only if not shadowed; keep all phi defs live at entry
                n |= phidefs[b]
                if n != live[b]:
                    live[b] = n
                    changed = True
        self.live_in = live

    def _usedin(self, b):
        return set()

    def _induct(self):
        """header phis that advance along a list (->next) or by a constant on every back edge"""
        f = self.f
        self.induction = {}
        for h in self.headers:
            for ph in f.blocks[h].ins:
                if ph.op != 'phi':
                    break
                kinds = set()
                for v, pb in ph.x:
                    if (pb, h) in self.backedges:
                        kinds |= self._chain(ph.res, v, set(), h)
                if len(kinds) == 1 and None not in kinds:
                    self.induction[ph.res] = next(iter(kinds))
        for h, body in self.loops.items():
            ind = {i.res for i in f.blocks[h].ins if i.op == 'phi' and i.res in self.induction}
            for b in body:
                self.live_in[b] = self.live_in[b] | ind
        self.bounds = {}
        for b in self.rpo:
            for i in f.blocks[b].ins:
                if i.op == 'icmp' and i.args[1][0] == 'i':
                    a = i.args[0]
                    while a[0] == 'l' and a[1] in f.defs and f.defs[a[1]].op in ('sext', 'zext', 'trunc'):
                        a = f.defs[a[1]].args[0]
                    if a[0] == 'l' and a[1] in self.induction and i.x in ('ult', 'slt', 'ule', 'sle', 'ne'):
                        self.bounds[a[1]] = min(i.args[1][1], self.bounds.get(a[1], 1 << 30)) if i.args[1][1] > 0 else self.bounds.get(a[1])

    def _chain(self, phi, v, seen, h):
        f = self.f
        if v[0] != 'l':
            return {None}
        n = v[1]
        if n == phi:
            return {('same',)}
        if n in seen:
            return set()
        seen.add(n)
        i = f.defs.get(n)
        if i is None:
            return {None}
        if i.op in ('sext', 'zext', 'trunc', 'bitcast'):
            return self._chain(phi, i.args[0], seen, h)
        if i.op == 'phi' and i.bb.name in self.loops.get(h, ()):
            r = set()
            for w, _ in i.x:
                r |= self._chain(phi, w, seen, h)
            return r
        if i.op == 'load' and i.args[0][0] == 'l':
            g = f.defs.get(i.args[0][1])
            if g is not None and g.op == 'getelementptr' and g.args[0] == ('l', phi) and g.x.startswith('%struct') and len(g.args) == 3:
                return {('next', (g.x, g.args[2][1]))}
            # through inner phi copies of the same variable (while loops with continue)
            return {None}
        if i.op == 'call' and i.callee in Interp.iter_calls and i.args[0] == ('l', phi):
            return {('next', i.callee)}
        if i.op == 'add' and i.args[0] == ('l', phi) and i.args[1][0] == 'i':
            return {('add', i.args[1][1])}
        if i.op == 'getelementptr' and i.args[0] == ('l', phi) and len(i.args) == 2 and i.args[1][0] == 'i':
            return {('add', i.args[1][1])}
        return {None}


def opnames(o):
    if o[0] == 'l':
        yield o[1]
