"""Path-sensitive event traces of one function.

Every path of the function (helpers inlined, the calls named `opaque` kept) yields the ordered
events it performs; a loop body is analysed once for an arbitrary iteration and handed to
`on_iter` with the events of that iteration, so loops contribute no trace length."""
from .absint import Interp, State, NULL, walk, contains, VS
from . import tables
from .tables import strip, Cx, evaluate, understood


class Ev:
    """one event"""
    __slots__ = ('kind', 'name', 'args', 'ret', 'where', 'facts', 'val', 'addr')

    def __init__(self, kind, name=None, args=(), ret=None, where='', addr=None, val=None):
        self.kind, self.name, self.args, self.ret, self.where, self.addr, self.val = kind, name, args, ret, where, addr, val

    def key(self):
        return (self.kind, self.name, self.args, self.ret, self.where, self.addr, self.val)

    def __eq__(self, o):
        return isinstance(o, Ev) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.kind == 'call':
            return '%s(%s)@%s' % (self.name, ', '.join(map(_p, self.args)), self.where)
        if self.kind == 'store':
            return '%s := %s@%s' % (_p(self.addr), _p(self.val), self.where)
        return '%s %s' % (self.kind, self.name)


def _p(t):
    from . import pretty
    try:
        return pretty.pt(t)
    except Exception:
        return repr(t)


QUIET = {'printf', 'fprintf', 'puts', 'putchar', 'print_if_verbose', 'color_ok', 'color_note', 'color_reset', 'color_warning', 'color_error', 'color_severity'}


class PathI(Interp):
    """opaque: call names not entered; pure: of those, the ones whose result depends only on arguments;
    stores: record stores to memory the caller can see"""
    spec = None
    summaries = False

    def __init__(self, prog, opaque=(), pure=(), quiet=QUIET, summaries=False, snap=None, stores=True, on_iter=None, keep=None, transparent=(), indirect=None, immutable=False, deref=False, uaf=(), **kw):
        self.summaries = summaries
        self.snap = snap or {}
        self.opq = set(opaque) | set(pure)
        self.pure_ = set(pure)
        self.quiet = set(quiet)
        self.rec_stores = stores
        self.iter_cb = on_iter
        self.indirect = indirect
        self.immutable = immutable
        self.deref = deref
        self.uaf = uaf          # names of releasing functions: touching what they were given is an event
        self.keep = keep
        self.iters = 0
        kw.setdefault('merge', False)
        kw.setdefault('depth', 12)
        super().__init__(prog, inline=lambda n: n not in self.opq and n not in self.quiet, **kw)

    def is_pure(self, n):
        return n in self.pure_

    def no_effect(self, n):
        return n in self.opq or n in self.quiet

    def immutable_addr(self, addr):
        return self.immutable

    def ev(self, st, e):
        if self.keep is None or self.keep(e):
            st.cl = st.cl + (e,)

    def on_call(self, st, ins, name, args):
        if name is None or (name in self.prog.funcs and name in self.quiet):
            if name is None:
                if self.indirect is not None:
                    r = self.indirect(self, st, ins, self.ind_target, args)
                    if r is not None:
                        return r
                v = ('call', '*', (self.ind_target,) + args, ins.uid)
                self.ev(st, Ev('call', '*', (self.ind_target,) + args, v, ins.where()))
                return [(v, st)]
            return None
        if name in self.quiet or name.startswith('llvm.'):
            return None
        if name in self.pure_:
            return None
        if name in self.opq or name not in self.prog.funcs:
            from .absint import PURE_EXT, NORETURN
            if name in PURE_EXT:
                return None
            tag = (ins.uid, tuple(self.stack[1:])) if len(self.stack) > 1 else ins.uid
            v = ('call', name, args, tag)
            extra = self.snap[name](self, st, args) if name in self.snap else None
            self.ev(st, Ev('call', name, args, v, ins.where(), val=extra))
        return None

    def on_load(self, st, ins, addr, val):
        # a list cursor that is dereferenced is not the end of the list
        if self.deref and addr[0] == 'fld' and addr[1][0] == 'elem':
            st.assume_ne(addr[1], NULL)
        if self.uaf:
            self.touch(st, ins, addr)

    def touch(self, st, ins, addr):
        gone = {e.args[0] for e in st.cl if isinstance(e, Ev) and e.kind == 'call' and e.name in self.uaf and e.args}
        if gone:
            a = addr
            while a[0] in ('fld', 'idx'):
                a = a[1]
                if a in gone:
                    self.ev(st, Ev('uaf', None, (), None, ins.where(), addr))
                    return

    def on_store(self, st, ins, addr, val):
        if self.deref and addr[0] == 'fld' and addr[1][0] == 'elem':
            st.assume_ne(addr[1], NULL)
        if self.uaf:
            self.touch(st, ins, addr)
        if not self.rec_stores:
            return
        r = addr
        while r[0] in ('fld', 'idx'):
            r = r[1]
        if r[0] == 'al':
            return
        self.ev(st, Ev('store', None, (), None, ins.where(), addr, val))

    def on_enter(self, st, f, header):
        st.cl = st.cl + (('enter', f.name, header),)

    def on_backedge(self, st, f, header, killed):
        k = ('enter', f.name, header)
        i = len(st.cl) - 1
        while i >= 0 and st.cl[i] != k:
            i -= 1
        evs = tuple(e for e in st.cl[i + 1:] if isinstance(e, Ev))
        self.iters += 1
        if self.iter_cb:
            r = self.iter_cb(self, st, f, header, evs, killed)
            if r is not None and ('mark', r) not in st.cl:
                st.cl = st.cl[:i] + (('mark', r),) + st.cl[i:]
                i += 1
        if self.summaries:
            # a loop that ran is remembered by the set of events of its iterations
            old = frozenset()
            if i + 1 < len(st.cl) and isinstance(st.cl[i + 1], tuple) and st.cl[i + 1][0] == 'sum':
                old = st.cl[i + 1][3]
            inner = frozenset(x for s in st.cl[i + 1:] if isinstance(s, tuple) and s[0] == 'sum' for x in s[3])
            st.cl = st.cl[:i + 1] + (('sum', f.name, header, old | inner | frozenset(evs)),)
        else:
            st.cl = st.cl[:i + 1]


def trace(st):
    """ordered list of (event, in_loop) where the events of a loop appear as one group"""
    out = []
    for e in st.cl:
        if isinstance(e, Ev):
            out.append((e, None))
        elif e[0] == 'sum':
            for x in sorted(e[3], key=repr):
                out.append((x, (e[1], e[2])))
    return out


def marks(st):
    return [e[1] for e in st.cl if isinstance(e, tuple) and e[0] == 'mark']


def events(st):
    return [e for e in st.cl if isinstance(e, Ev)]


def known_null(st, t):
    """True / False / None"""
    v = st.vs(t)
    if t == NULL:
        return True
    if v is None:
        return False if t[0] in ('al', 's', 'g', 'fn', 'fld') else None
    if v.eq is not None:
        return v.eq == NULL
    if NULL in v.ne or (v.lo is not None and v.lo > 0) or (v.hi is not None and v.hi < 0):
        return False
    return None


def fval(st, t):
    """known constant of a term or None (facts compared modulo load versions)"""
    if t[0] in ('i', 's'):
        return t
    for k, v in st.facts.items():
        if k == t or strip(k) == strip(t):
            if v.eq is not None:
                return v.eq
    return None


def fnz(st, t):
    """is t known nonzero (True) / zero (False) / None, modulo load versions"""
    if t[0] == 'i':
        return t[1] != 0
    s = strip(t)
    for k, v in st.facts.items():
        if k == t or strip(k) == s:
            if v.eq is not None:
                return v.eq != NULL
            if NULL in v.ne or (v.lo is not None and v.lo > 0) or (v.hi is not None and v.hi < 0):
                return True
    if t[0] == 'cmp' or t[0] == 'not':
        from .absint import Interp
        I = Interp.__new__(Interp)
        p, a, b, pol = Interp.cmp_parts(I, st, 'ne', t, NULL)
        if p is None:
            return pol
        d = Interp.decide(I, st, p, a, b)
        if d is not None:
            return d == pol
    return None
