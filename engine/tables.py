"""Decision tables: the guard under which a function produces each outcome, extracted
path-sensitively from the IR and compared with a specified condition.

A specification is a boolean formula over canonical atoms.  For every path of the
function the formula is evaluated under the finite facts of that path; the outcome of
the path must agree.  Loops over lists are quantifiers: every iteration that is left
behind must have made the quantified condition false, and a path that concludes
'none' must have exhausted the list.
"""
from itertools import product
from .absint import Interp, State, contains, is_const, VS, NULL, walk
from .build import AnalysisBroken
from . import pretty


# ---------------------------------------------------------------- formulas
class Fm:
    def __and__(self, o):
        return And(self, o)

    def __or__(self, o):
        return Or(self, o)

    def __invert__(self):
        return Not(self)


class And(Fm):
    def __init__(self, *a):
        self.a = a

    def ev(self, cx):
        r = True
        for x in self.a:
            v = x.ev(cx)
            if v is False:
                return False
            if v is None:
                r = None
        return r

    def subs(self):
        return self.a

    def __repr__(self):
        return '(' + ' and '.join(map(repr, self.a)) + ')'


class Or(Fm):
    def __init__(self, *a):
        self.a = a

    def ev(self, cx):
        r = False
        for x in self.a:
            v = x.ev(cx)
            if v is True:
                return True
            if v is None:
                r = None
        return r

    def subs(self):
        return self.a

    def __repr__(self):
        return '(' + ' or '.join(map(repr, self.a)) + ')'


class Not(Fm):
    def __init__(self, a):
        self.a = a

    def ev(self, cx):
        v = self.a.ev(cx)
        return None if v is None else not v

    def subs(self):
        return (self.a,)

    def __repr__(self):
        return 'not ' + repr(self.a)


class Const(Fm):
    def __init__(self, v):
        self.v = v

    def ev(self, cx):
        return self.v

    def subs(self):
        return ()

    def __repr__(self):
        return str(self.v)


class Atom(Fm):
    """pred(a, b) after canonicalisation"""

    def __init__(self, pred, a, b):
        self.pred, self.ta, self.tb = pred, a, b

    def ev(self, cx):
        return cx.atom(self)

    def subs(self):
        return ()

    def key(self):
        return (self.pred, self.ta, self.tb)

    def __repr__(self):
        return '%s %s %s' % (pretty.pt(self.ta), {'eq': '=='}.get(self.pred, self.pred), pretty.pt(self.tb))


SLIST = ('%struct.string_list', 1)
SIBL = ('%struct.policy_node', 1)
PARENT = ('%struct.policy_node', 0)


class Exists(Fm):
    """some element e of list L satisfies body(e).  body is a python function term -> Fm.
    stop: the walk ends at the first element satisfying stop (nearest-ancestor style);
    size: the 'list' is the index range 0..size-1 of a constant table."""

    def __init__(self, lst, body, kind=SLIST, name='', stop=None, size=None):
        self.lst = lst
        self.size = size
        self.elem = ('elem', lst, kind) if size is None else ('iter', ('i', 0), 1)
        self.stop = stop(self.elem) if stop else None
        b = body(self.elem)
        self.body = And(self.stop, b) if stop else b
        self.left = self.stop if stop else self.body       # must be false for an element that is left behind
        self.name = name or repr((lst, kind, size, repr(self.body)))

    def ev(self, cx):
        return cx.exists(self)

    def subs(self):
        return (self.body,)

    def __repr__(self):
        return 'exists e in %s: %r' % (pretty.pt(self.lst), self.body)


def eq(a, b):
    if isinstance(b, int):
        b = ('i', b)
    if is_const(a) and not is_const(b):
        a, b = b, a
    if not is_const(b) and repr(b) < repr(a):
        a, b = b, a
    return Atom('eq', a, b)


def isnull(a):
    return eq(a, 0)


def nonnull(a):
    return Not(eq(a, 0))


def truth(a):
    return Not(eq(a, 0))


def streq(a, b):
    if isinstance(b, str):
        return Atom('eq', ('strval', a), ('s', b))
    a, b = ('strval', a), ('strval', b)
    if repr(b) < repr(a):
        a, b = b, a
    return Atom('eq', a, b)


def inset(a, vals):
    return Or(*[eq(a, v) for v in vals])


def field(base, sf):
    return ('ld', ('fld', base, sf))


def call(name, *args):
    return ('call', name, tuple(('i', a) if isinstance(a, int) else ('s', a) if isinstance(a, str) else a for a in args))


def char(base, i):
    return ('ld', base) if i == 0 else ('ld', ('idx', base, ('i', i)))


def atoms_of(f, out=None):
    if out is None:
        out = []
    if isinstance(f, (Atom, Exists)):
        out.append(f)
        if isinstance(f, Exists):
            return out
    for s in f.subs():
        atoms_of(s, out)
    return out


def strip(t):
    """drop loop tags and load versions"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'elem' and len(t) == 4:
        return ('elem', strip(t[1]), t[2])
    if t and t[0] == 'iter' and len(t) == 4:
        return ('iter', strip(t[1]), t[2])
    if t and t[0] == 'ld' and len(t) == 3:
        return shift(('ld', strip_addr(t[1])))
    if t and t[0] == 'ld':
        return shift(('ld', strip_addr(t[1])))
    if t and t[0] == 'call' and len(t) == 4:
        return ('call', t[1], strip(t[2]))
    return tuple(strip(x) for x in t)


NEXTF = {('%struct.string_list', 1): 'string_list.next', ('%struct.policy_node', 1): 'policy_node.next',
         ('%struct.policy_node', 0): 'policy_node.parent', ('%struct.policy_node', 2): 'policy_node.prev'}


def shift(t):
    """next-of-the-generic-element of L is the generic element of L->next"""
    if t[0] == 'ld' and t[1][0] == 'fld' and t[1][1][0] == 'elem' and NEXTF.get(t[1][1][2]) == t[1][2]:
        e = t[1][1]
        return ('elem', shift(('ld', ('fld', e[1], t[1][2]))), e[2])
    return t


def strip_addr(a):
    a = strip(a)
    if a[0] == 'idx' and a[2] == ('i', 0):
        return a[1]
    return a


def rewrite(t, fn):
    if not isinstance(t, tuple):
        return t
    t = tuple(rewrite(x, fn) for x in t)
    if t and isinstance(t[0], str):
        r = fn(t)
        if r is not None:
            return r
    return t


class Cx:
    """evaluation context: facts of one path"""

    def __init__(self, interp, facts, ex, assume=None):
        self.st = State()
        canon = getattr(interp.spec, 'canon', None)
        for k, v in facts.items():
            k2 = strip(k)
            if canon:
                k2 = rewrite(k2, canon)
            if k2 in self.st.facts and k2 != k:
                # two loops over one list: the exhausted one says nothing about elements
                o = self.st.facts[k2]
                if o.eq == NULL and not (v.eq == NULL):
                    self.st.facts[k2] = v
                continue
            self.st.facts[k2] = v
        # strcmp is antisymmetric
        for k, v in list(self.st.facts.items()):
            if k[0] == 'call' and k[1] == 'strcmp' and v.eq is None and (v.lo is not None or v.hi is not None):
                m = ('call', 'strcmp', (k[2][1], k[2][0]))
                if v.lo is not None and v.lo >= 1:
                    self.st.assume_bound(m, hi=-1)
                elif v.lo is not None and v.lo >= 0:
                    self.st.assume_bound(m, hi=0)
                if v.hi is not None and v.hi <= -1:
                    self.st.assume_bound(m, lo=1)
                elif v.hi is not None and v.hi <= 0:
                    self.st.assume_bound(m, lo=0)
        # strncmp with a literal longer than / as long as the count is equality / prefix
        for k, v in list(self.st.facts.items()):
            if k[0] == 'call' and k[1] == 'strncmp' and k[2][1][0] == 's' and k[2][2][0] == 'i' and k[2][2][1] > len(k[2][1][1]):
                sv = ('strval', k[2][0])
                if v.eq == NULL:
                    self.st.assume_eq(sv, k[2][1])
                elif v.eq is not None or NULL in v.ne:
                    self.st.assume_ne(sv, k[2][1])
        # a known comparison result of two strings fixes strcmp()
        for k, v in list(self.st.facts.items()):
            if k[0] == 'cmp' and k[1] == 'eq' and k[2][0] == 'strval' and k[3][0] == 'strval' and v.eq is not None:
                for x, y in ((k[2][1], k[3][1]), (k[3][1], k[2][1])):
                    c = ('call', 'strcmp', (x, y))
                    if v.eq == ('i', 1):
                        self.st.assume_eq(c, NULL)
                    else:
                        self.st.assume_ne(c, NULL)
        self.ex = ex
        self.interp = interp
        self.used = set()
        self.over = assume or {}

    def atom(self, a):
        if a.key() in self.over:
            return self.over[a.key()]
        pred, x, y, pol = self.interp.cmp_parts(self.st, a.pred, a.ta, a.tb)
        if pred is None:
            return pol
        d = self.interp.decide(self.st, pred, x, y)
        if d is None:
            d = self.implied(pred, x, y)
            if d is None:
                self.used.add(a)
                return None
        return d == pol

    def implied(self, pred, x, y):
        # a known literal string fixes its characters
        if pred == 'eq' and x[0] == 'ld' and y[0] == 'i':
            base, off = (x[1][1], x[1][2]) if x[1][0] == 'idx' else (x[1], ('i', 0))
            v = self.st.facts.get(('strval', base))
            if v is not None and v.eq is not None and off[0] == 'i':
                s = v.eq[1]
                if 0 <= off[1] < len(s):
                    return ord(s[off[1]]) == y[1]
                if off[1] == len(s):
                    return y[1] == 0
            for fn in ('strchr', 'strrchr'):
                c = self.st.facts.get(('call', fn, (base, y)))
                if c is not None and c.eq == NULL and y != NULL:
                    return False
        if pred == 'eq' and x[0] == 'strval' and y[0] == 's':
            n = self.st.facts.get(('call', 'strlen', (x[1],)))
            if n is not None:
                if n.eq is not None and n.eq[1] != len(y[1]) or ('i', len(y[1])) in n.ne:
                    return False
            allk = True
            for j, ch in enumerate([ord(ch) for ch in y[1]] + [0]):
                c = self.st.facts.get(('ld', ('idx', x[1], ('i', j))))
                if c is None and j == 0:
                    c = self.st.facts.get(('ld', x[1]))
                if c is None:
                    allk = False
                    continue
                if c.eq is not None:
                    if c.eq[1] != ch:
                        return False
                else:
                    allk = False
                    if ('i', ch) in c.ne:
                        return False
            if allk:
                return True
        return None

    def exists(self, e):
        if ('exists', id(e)) in self.over:
            return self.over[('exists', id(e))]
        mark = self.ex.get(e.name)
        if mark is True:
            return True
        fe = self.st.facts.get(e.elem)
        fl = self.st.facts.get(e.lst)
        if e.size is not None:
            if mark == '?':
                return None
            if fe is not None and fe.eq is not None and fe.eq[1] >= e.size or fe is not None and fe.lo is not None and fe.lo >= e.size:
                return False
            if fe is not None and fe.hi is not None and fe.hi < e.size or fe is not None and fe.eq is not None:
                return True if e.body.ev(self) is True else None
            return None
        if fe is not None and (fe.eq is None and NULL in fe.ne):
            b = e.body.ev(self)
            if b is True:
                return True
            if e.stop is not None and e.stop.ev(self) is True and b is False and mark is None:
                return False
            return None
        if mark == '?':
            return None
        if fe is not None and fe.eq == NULL or fl is not None and fl.eq == NULL:
            return False
        return None


def evaluate(fm, interp, facts, ex):
    """definite value of fm under all completions of the atoms the path leaves open"""
    cx = Cx(interp, facts, ex)
    v = fm.ev(cx)
    if v is not None:
        return v, []
    ats = [a for a in atoms_of(fm) if a.ev(Cx(interp, facts, ex)) is None]
    uniq = {}
    for a in ats:
        uniq[a.key() if isinstance(a, Atom) else ('exists', id(a))] = a
    keys = list(uniq)
    if len(keys) > 12:
        return None, list(uniq.values())
    res = set()
    for vals in product((False, True), repeat=len(keys)):
        o = dict(zip(keys, vals))
        # strval atoms with different literals exclude each other
        byterm = {}
        bad = False
        for k, val in o.items():
            if val and k[0] == 'eq' and is_const(k[2]):
                if k[1] in byterm:
                    bad = True
                    break
                byterm[k[1]] = k[2]
        if bad:
            continue
        cx = Cx(interp, facts, ex, o)
        res.add(fm.ev(cx))
        if len(res) > 1:
            break
    if len(res) == 1 and None not in res:
        return res.pop(), []
    return None, list(uniq.values())


class Spec:
    """fn: function;  pre: formula describing legitimate inputs;  report: condition for a finding
    vocab: names of project functions kept as atoms (each has its own rule);
    lists: Exists nodes are found in the formula."""

    def __init__(self, fn, report, pre=None, vocab=(), classify=None, canon=None, params=None, first=False, opaque=(),
                 event=None, store=None, args=None, unroll=8, title=None, only_paths=None):
        self.fn, self.report, self.pre = fn, report, pre or Const(True)
        self.canon, self.first, self.opaque = canon, first, opaque
        self.vocab = set(vocab)
        self.classify = classify
        self.params = params
        self.event, self.store, self.args, self.unroll, self.title = event, store, args, unroll, title
        self.only_paths = only_paths


def understood(t, vocab):
    """is the fact key t built only from things the rule language can name?"""
    if t[0] == 'call' and t[1] in ('strchr', 'strrchr') and t[2][1][0] == 'i' and understood(t[2][0], vocab):
        return True         # present or absent: what that says about single characters is modelled
    for x in walk(t):
        k = x[0]
        if k in ('hv', 'phi', 'op', 'al', 'sel', 'undef', 'va', 'fn', 'not'):
            return False
        if k == 'call' and x[1] not in vocab and x[1] not in ('strcmp',):
            return False
    return True


class TableInterp(Interp):
    def __init__(self, prog, spec, **kw):
        self.spec = spec
        self.opaque = set(spec.vocab) | {'make_check_result', 'alloc_internal_error', 'free_string_list', 'display_check_result',
                                         'printf', 'color_note', 'color_reset', 'print_if_verbose'}
        self.opaque |= set(spec.opaque)
        super().__init__(prog, inline=lambda n: n not in self.opaque, merge=False, **kw)
        self.track_first = spec.first
        self.unroll = spec.unroll
        self.exs = [a for a in atoms_of(spec.report) if isinstance(a, Exists)]
        self.outcomes = []
        self.iterations = 0
        self.unclear = []

    def note(self, st, label):
        if label:
            ex = dict(st.cl)
            ex[('ev', label)] = True
            st.cl = tuple(sorted(ex.items(), key=repr))

    def on_call(self, st, ins, name, args):
        if self.spec.event:
            self.note(st, self.spec.event(name, args, st, self))
        return None

    def on_store(self, st, ins, addr, val):
        if self.spec.store:
            self.note(st, self.spec.store(addr, val, st, self))

    def is_pure(self, name):
        return name in self.spec.vocab

    def no_effect(self, name):
        return name in self.opaque

    def immutable_addr(self, addr):
        return True

    def on_backedge(self, st, fn, header, killed):
        ks = [strip(k) for k in killed if k[0] in ('elem', 'iter')]
        for k in list(ks):
            if k[0] == 'elem' and k[2] in NEXTF:
                ks.append(shift(('ld', ('fld', k, NEXTF[k[2]]))))
        if self.spec.canon:
            ks = [rewrite(k, self.spec.canon) for k in ks]
        for e in self.exs:
            if e.elem in ks:
                if e.size is not None:
                    fe = Cx(self, st.facts, {}).st.facts.get(e.elem)
                    if fe is None or fe.hi is None and fe.eq is None:
                        continue
                self.iterations += 1
                ex = dict(st.cl)
                v, miss = evaluate(e.left, self, st.facts, ex)
                nm = e.name
                if v is True and e.stop is not None:
                    v = None
                if v is True:
                    ex[nm] = True
                elif v is None and ex.get(nm) is not True:
                    # evaluated together with other parts it may be irrelevant: remember it as open
                    v2, _ = evaluate(self.spec.report, self, st.facts, dict(ex, **{nm: True}))
                    if v2 is not False:
                        ex[nm] = '?'
                        self.unclear.append((fn.name, header, pretty.pfacts(st.facts), [repr(m) for m in miss]))
                st.cl = tuple(sorted(ex.items(), key=repr))


def default_classify(v):
    if v is None:
        return 'void'
    if v == NULL:
        return 'none'
    if v[0] == 'call' and v[1] == 'make_check_result':
        return 'report'
    if v[0] == 'call' and v[1] == 'alloc_internal_error':
        return 'internal'
    return 'other'


def ret_where(interp):
    pass


def check_table(prog, spec, strict=True):
    """-> dict(violations=[...], undecided=[...], paths=n, ...)"""
    f = prog.fn(spec.fn)
    it = TableInterp(prog, spec)
    args = spec.args or tuple(('p', spec.fn, n) for n in (spec.params or f.params))
    rets = it.call_function(f, args, State())
    cls = spec.classify or default_classify
    viol, und = [], []
    n = {'report': 0, 'none': 0, 'internal': 0, 'other': 0}
    if it.truncated:
        und.append("path limit reached in %s" % sorted(it.truncated))
    for v, st in rets:
        ex = dict(st.cl)
        k = cls(v) if spec.classify is None else spec.classify(v, {x[1] for x in ex if isinstance(x, tuple) and x[0] == 'ev'}, st)
        if k is None:
            continue
        pre, _ = evaluate(spec.pre, it, st.facts, ex)
        if pre is False:
            continue
        n[k] = n.get(k, 0) + 1
        want, missing = evaluate(spec.report, it, st.facts, ex)
        desc = pretty.pfacts(st.facts)
        foreign = [pretty.pfact(a, b) for a, b in st.facts.items()
                   if not understood(a, it.opaque) and not covered(a, spec, it)]
        if k == 'internal':
            viol.append("%s:%d: %s reports an internal error for an input the check is meant to handle, when [%s]"
                        % (f.file, f.line, f.src, desc))
            continue
        if k == 'wrong':
            viol.append("%s:%d: %s: the effect happens on something other than documented, on the path [%s]" % (f.file, f.line, f.src, desc))
            continue
        if k == 'other':
            und.append("%s returns %s" % (f.src, pretty.pt(v)))
            continue
        got = (k == 'report')
        if want is None:
            if foreign:
                und.append("%s: outcome '%s' under [%s] uses a condition outside the rule language: %s" % (f.src, k, desc, '; '.join(foreign)))
            else:
                viol.append("%s:%d: %s: outcome '%s' is reached without establishing [%s]; the path only knows [%s]"
                            % (f.file, f.line, f.src, k, '; '.join(repr(m) for m in missing), desc))
        elif want != got:
            viol.append("%s:%d: %s: outcome '%s' but the documented condition says %s, on the path [%s]"
                        % (f.file, f.line, f.src, k, 'report' if want else 'no report', desc))
    return dict(violations=sorted(set(viol)), undecided=sorted(set(und)), paths=len(rets), outcomes=n, iterations=it.iterations,
                functions=sorted(it.visited_fn), steps=it.steps)


def covered(key, spec, it):
    """does the fact key correspond to an atom of the specification?"""
    k = strip(key)
    for a in all_atoms(spec):
        pred, x, y, pol = it.cmp_parts(State(), a.pred, a.ta, a.tb)
        if pred is None:
            continue
        if k == x or k == ('cmp', pred, x, y):
            return True
    return False


def all_atoms(spec):
    out = []

    def rec(f):
        if isinstance(f, Atom):
            out.append(f)
        for s in f.subs():
            rec(s)
    rec(spec.report)
    rec(spec.pre)
    return out
