"""C-006: when two neighbouring requirements count as unordered or repeated.
The check is interpreted over require blocks of every relevant shape: all pairs of kinds under several configured orders, and all pairs of names
from the classes the comparison distinguishes (equal, prefix, suffix _t, next character below or above '_')."""
from itertools import permutations, product
from ..absint import NULL
from ..core import Result, loc
from ..paths import events
from ..tables import strip
from .required import ShapeI, Scen, Endless, BL, DECL, START, ST
from .. import pretty

KINDS = ('DECL_TYPE', 'DECL_ATTRIBUTE', 'DECL_ROLE', 'DECL_ATTRIBUTE_ROLE', 'DECL_BOOL', 'DECL_CLASS')
NAMES = ('x', 'x_', 'x_t', 'x__', 'x__y', 'x_t_t', 'x_tt', 'x_ta', 'xt', 'xa_t', 'x_a', 'x_a_t', 'x_B_t', 'x9', 'x_exec_t', '_t', 't', '_', '$1_t', '$1')


def key(n):
    """a final _t is ignored: what follows it is compared as '_'"""
    return n[:-2] + '__' if n.endswith('_t') else n


def run(prog, R, f, tree, order, same):
    """(reported texts or None, where) | 'odd'"""
    sc = Scen(prog, tree)
    C = ('al', 'scen', 'conf')
    m = sc.st.mem
    m[('fld', sc.data, 'check_data.config_check_data')] = C
    for i, k in enumerate(order):
        m[('idx', ('fld', C, 'config_check_data.order_requires'), ('i', i))] = ('i', prog.enum(k))
    m[('fld', C, 'config_check_data.ordering_requires_same_flavor')] = ('i', 1 if same else 0)
    it = ShapeI(prog, sc, more_opaque=('decl_flavor_to_string',))
    R.n('require blocks interpreted')
    try:
        rets = it.call_function(f, (sc.data, sc.mark['N']), sc.st)
    except Endless:
        return 'odd', 'a loop does not come to an end'
    finally:
        R.functions |= it.visited_fn
    if sc.odd or sc.bad or len(rets) != 1 or it.truncated:
        return 'odd', (sc.odd + sc.bad + ['%d outcomes' % len(rets)])[0]
    v, st = rets[0]
    evs = [e for e in events(st) if e.name == 'make_check_result']
    if any(e.name == 'alloc_internal_error' for e in events(st)):
        return 'internal', loc(f)
    if v == NULL:
        return None, loc(f)
    if len(evs) != 1 or len(evs[0].args) < 3 or strip(evs[0].args[2])[0] != 's':
        return 'odd', 'a result of unknown text'
    fmt = strip(evs[0].args[2])[1]
    kind = 'unordered' if fmt.startswith('Unordered') else 'repeated' if fmt.startswith('Repeated') else 'empty' if fmt.startswith('Empty') else fmt
    return (kind,) + tuple(strip(a)[1] if strip(a)[0] == 's' else '*' for a in evs[0].args[3:]), evs[0].where


def block(*ds):
    return ('NODE_TE_FILE', {}, (('NODE_GEN_REQ', dict(mark='N'), (START(),) + tuple(DECL(d[1], d[0]) if d else BL(DECL('q'), kind='NODE_IFDEF') for d in ds)),))


def check(prog):
    R = Result()
    R.rule('requirement order', 'of two adjacent requirements, the later is unordered exactly if its kind comes earlier in the configured order, or its kind is the same and its name sorts earlier (a final _t ignored) with that comparison enabled')
    R.rule('repeated requirement', 'a requirement is called repeated exactly if its neighbour has the same kind and the same name, with names compared')
    f = prog.fn('check_unordered_declaration_in_require')
    default = KINDS
    orders = [default, tuple(reversed(default)), ('DECL_BOOL', 'DECL_TYPE', 'DECL_CLASS', 'DECL_ROLE', 'DECL_ATTRIBUTE', 'DECL_ATTRIBUTE_ROLE'), ('DECL_CLASS', 'DECL_ROLE', 'DECL_TYPE', 'DECL_ATTRIBUTE_ROLE', 'DECL_BOOL', 'DECL_ATTRIBUTE')]
    bad = set()

    def want(what, tree, order, same, exp):
        got, where = run(prog, R, f, tree, order, same)
        if got == 'odd':
            R.u('requirement order', '%s: %s' % (what, where))
            return got
        if got == 'internal':
            R.v('requirement order', where, '%s: an internal error is reported' % what)
            return got
        g, shown = (got[0] if got else None), (tuple(x for x in got[1:] if x != '*') if got else None)
        if exp is not None and g in exp and g is not None and shown != exp[g]:
            R.v('requirement order', where, '%s: the finding names %s' % (what, ' '.join(map(str, shown))))
        elif g not in (exp or {None: None}):
            R.v('repeated requirement' if g == 'repeated' or 'repeated' in (exp or {}) else 'requirement order', where, '%s: %s, but %s' % (
                what, 'called %s' % g if g else 'nothing is reported', ' or '.join('%s is expected' % k if k else 'nothing is expected' for k in (exp or {None: 0}))))
        return got
    for order in orders:
        for a, b in product(KINDS, repeat=2):
            for same in (0, 1):
                for n1, n2 in (('k', 'm'), ('m', 'k'), ('k', 'k')):
                    if order is not default and n1 == 'k' and n2 == 'm':
                        continue
                    if a == b:
                        exp = None if not same or n1 < n2 else {'repeated': (n1,)} if n1 == n2 else {'unordered': (n1, n2)}
                    else:
                        exp = {'unordered': (n1, n2)} if order.index(a) > order.index(b) else None
                    want('%s %s before %s %s, names %scompared, order %s' % (a, n1, b, n2, '' if same else 'not ', ' '.join(k[5:].lower() for k in order)), block((a, n1), (b, n2)), order, same, exp)
    for n1, n2 in product(NAMES, repeat=2):
        t = block(('DECL_TYPE', n1), ('DECL_TYPE', n2))
        if n1 == n2:
            exp = {'repeated': (n1,)}
        elif key(n1) == key(n2):
            exp = {None: None, 'unordered': (n1, n2)}
        else:
            exp = {'unordered': (n1, n2)} if key(n1) > key(n2) else None
        got = want('type %s before type %s' % (n1, n2), t, default, 1, exp)
        if key(n1) == key(n2) and n1 < n2 and got != 'odd':
            back, where = run(prog, R, f, block(('DECL_TYPE', n2), ('DECL_TYPE', n1)), default, 1)
            if back != 'odd' and (got is None) == (back is None):
                R.v('requirement order', where, 'types %s and %s: %s order is reported' % (n1, n2, 'neither' if got is None else 'either'))
        want('type %s before type %s, names not compared' % (n1, n2), t, default, 0, None)
    stem = 'domain_with_a_rather_long_name_for_user_applications_x'
    for k in range(1, len(stem)):
        a, b = stem[:k] + 'a' + stem[k:], stem[:k] + 'b' + stem[k:][:3]
        want('type %s before type %s' % (a, b), block(('DECL_TYPE', a), ('DECL_TYPE', b)), default, 1, None)
        want('type %s before type %s' % (b, a), block(('DECL_TYPE', b), ('DECL_TYPE', a)), default, 1, {'unordered': (b, a)})
        want('type %s repeated' % stem[:k], block(('DECL_TYPE', stem[:k]), ('DECL_TYPE', stem[:k])), default, 1, {'repeated': (stem[:k],)})
    T = 'DECL_TYPE'
    for ds, exp in ((((T, 'a'), (T, 'b'), (T, 'c')), None), (((T, 'b'), (T, 'a'), (T, 'c')), {'unordered': ('b', 'a')}), (((T, 'a'), (T, 'c'), (T, 'b')), {'unordered': ('c', 'b')}),
                    (((T, 'c'), (T, 'd'), (T, 'b'), (T, 'a')), {'unordered': ('d', 'b')}), (((T, 'a'), (T, 'b'), (T, 'b')), {'repeated': ('b',)}), (((T, 'b'), (T, 'b'), (T, 'a')), {'repeated': ('b',)}),
                    (((T, 'a'),), None), ((), {'empty': ()}), (((T, 'a'), (T, 'b'), ('DECL_CLASS', 'a'), ('DECL_BOOL', 'x')), {'unordered': ('a', 'x')}), ((None,), None), (((T, 'a'), None, (T, 'b')), None),
                    ((None, (T, 'b'), (T, 'a')), {'unordered': ('b', 'a')}), (((T, 'a'), (T, 'b'), None, (T, 'd'), (T, 'c')), {'unordered': ('d', 'c')}), ((None, None, (T, 'a'), None), None)):
        want('a block of %s' % (' '.join(d[1] if d else '<ifdef>' for d in ds) or 'nothing'), block(*ds), default, 1, exp)
    R.atleast('require blocks interpreted', 500)
    return R
