"""R32: the data of a statement is only read as what the kind of the statement says it holds.

Every function that reads statement data is judged on all its paths, the kind of each statement being what the path has tested so far.
What it needs from its caller (data handed in as a parameter, or a statement of a kind it does not test itself) is passed on to every call site."""
from ..absint import State, NULL, walk
from ..core import Result, loc
from ..paths import PathI, Ev
from .. import pretty
from . import registration

HOLDS = {'av_rule_data': ('AV_RULE', 'XAV_RULE'), 'xav_rule_data': ('XAV_RULE',), 'type_transition_data': ('TT_RULE',), 'role_transition_data': ('RT_RULE',), 'header_data': ('HEADER',),
         'role_allow_data': ('ROLE_ALLOW',), 'role_types_data': ('ROLE_TYPES',), 'declaration_data': ('DECL',), 'if_call_data': ('IF_CALL',), 'fc_entry': ('FC_ENTRY',),
         'attribute_data': ('TYPE_ATTRIBUTE', 'ROLE_ATTRIBUTE'), 'gen_require_data': ('GEN_REQ',)}
STR = ('ALIAS', 'TYPE_ALIAS', 'PERMISSIVE', 'INTERFACE_DEF', 'TEMP_DEF', 'M4_CALL', 'M4_SIMPLE_MACRO')
STRFN = {'strcmp', 'strncmp', 'strlen', 'strdup', 'strstr', 'strchr', 'strrchr', 'strcasecmp', 'strspn', 'strcspn', 'strcpy', 'strncpy', 'strcat', 'strncat', 'strtol', 'atoi', '__isoc23_strtol'}


def node_of(t):
    """the statement a term is the data of"""
    while t[0] == 'dup':
        t = t[1]
    if t[0] == 'ld' and t[1][0] == 'fld' and t[1][2] == 'policy_node.data':
        return t[1][1]
    return None


class PayI(PathI):
    def __init__(self, prog, root, opaque, contract, **kw):
        super().__init__(prog, opaque, pure=opaque, quiet={}, immutable=True, stores=False, keep=lambda e: False, **kw)
        self.root, self.contract = root, contract
        self.keep_facts = self.matters
        self.never = False
        self.need, self.wrong, self.seen, self.unsure = {}, {}, 0, set()      # need: parameter -> what its data is read as
        self.kinds = {n: v for n, v in prog.enumvals.items() if n.startswith('NODE_')}

    def matters(self, k, v):
        """what is known of statements; what is known of lists and texts cannot tell their kind"""
        if k[0] == 'ld' and k[1][0] == 'fld':
            return k[1][2].startswith('policy_node.')
        if k[0] in ('elem', 'iter'):
            return 'string_list' not in str(k[2])
        if k[0] == 'cmp':
            return not any(x[0] == 'strval' or x[0] == 'fld' and x[2].split('.')[0] in HOLDS for x in walk(k))
        return k[0] in ('op', 'p')

    def on_enter(self, st, fn, header):
        pass

    def on_backedge(self, st, fn, header, killed):
        pass

    def _edge(self, f, cfg, b, succ, env, st, lastvals):
        e, s = super()._edge(f, cfg, b, succ, env, st, lastvals)
        if s is not None:               # what is in lists does not matter here
            for k in [k for k in s.mem if k[0] == 'fld' and k[2].startswith('string_list.')]:
                del s.mem[k]
        return e, s

    def possible(self, st, node):
        fl = st.val(self.load(st, ('fld', node, 'policy_node.flavor')))
        if fl[0] == 'i':
            return {fl[1]}
        v = st.vs(fl)
        if v is None:
            return set(self.kinds.values())
        if v.eq is not None:
            return {v.eq[1]}
        return {x for x in self.kinds.values() if ('i', x) not in v.ne and x not in v.ne and (v.lo is None or x >= v.lo) and (v.hi is None or x <= v.hi)}

    def use(self, st, ins, t, kind):
        """the data t is read as kind (a structure, or str)"""
        if t[0] == 'p' and t[1] == self.root:
            self.need.setdefault(t[2], set()).add(kind)
            return
        node = node_of(t)
        if node is None or t == NULL:
            return
        self.seen += 1
        ok = {self.kinds['NODE_' + k] for k in (STR if kind == 'str' else HOLDS[kind])}
        can = self.possible(st, node)
        odd = can - ok
        if odd:
            names = sorted(n[5:].lower() for n, v in self.kinds.items() if v in odd)
            told = [x for x in walk(node) if x[0] == 'call' and x[1] != 'dfs_next' and x[1] in self.prog.funcs]
            if told:                # the function that found it may have tested its kind
                self.unsure.add('%s: data of %s' % (ins.where(), pretty.pt(node)))
            else:
                self.wrong.setdefault((ins.where(), kind, pretty.pt(node)), names)
            if not told and (not can & ok or any(x[0] in ('elem', 'iter') for x in walk(node))):
                self.never = True

    def on_load(self, st, ins, addr, val):
        if addr[0] == 'fld' and addr[2].split('.')[0] in HOLDS:
            self.use(st, ins, addr[1], addr[2].split('.')[0])
        super().on_load(st, ins, addr, val)

    def on_call(self, st, ins, name, args):
        if name in STRFN:
            for a in args:
                if node_of(a):
                    self.use(st, ins, a, 'str')
        elif name in self.prog.funcs and self.no_effect(name):
            for i, a in enumerate(args):
                for k in self.contract.get(name, {}).get(i) or (('str',) if node_of(a) and not name.startswith('free_') else ()):
                    self.use(st, ins, a, k)
        return super().on_call(st, ins, name, args)


def check_payload(prog):
    R = Result()
    R.rule('payload', 'on every path the data of a statement is only read as the structure (or text) the kinds tested on that path hold; a function that relies on its caller for it is judged at every call')
    calls = {n: {i.x[1] for b in f.blocks.values() for i in b.ins if i.op == 'call' and i.x[0] == 'g'} for n, f in prog.funcs.items()}
    callers = {}
    for n, cs in calls.items():
        for c in cs:
            callers.setdefault(c, set()).add(n)
    names = set(HOLDS) | {'policy_node.data'}
    reads = {n for n, f in prog.funcs.items() if n != 'yyparse' and any(i.op == 'getelementptr' and any(k in str(i.ty) or k in str(i.x) for k in HOLDS) or i.op == 'getelementptr' and 'policy_node' in str(i.ty) + str(i.x) for b in f.blocks.values() for i in b.ins)}
    order, seen = [], set()

    def visit(n):
        if n not in seen:
            seen.add(n)
            for c in sorted(calls[n]):
                if c in prog.funcs:
                    visit(c)
            order.append(n)
    for n in sorted(prog.funcs):
        visit(n)
    it, rets = registration.run_once(prog, 'C', None, registration.NONE, 0)
    attached = {}
    for v, st in rets:
        for e in st.cl:
            if isinstance(e, tuple) and e[1][0] == 'i' and e[3][0] == 'fn':
                attached.setdefault(e[3][1], set()).add(e[1][1])
    probe = PayI(prog, '', set(), {})
    tests = {n for n, f in prog.funcs.items() if len(f.blocks) < 12 and not probe.cfg(f).headers and any(i.op == 'getelementptr' and 'policy_node' in str(i.ty) + str(i.x) for b in f.blocks.values() for i in b.ins)
             and n not in calls[n]}      # short ones without loops: what they tell about a kind is followed
    contract, leans = {}, set()      # leans: needs the kind of a statement tested by its caller
    for n in order:
        if n == 'yyparse' or n not in reads and not (calls[n] & (set(contract) | leans)):
            continue
        f = prog.funcs[n]
        opq = {m for m in prog.funcs if m not in leans and m not in tests and m != n}
        wrong, never = {}, False
        for flavor in sorted(attached.get(n, ())) or (None,):
            st = State()
            if flavor is not None:
                st.mem[('fld', ('p', n, f.params[1]), 'policy_node.flavor')] = ('i', flavor)
            p = PayI(prog, n, opq, contract)
            p.call_function(f, tuple(('p', n, x) for x in f.params), st)
            for u in sorted(p.unsure):
                R.u('payload', u)
            R.n('functions x kinds')
            R.n('reads', p.seen)
            R.functions.add(n)
            if p.truncated:
                R.u('payload', '%s has too many paths' % n)
            for prm, ks in p.need.items():
                contract.setdefault(n, {}).setdefault(f.params.index(prm), set()).update(ks)
            wrong.update(p.wrong)
            never |= p.never
        if wrong and not never and n not in attached and callers.get(n, set()) - {'yyparse'}:
            leans.add(n)
            continue
        for (where, kind, node), odd in sorted(wrong.items()):
            R.v('payload', where, '%s: the data of %s is read as %s although it can be a statement of kind %s' % (n, node, kind, ', '.join(odd[:4]) + (' or another' if len(odd) > 4 else '')), key='%s|%s|%s' % (n, kind, node))
    for n in contract:
        R.n('functions given data')
    R.atleast('reads', 100)
    return R
