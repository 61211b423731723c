"""R15: releasing, followed on concrete trees and lists: every object released once, by its releaser, not looked at afterwards."""
import sys
from ..absint import NULL
from ..core import Result, loc
from .. import pretty
from .required import Endless
from .terminate import NameI, World
from .treefn import OWN, NODEREL, RELEASERS, FR, FSL

NODE = 'policy_node.'


class FreeI(NameI):
    """RELEASERS release what they are given; the walked function itself is followed"""

    def __init__(self, prog, scen, walked, owner, inside):
        self.walked, self.owner, self.inside = walked, owner, inside
        super().__init__(prog, scen, {}, depth=60, real=walked)
        self.opq = (self.opq | set(RELEASERS)) - set(walked)

    def on_call(self, st, ins, name, args):
        if name in RELEASERS and name not in self.walked:
            o = args[0]
            if o == NULL:
                return [(('i', 0), st)]
            if self.root(o) not in self.owner and o[0] == 'al':
                self.scen.bad.append('%s: what only was referred to is released' % ins.where())
                return [(('i', 0), st)]
            if o not in self.owner:
                self.scen.odd.append('%s: %s of %s' % (ins.where(), name, pretty.pt(o)))
                return None
            if ('gone', o) in st.cl:
                self.scen.bad.append('%s: %s is released twice' % (ins.where(), self.called(o)))
            how = self.owner[o][0]
            gone = [o]
            if name in how:
                gone += [m for m in self.inside.get(o, ()) if name != 'free']
            elif name != 'free' or o not in self.inside:
                self.scen.bad.append('%s: %s is released by %s instead of %s' % (ins.where(), self.called(o), name, how[0]))
            st.cl = st.cl + tuple(('gone', g) for g in gone)
            return [(('i', 0), st)]
        return super().on_call(st, ins, name, args)

    def called(self, o):
        return self.owner[o][1] if o in self.owner else pretty.pt(o)

    def root(self, a):
        while a[0] in ('fld', 'idx'):
            a = a[1]
        return a

    def touched(self, st, ins, addr):
        a = self.root(addr)
        if a == NULL:
            self.scen.bad.append('%s: NULL is followed' % ins.where())
        elif ('gone', a) in st.cl:
            self.scen.bad.append('%s: %s is accessed after it was released' % (ins.where(), self.called(a)))

    def on_load(self, st, ins, addr, val):
        self.touched(st, ins, addr)

    def on_store(self, st, ins, addr, val):
        self.touched(st, ins, addr)


class Heap:
    def __init__(self, prog):
        self.prog, self.w, self.owner, self.inside, self.k = prog, World(), {}, {}, 0

    def obj(self, what, how, fields=()):
        o = ('al', 'scen', 'H%d' % self.k)
        self.k += 1
        self.owner[o] = (how, what)
        for k, v in fields:
            self.w.st.mem[('fld', o, k)] = v
        return o

    def data(self, kind, what):
        rel = NODEREL.get(kind)
        if rel is None:
            return self.obj('the text of %s' % what, FR)
        parts = [(m, self.obj('the %s of the data of %s' % (m.split('.')[1], what), how)) for m, how in OWN[rel].items()]
        d = self.obj('the data of %s' % what, (rel,), parts)
        self.inside[d] = [o for _, o in parts]
        return d

    def node(self, kind, what, data=True, exc=True, children=(), parent=None):
        n = self.obj(what, FR)
        f = lambda m, v: self.w.st.mem.__setitem__(('fld', n, NODE + m), v)
        f('flavor', ('i', kind if isinstance(kind, int) else self.prog.enum(kind)))
        f('data', self.data(kind, what) if data else NULL)
        f('exceptions', self.obj('the suppressed checks of %s' % what, FR) if exc else NULL)
        f('lineno', ('p', 'scen', 'line%d' % self.k))
        for m in ('parent', 'next', 'prev'):
            f(m, NULL)
        f('first_child', self.chain(children, n))
        return n

    def chain(self, nodes, parent=NULL):
        for a, b in zip(nodes, nodes[1:]):
            self.w.st.mem[('fld', a, NODE + 'next')] = b
            self.w.st.mem[('fld', b, NODE + 'prev')] = a
        for a in nodes:
            self.w.st.mem[('fld', a, NODE + 'parent')] = parent
        return nodes[0] if nodes else NULL

    def run(self, fn, arg):
        it = FreeI(self.prog, self.w, (fn,), self.owner, self.inside)
        old = sys.getrecursionlimit()
        try:
            sys.setrecursionlimit(max(old, 12000))
            return it, it.call_function(self.prog.fn(fn), (arg,), self.w.st)
        except Endless:
            return it, None
        finally:
            sys.setrecursionlimit(old)


def trees(h, kind, kinds):
    """(title, node to release) on a fresh heap"""
    D = 'NODE_AV_RULE'
    yield 'alone', lambda h: h.node(kind, 'the node')
    yield 'without data', lambda h: h.node(kind, 'the node', data=False, exc=False)
    yield 'with children', lambda h: h.node(kind, 'the node', children=[h.node(D, 'a child'), h.node(kind, 'the second child', exc=False), h.node('NODE_DECL', 'the last child')])
    yield 'followed by others', lambda h: h.chain([h.node(kind, 'the node'), h.node(D, 'the next node'), h.node(kind, 'the last node')])
    yield 'the last of three', lambda h: h.chain([h.node(D, 'the first node'), h.node('NODE_DECL', 'the second node', exc=False), h.node(kind, 'the last node')])
    yield 'with nested children, followed by others', lambda h: h.chain([
        h.node(kind, 'the node', children=[h.node(D, 'a child', children=[h.node('NODE_IF_CALL', 'a grandchild'), h.node(kind, 'the second grandchild')]), h.node('NODE_TT_RULE', 'the second child', data=False)]),
        h.node('NODE_IF_CALL', 'the next node', children=[h.node(kind, 'a child of the next node')])])
    yield 'an only child\'s only child', lambda h: h.node(D, 'the node', children=[h.node(D, 'the child', children=[h.node(kind, 'the grandchild')])])


def check_trees(prog, R):
    fn = 'free_policy_node'
    f = prog.fn(fn)
    for num in range(0, prog.enum('NODE_ERROR') + 1):
        kind = ([k for k in NODEREL if prog.enum(k) == num] or [num])[0]
        R.n('node kinds')
        for title, mk in trees(None, kind, None):
            h = Heap(prog)
            judge(prog, R, 'node', h, fn, mk(h), 'a node of kind %s %s' % (kind, title))
    it, outs = Heap(prog).run(fn, NULL)
    R.functions |= it.visited_fn


def judge(prog, R, rule, h, fn, arg, title):
    it, outs = h.run(fn, arg)
    R.n('releases followed')
    R.functions |= it.visited_fn
    f = prog.fn(fn)
    if h.w.bad:
        R.v(rule, loc(f), '%s: %s' % (title, h.w.bad[0]), key='%s|%s' % (fn, h.w.bad[0]))
        return
    if outs is None or h.w.odd or it.truncated or not outs:
        R.u(rule, '%s: %s' % (title, h.w.odd[0] if h.w.odd else 'cannot be followed'))
        return
    for _, st in outs:
        kept = [w for o, (how, w) in h.owner.items() if ('gone', o) not in st.cl]
        if not kept:
            continue
        R.v(rule, loc(f), '%s: %s is not released' % (title, kept[0]), key='%s|%s' % (fn, kept[0]))


def string_list(h, n, holes=()):
    els = [h.obj('element %d' % i, FR, [('string_list.string', NULL if i in holes else h.obj('the string of element %d' % i, FR)), ('string_list.has_incorrect_space', ('p', 'scen', 'space%d' % i)), ('string_list.arg_start', ('p', 'scen', 'start%d' % i)), ('string_list.next', NULL)]) for i in range(n)]
    return link(h, els, 'string_list.next')


def link(h, els, m):
    for a, b in zip(els, els[1:] + [NULL]):
        h.w.st.mem[('fld', a, m)] = b
    return els[0] if els else NULL


def decl_list(h, n, holes=()):
    els = []
    for i in range(n):
        d = NULL
        if i not in holes:
            parts = [(m, h.obj('the %s of declaration %d' % (m.split('.')[1], i), how)) for m, how in OWN['free_declaration_data'].items()]
            d = h.obj('declaration %d' % i, ('free_declaration_data',), parts)
            h.inside[d] = [o for _, o in parts]
        els.append(h.obj('element %d' % i, FR, [('decl_list.decl', d)]))
    return link(h, els, 'decl_list.next')


def file_list(h, n, holes=()):
    els = []
    for i in range(n):
        fl = h.obj('file %d' % i, FR, [('policy_file.filename', h.obj('the name of file %d' % i, FR)), ('policy_file.ast', NULL if i in holes else h.obj('the tree of file %d' % i, ('free_policy_node',)))])
        els.append(h.obj('element %d' % i, FR, [('policy_file_node.file', fl)]))
    head = link(h, els, 'policy_file_node.next')
    return h.obj('the list itself', FR, [('policy_file_list.head', head), ('policy_file_list.tail', els[-1] if els else NULL)])


def call_list(h, n, holes=()):
    els = [h.obj('element %d' % i, FR, [('if_call_list.call', NULL if i in holes else ('al', 'scen', 'call%d' % i))]) for i in range(n)]
    return link(h, els, 'if_call_list.next')


LISTS = (('free_if_call_list', call_list, 'list of calls'), ('free_string_list', string_list, 'string list'), ('free_decl_list', decl_list, 'list of declarations'), ('free_file_list', file_list, 'list of files'))


def check_lists(prog, R):
    for fn, mk, what in LISTS:
        if fn not in prog.funcs:
            continue
        for n in (0, 1, 2, 3, 5):
            for holes in ((), (0,), (n - 1,)):
                if holes and not 0 <= holes[0] < n:
                    continue
                h = Heap(prog)
                judge(prog, R, 'list', h, fn, mk(h, n, holes), 'a %s with %d element%s' % (what, n, 's' * (n != 1)))
                R.n('lists')


def check_release_followed(prog):
    R = Result()
    R.rule('node', 'releasing a node releases its data by the releaser of its kind, its suppressed checks, its children and the statements after it, each once, and looks at nothing it has released')
    R.rule('list', 'releasing a list releases every element and what the element owns, once, and looks at nothing it has released')
    check_trees(prog, R)
    check_lists(prog, R)
    R.atleast('node kinds', 30)
    R.atleast('releases followed', 100)
    return R
