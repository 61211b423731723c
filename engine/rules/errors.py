"""R06: an operation that failed is never reported as success by its caller."""
from ..absint import State, NULL, contains
from ..core import Result, loc
from ..paths import PathI, events, fnz
from ..tables import strip
from .. import pretty

# operations whose outcome the callers may ignore: releasing memory, best-effort bookkeeping
BEST_EFFORT = {'append_to_sl', 'add_check', 'mark_transform_interfaces'}


def status_functions(prog):
    return {n for n, f in prog.funcs.items() if 'selint_error' in str(f.retdecl)}


def _parser_actions(prog):
    """The generated parser and what only its actions call: an action has nobody to report a
    status to, the parser goes on with the next statement (its operations report by themselves)."""
    only = {'yyparse'}
    taken = set(prog.address_taken())
    while True:
        more = set()
        for f in prog.funcs.values():
            cs = list(prog.callers(f.name)) if f.internal and f.name not in only and f.name not in taken else []
            if cs and all(c.fn.name in only for c in cs):
                more.add(f.name)
        if not more:
            return only
        only |= more


def check_propagation(prog):
    R = Result()
    R.rule('propagate', 'a function that reports an error status returns success only on paths on which every status it received from an operation it called was success')
    R.rule('loop', 'a loop does not go on past a failed operation')
    R.rule('looked-at', 'no status is dropped, except that of releasing memory')
    SE = status_functions(prog)
    matter = {n for n in SE if not n.startswith('free_') and n not in BEST_EFFORT}
    actions = _parser_actions(prog)
    for f in sorted(prog.funcs.values(), key=lambda f: f.name):
        if f.name in actions or f.file.startswith('lex'):
            continue
        calls = [i for i in f.instrs() if i.op == 'call' and i.callee in matter]
        if not calls:
            continue
        used = set()
        for i in f.instrs():
            for a in i.args:
                if a[0] == 'l':
                    used.add(a[1])
            if i.op == 'phi':
                used |= {v[1] for v, _ in i.x if v[0] == 'l'}
        for i in calls:
            R.n('status results')
            if i.res not in used and not (f.name, i.callee) in DROPPED_OK:
                R.v('looked-at', i.where(), '%s ignores whether %s failed' % (f.src, i.callee))
        if f.name not in SE:
            continue
        R.functions.add(f.name)
        bad = []

        def on_iter(it, st, fn, header, evs, killed):
            for e in evs:
                if e.name in matter and fnz(st, e.ret) is not False and not contains(tuple(st.mem.values()), {e.ret}) and (f.name, e.name) not in DROPPED_OK:
                    if (fn.name, e.name) not in ITER_OK:
                        R.v('loop', e.where, '%s goes on to the next element although %s may have failed' % (fn.src, e.name))
        it = PathI(prog, opaque={n for n in prog.funcs if n != f.name and not (prog.funcs[n].internal)}, on_iter=on_iter, stores=False)
        it.keep = lambda e: e.name in matter
        it.keep_facts = None
        for v, st in it.call_function(f, tuple(('p', f.name, p) for p in f.params), State()):
            R.n('paths')
            if v is None or fnz(st, v) is True:
                continue
            for e in events(st):
                if (f.name, e.name) in DROPPED_OK:
                    continue
                z = fnz(st, e.ret)
                if z is False or strip(v) == strip(e.ret):
                    continue
                R.v('propagate', e.where, '%s can report success although %s failed' % (f.src, e.name))
        if it.truncated:
            R.u('propagate', 'path limit in %s' % f.name)
    R.atleast('status results', 30)
    return R


DROPPED_OK = set()
ITER_OK = set()
