"""A region of a function as a function of its own: from one block up to given stop blocks."""
from .ir import Func, Block, Ins
from .absint import AnalysisBroken


def opnames(o):
    if o[0] == 'l':
        return [o[1]]
    if o[0] == 'ce':
        return [n for x in o[3] for n in opnames(x)]
    return []


def action_switch(f):
    """the switch with the most cases"""
    best = None
    for i in f.instrs():
        if i.op == 'switch' and (best is None or len(i.x[1]) > len(best.x[1])):
            best = i
    if best is None:
        raise AnalysisBroken('no action switch in %s' % f.src)
    return best


def slice_fn(f, name, lab, stop, given=()):
    """stop: {block: code returned on reaching it}; values defined outside the region become parameters
    (as do the stack slots in `given`, in this order, first)"""
    allocas = {i.res: i for i in f.instrs() if i.op == 'alloca'}
    body, work = [], [lab]
    while work:
        b = work.pop()
        if b in body or b in stop:
            continue
        body.append(b)
        work.extend(f.blocks[b].succ)
    defs, used, sty = set(), set(), {}
    inb = set(body)
    for b in body:
        for i in f.blocks[b].ins:
            if i.res is not None:
                defs.add(i.res)
            for o in list(i.args) + ([v for v, pb in i.x if pb in inb] if i.op == 'phi' else []) + ([i.x] if i.op == 'call' and isinstance(i.x, tuple) else []):
                used.update(opnames(o))
            if i.op == 'getelementptr' and i.args[0][0] == 'l':
                sty.setdefault(i.args[0][1], set()).add(i.x)
    free = sorted(u for u in used if u not in defs and u not in allocas)
    g = Func(name)
    g.src, g.module, g.file, g.line, g.internal = f.src, f.module, f.file, f.line, True
    g.retty = f.retty
    g.params = list(given) + free
    g.free, g.sty = free, sty

    def lb(x):
        return 'vf.stop%d' % stop[x] if x in stop else x

    def blk(n):
        b = Block(n)
        b.fn = g
        g.blocks[n] = b
        g.order.append(n)
        return b
    e = blk('vf.entry')
    for a in sorted((used & set(allocas)) - set(given)):
        e.ins.append(allocas[a])
    j = Ins('br')
    j.x, j.args, j.bb, j.fn, j.idx, j.file, j.line, j.uid = [lb(lab)], [], e, g, len(e.ins), f.file, f.line, name + '.br'
    e.ins.append(j)
    e.succ = [j.x[0]]
    for b in (x for x in f.order if x in inb):
        o = f.blocks[b]
        nb = blk(b)
        nb.ins = list(o.ins)
        t = o.ins[-1]
        if t.op in ('br', 'switch') and any(s in stop for s in o.succ):
            nt = Ins(t.op)
            for s in Ins.__slots__:
                if hasattr(t, s):
                    setattr(nt, s, getattr(t, s))
            nt.x = [lb(x) for x in t.x] if t.op == 'br' else (lb(t.x[0]), [(c, lb(x)) for c, x in t.x[1]])
            nb.ins[-1] = nt
        nb.succ = list(dict.fromkeys(lb(x) for x in o.succ))
    for k in sorted(set(stop.values())):
        if not any('vf.stop%d' % k in g.blocks[b].succ for b in g.order):
            continue
        nb = blk('vf.stop%d' % k)
        r = Ins('ret')
        r.args, r.bb, r.fn, r.idx, r.uid, r.file, r.line = [('i', k)], nb, g, 0, '%s.ret%d' % (name, k), f.file, f.line
        nb.ins.append(r)
    for b in g.order:
        for s in g.blocks[b].succ:
            g.blocks[s].pred.append(b)
    for b in body:
        for i in f.blocks[b].ins:
            if i.line:
                g.line, g.file = i.line, i.file
                break
        else:
            continue
        break
    return g
