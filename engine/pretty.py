"""Readable, canonical rendering of terms and facts."""


def pt(t, E=None):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == 'i':
        return str(t[1])
    if k == 's':
        return '"%s"' % t[1]
    if k == 'fn':
        return t[1]
    if k == 'g':
        return '&' + t[1]
    if k == 'p':
        return t[2] if len(t) > 2 else str(t[1])
    if k == 'ld':
        a = t[1]
        ver = '' if len(t) < 3 or t[2] == 0 else "'"
        if a[0] == 'fld':
            return pt(a[1]) + '->' + a[2].split('.', 1)[1] + ver if True else ''
        if a[0] == 'idx':
            return pt(a[1]) + '[' + pt(a[2]) + ']' + ver
        if a[0] == 'g':
            return a[1].split('#')[-1] + ver
        if a[0] == 'al':
            return 'local.' + a[2] + ver
        return '*' + pt(a) + ver
    if k == 'fld':
        return '&' + pt(t[1]) + '->' + t[2].split('.', 1)[1]
    if k == 'idx':
        return pt(t[1]) + '+' + pt(t[2])
    if k == 'al':
        return '&local.' + t[2]
    if k == 'strval':
        return 'str(' + pt(t[1]) + ')'
    if k == 'call':
        return t[1] + '(' + ', '.join(pt(x) for x in t[2]) + ')'
    if k == 'elem':
        return 'each(' + pt(t[1]) + ')'
    if k == 'iter':
        return 'iter(' + pt(t[1]) + ',' + str(t[2]) + ')'
    if k == 'cmp':
        return '(' + pt(t[2]) + ' ' + t[1] + ' ' + pt(t[3]) + ')'
    if k == 'op':
        return '(' + t[1] + ' ' + ' '.join(pt(x) for x in t[2:]) + ')'
    if k == 'not':
        return '!' + pt(t[1])
    if k == 'sel':
        return 'sel(' + ','.join(pt(x) for x in t[1:]) + ')'
    return k + ':' + ','.join(pt(x) if isinstance(x, tuple) else str(x) for x in t[1:])


def pfact(t, v):
    if t[0] == 'cmp':
        return ('' if v.eq == ('i', 1) else '!') + pt(t)
    s = pt(t)
    if v.eq is not None:
        return '%s==%s' % (s, pt(v.eq))
    r = []
    if v.ne:
        r.append('%s!=%s' % (s, '|'.join(sorted(pt(x) for x in v.ne))))
    if v.lo is not None or v.hi is not None:
        r.append('%s in[%s,%s]' % (s, v.lo, v.hi))
    return ' & '.join(r)


def pfacts(facts):
    return ' && '.join(sorted(pfact(k, v) for k, v in facts.items()))
