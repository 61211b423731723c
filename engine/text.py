"""Path interpretation of code that takes text apart: strtok() yields the tokens of its text in turn."""
from .absint import NULL, contains, walk
from .paths import PathI, Ev, events, fnz, fval, known_null
from .tables import strip


def canon(t):
    """address of a character, base + 0 written as base"""
    if t[0] == 'idx' and t[2] == NULL:
        return canon(t[1])
    return t


class TextI(PathI):
    def on_call(self, st, ins, name, args):
        if name in ('strtok', 'strtok_r', '__strtok_r'):
            ctx = ('tokctx',) if name == 'strtok' else ('tokctx', args[2])
            d = args[1]
            if args[0] != NULL:
                src, k = canon(args[0]), 0
                n = st.mem.get(('tokstarts', src), 0)
                st.mem[('tokstarts', src)] = n + 1
            else:
                cur = st.mem.get(ctx)
                if cur is None:
                    return None
                src, n, k = cur
                prev = ('tok', src, n, k - 1)
                if known_null(st, prev):
                    return [(NULL, st)]
            st.mem[ctx] = (src, n, k + 1)
            t = ('tok', src, n, k)
            st.mem[('delim', t)] = d
            for x in list(st.facts):
                if contains(x, {t}):
                    del st.facts[x]
            self.ev(st, Ev('call', name, args, t, ins.where()))
            return [(t, st)]
        if name == 'strdup' and name not in self.opq:
            self.ev(st, Ev('call', name, args, ('dup', canon(args[0]), ins.uid), ins.where()))
            t = ('dup', canon(args[0]), ins.uid)
            st.assume_ne(t, NULL)
            return [(t, st)]
        if name in ('strcpy', 'strcat', 'strncpy', 'strncat', 'stpcpy') and name not in self.prog.funcs:
            v = args[0]
            self.ev(st, Ev('call', name, args, v, ins.where()))
            self.forget_text(st, args[0])
            return [(v, st)]
        if name == 'memset' and name not in self.prog.funcs:
            if args[1] == NULL:
                for k in list(st.mem):
                    r = k
                    while r[0] in ('fld', 'idx'):
                        r = r[1]
                    if r == args[0]:
                        del st.mem[k]
                st.mem[('zero', args[0])] = ('i', 1)
            return [(args[0], st)]
        if name == 'free':
            self.ev(st, Ev('call', name, args, None, ins.where()))
            return [(NULL, st)]
        return super().on_call(st, ins, name, args)

    def on_load(self, st, ins, addr, val):
        a = addr[1] if addr[0] == 'idx' else addr
        if a[0] in ('iter', 'tok', 'dup', 'p', 'call', 'elem', 'phi') and ins.ty == 'i8':
            st.assume_ne(a, NULL)
        super().on_load(st, ins, addr, val)

    def forget_text(self, st, dst):
        r = troot(dst)
        for k in list(st.mem):
            if k[0] in ('idx', 'iter', 'p', 'tok') and troot(k) == r:
                del st.mem[k]


def troot(t):
    """the text a pointer into it was derived from"""
    while True:
        if t[0] == 'idx':
            t = t[1]
        elif t[0] in ('iter', 'prev'):
            t = t[1]
        else:
            return t


def tok(src, n, k):
    return ('tok', src, n, k)


def char(st, base, k):
    """(known value, excluded values) of the k-th character of a text"""
    base = canon(base)
    for f, v in st.facts.items():
        if f[0] == 'ld':
            a = f[1]
            if a[0] == 'idx' and canon(a[1]) == base and a[2] == ('i', k) or k == 0 and canon(a) == base:
                if v.eq is not None:
                    return v.eq[1], frozenset()
                return None, frozenset(x[1] for x in v.ne)
    return None, frozenset()


def scanned(st, base, c):
    """has the text been searched for character c: True found, False not found, None not searched"""
    base = canon(base)
    for f, v in st.facts.items():
        if f[0] == 'ld' and v.eq is not None:
            a = f[1]
            it = a[2] if a[0] == 'idx' and canon(a[1]) == base else a if a[0] == 'iter' and canon(a[1]) == base else None
            if it is not None and it[0] == 'iter':
                if v.eq == ('i', ord(c)):
                    return True
                if v.eq == NULL and not any(True for _ in ()):
                    return False
        if f[0] == 'call' and f[1] in ('strchr', 'strrchr') and canon(f[2][0]) == base and f[2][1] == ('i', ord(c)):
            n = fnz(st, f)
            if n is not None:
                return n
    return None
