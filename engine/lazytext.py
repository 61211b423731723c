"""Deciding a function of one text for every text.

The text is chosen one character at a time, only when the program looks at it.  At each first look the state of the
analysis (live values, memory, position relative to the end of what is known) together with the state of the documented
automaton forms a configuration; a configuration met before is not explored again.  The exploration ends when every
configuration is known: then the program agrees with the automaton on every text over the alphabet, whatever its length.
The alphabet holds every character the program or the documentation distinguishes, and one for all others."""
from collections import deque
from .absint import NULL, State
from .rules.required import ShapeI, Endless, text, place
from . import pretty

T = ('al', 'scen', 'TEXT')


WINDOW = 2       # how far behind the furthest character looked at a program may go back


class NeedChar(Exception):
    def __init__(self, k):
        self.k, self.frames, self.st = k, [], None


class LazyI(ShapeI):
    def __init__(self, prog, scen, word, done, **kw):
        self.word, self.done, self.far, self.again = word, done, 0, False
        kw.setdefault('more_opaque', ())
        super().__init__(prog, scen, **kw)

    def on_backedge(self, st, f, header, killed):
        pass

    def looked(self, k, to=None):
        """characters k..to are looked at: going back further than the window ends the argument by configurations"""
        if k < self.far - WINDOW + 1:
            self.again = True
        self.far = max(self.far, k if to is None else to)

    def char(self, k, where):
        self.looked(k)
        if k < 0 or k > len(self.word) and self.done:
            self.scen.bad.append('%s: reads character %d of a text of %d' % (where, k, len(self.word)))
            raise Endless()
        if k < len(self.word):
            c = ord(self.word[k])
            return ('i', c if c < 128 else c - 256)
        if self.done:
            return NULL
        raise NeedChar(k)

    def init_load(self, st, addr):
        b, k = place(addr)
        if b == T:
            return self.char(k, 'the function')
        return super().init_load(st, addr)

    def whole(self, t):
        """the text from t on, as a string, when t is in T"""
        b, k = place(t)
        if b != T:
            return text(t)
        self.looked(k, len(self.word))
        if not self.done:
            raise NeedChar(len(self.word))
        return self.word[k:] if 0 <= k <= len(self.word) else None

    def on_call(self, st, ins, name, args):
        if name == 'strlen':
            w = self.whole(args[0])
            if w is not None:
                return [(('i', len(w)), st)]
        if name in ('strcmp', 'strncmp') and name not in self.prog.funcs:
            n = args[2] if name == 'strncmp' else None
            if n is None or n[0] == 'i':
                ts = []
                for a in args[:2]:
                    b, k = place(a)
                    if b == T:
                        m = 10 ** 6 if n is None else n[1]
                        if not self.done and len(self.word) - k < m:
                            raise NeedChar(len(self.word))
                        self.looked(k, min(len(self.word), k + m))
                        ts.append(self.word[k:])
                    else:
                        ts.append(text(a))
                if None not in ts:
                    a, b = ts
                    if n is not None:
                        a, b = a[:n[1]], b[:n[1]]
                    return [(('i', (a > b) - (a < b)), st)]
        if name in ('strspn', 'strcspn') and place(args[0])[0] == T and text(args[1]) is not None:
            b, k = place(args[0])
            self.looked(k, len(self.word))
            n = 0
            while k + n < len(self.word) and (self.word[k + n] in text(args[1])) == (name == 'strspn'):
                n += 1
            if k + n >= len(self.word) and not self.done:
                raise NeedChar(len(self.word))
            return [(('i', n), st)]
        if name in ('strchr', 'strrchr') and args[1][0] == 'i':
            w = self.whole(args[0])
            if w is not None:
                c = args[1][1] & 255
                i = (w.find if name == 'strchr' else w.rfind)(chr(c)) if c else len(w)
                return [(NULL if i < 0 else args[0] if i == 0 else shift(args[0], i), st)]
        if name in ('atoi', 'atol', 'strtol', 'strtoul') and place(args[0])[0] == T and (name[0] == 'a' or args[1] == NULL and args[2] == ('i', 10)):
            w = self.whole(args[0])
            s = w.lstrip(' \t\n')
            n, sg = 0, 1
            if s[:1] in ('+', '-'):
                sg, s = (-1 if s[0] == '-' else 1), s[1:]
            for c in s:
                if not c.isdigit():
                    break
                n = n * 10 + int(c)
            return [(('i', sg * n), st)]
        if name in ('isspace', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower') and args[0][0] == 'i' and name not in self.prog.funcs:
            c = args[0][1]
            return [(('i', 1 if 0 <= c < 128 and (chr(c) in ' \t\n\v\f\r' if name == 'isspace' else getattr(chr(c), name)()) else 0), st)]
        return super().on_call(st, ins, name, args)

    def _simple(self, f, ins, env, st):
        try:
            return super()._simple(f, ins, env, st)
        except NeedChar as e:
            self.frame(e, f, ins, env, st)
            raise

    def _call(self, f, ins, env, st):
        try:
            return super()._call(f, ins, env, st)
        except NeedChar as e:
            self.frame(e, f, ins, env, st)
            raise

    def _block(self, f, cfg, b, env, st):
        self.live = cfg.live_in[b]
        return super()._block(f, cfg, b, env, st)

    def frame(self, e, f, ins, env, st):
        if e.st is None:
            e.st = st
        e.frames.append((f.name, ins.uid, tuple(sorted((k, self.canon(v, f.defs[k].ty if k in f.defs else '')) for k, v in env.items() if k not in f.params))))

    def canon(self, v, ty=''):
        n = len(self.word)
        if v[0] == 'i' and ty == 'i64' and v[1] >= 1 and -3 <= v[1] - n <= 1:
            return ('rel', v[1] - n)
        b, k = place(v)
        if b == T:
            return ('start',) if k == 0 else ('at', k - n)
        return v

    def key(self, e):
        mem = tuple(sorted(((str(k), str(self.canon(v))) for k, v in e.st.mem.items() if isinstance(v, tuple)), key=str))
        return (tuple(e.frames), mem, self.word[-WINDOW:])


def shift(t, n):
    b, k = place(t)
    return ('idx', b, ('i', k + n))


def explore(prog, make, alphabet, start, step, limit=6000, maxlen=5, info=None):
    """make(word, done) -> (interp, run) ; run() returns outcomes.  Yields (word, outcomes, interp) for every complete text
    needed.  start/step: the documented automaton, whose state is part of the configuration.  A program that goes back in its
    text is followed on all texts up to maxlen instead."""
    info = info if info is not None else {}
    memo, seen, n = True, set(), 0
    todo = deque([''])
    while todo:
        w = todo.popleft()
        n += 1
        if n > limit:
            yield None, n, None
            return
        # the text that ends here
        it, run = make(w, True)
        try:
            out = run()
        except Endless:
            out = []
        yield w, out, it
        again = it.again
        it, run = make(w, False)
        try:
            run()
            need = None         # decided without looking further
        except Endless:
            need = None
        except NeedChar as e:
            need = e
        if memo and (again or it.again):
            memo, seen, todo, n = False, set(), deque(['']), 0
            info['bounded'] = maxlen
            continue
        if need is None or (not memo and len(w) >= maxlen):
            continue
        if memo and need.k <= len(w):
            s = start
            for c in w:
                s = step(s, c)
            k = (it.key(need), s)
            if k in seen:
                continue
            seen.add(k)
        todo.extend(w + c for c in alphabet)
    info['texts'] = n
    info['configurations'] = len(seen)
