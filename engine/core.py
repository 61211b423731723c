"""Common result type of all rules."""


class Result:
    def __init__(self):
        self.viol = []          # dict(rule, loc, msg, key)
        self.und = []
        self.counts = {}
        self.functions = set()
        self.samples = []
        self.rules = {}
        self.floor = {}

    def rule(self, name, text):
        self.rules[name] = text

    def v(self, rule, loc, msg, key=None):
        key = key or msg
        for x in self.viol:
            if x['rule'] == rule and x['key'] == key:
                return
        self.viol.append(dict(rule=rule, loc=loc, msg=msg, key=key))

    def u(self, rule, msg):
        if (rule, msg) not in self.und:
            self.und.append((rule, msg))

    def n(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(s)

    def atleast(self, name, k):
        """fail as analysis-broken when fewer instances than confirmed by hand were seen"""
        self.floor[name] = k

    def check_floor(self):
        return ['%s: %d < %d' % (n, self.counts.get(n, 0), k) for n, k in self.floor.items() if self.counts.get(n, 0) < k]


def loc(f, ins=None):
    return '%s:%s' % (f.file, ins.line if ins is not None and ins.line else f.line)


def run_specs(prog, res, rule, specs, key=''):
    """decision tables -> result"""
    from . import tables
    for cid, spec in specs:
        f = prog.fn(spec.fn)
        r = tables.check_table(prog, spec)
        name = spec.title or spec.fn
        res.n('decision tables')
        res.n('paths', r['paths'])
        res.n('loop iterations judged', r['iterations'])
        res.functions.update(r['functions'])
        res.sample('%s %s: %d paths, outcomes %s' % (cid, name, r['paths'], {k: v for k, v in r['outcomes'].items() if v}))
        for v in r['violations']:
            res.v(rule, '%s:%d' % (f.file, f.line), '[%s] %s' % (cid, v), key='%s|%s|%s' % (cid, name, v))
        for u in r['undecided']:
            res.u(rule, '[%s] %s' % (cid, u))
