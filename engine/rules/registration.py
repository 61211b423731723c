"""R01/R02/R03: which checks are registered, when, for which nodes, with which identity."""
from ..absint import Interp, State, NULL
from ..build import AnalysisBroken
from ..core import Result, loc
from .. import pretty
from itertools import product

NAMES = ['NODE_AV_RULE', 'NODE_XAV_RULE', 'NODE_IF_CALL', 'NODE_TT_RULE', 'NODE_RT_RULE', 'NODE_ROLE_ALLOW', 'NODE_ROLE_TYPES', 'NODE_ALIAS',
         'NODE_TYPE_ALIAS', 'NODE_TYPE_ATTRIBUTE', 'NODE_ROLE_ATTRIBUTE', 'NODE_PERMISSIVE', 'NODE_DECL']
TABLE = {
    'C-001': ('check_te_order', ['NODE_TE_FILE', 'NODE_DECL', 'NODE_AV_RULE', 'NODE_XAV_RULE', 'NODE_IF_CALL', 'NODE_TT_RULE', 'NODE_CLEANUP']),
    'C-004': ('check_interface_definitions_have_comment', ['NODE_INTERFACE_DEF', 'NODE_TEMP_DEF']),
    'C-005': ('check_unordered_perms', ['NODE_AV_RULE', 'NODE_XAV_RULE', 'NODE_DECL']),
    'C-006': ('check_unordered_declaration_in_require', ['NODE_REQUIRE', 'NODE_GEN_REQ']),
    'C-007': ('check_no_self', ['NODE_AV_RULE', 'NODE_XAV_RULE']),
    'S-001': ('check_require_block', ['NODE_REQUIRE', 'NODE_GEN_REQ']),
    'S-002': ('check_file_context_types_in_mod', ['NODE_FC_ENTRY']),
    'S-003': ('check_useless_semicolon', ['NODE_SEMICOLON']),
    'S-004': ('check_if_calls_template', ['NODE_IF_CALL']),
    'S-005': ('check_decl_in_if', ['NODE_DECL']),
    'S-006': ('check_bare_module_statement', ['NODE_HEADER']),
    'S-007': ('check_gen_context_no_range', ['NODE_FC_ENTRY']),
    'S-008': ('check_unquoted_gen_require_block', ['NODE_GEN_REQ']),
    'S-009': ('check_perm_macro_class_mismatch', ['NODE_AV_RULE']),
    'S-010': ('check_perm_macro_available', ['NODE_AV_RULE']),
    'W-001': ('check_no_explicit_declaration', NAMES),
    'W-002': ('check_name_used_but_not_required_in_if', NAMES),
    'W-003': ('check_name_required_but_not_used_in_if', ['NODE_DECL']),
    'W-004': ('check_file_context_regex', ['NODE_FC_ENTRY']),
    'W-005': ('check_module_if_call_in_optional', ['NODE_IF_CALL']),
    'W-006': ('check_empty_if_call_arg', ['NODE_IF_CALL']),
    'W-007': ('check_space_if_call_arg', ['NODE_IF_CALL']),
    'W-008': ('check_risky_allow_perm', ['NODE_AV_RULE']),
    'W-009': ('check_module_file_name_mismatch', ['NODE_HEADER']),
    'W-010': ('check_unknown_interface_call', ['NODE_IF_CALL']),
    'W-011': ('check_required_declaration_own', ['NODE_DECL']),
    'E-002': ('check_file_context_error_nodes', ['NODE_ERROR']),
    'E-003': ('check_file_context_users', ['NODE_FC_ENTRY']),
    'E-004': ('check_file_context_roles', ['NODE_FC_ENTRY']),
    'E-005': ('check_file_context_types_exist', ['NODE_FC_ENTRY']),
    'E-006': ('check_declaration_interface_nameclash', ['NODE_DECL']),
    'E-007': ('check_unknown_permission', ['NODE_AV_RULE']),
    'E-008': ('check_unknown_class', ['NODE_AV_RULE', 'NODE_RT_RULE', 'NODE_TT_RULE']),
    'E-009': ('check_empty_block', ['NODE_OPTIONAL_POLICY', 'NODE_GEN_REQ', 'NODE_REQUIRE']),
    'E-010': ('check_stray_word', ['NODE_M4_SIMPLE_MACRO']),
}
RANK = 'CSWEF'
LISTS = ('config_enabled', 'config_disabled', 'cl_enabled', 'cl_disabled')


class RegInterp(Interp):
    """register_checks with: level fixed, membership of the target id in each list fixed,
    all other ids absent from every list; the map-count preconditions fixed"""

    def __init__(self, prog, target, member, counts, others, **kw):
        super().__init__(prog, inline=lambda n: n not in ('add_check', 'str_in_sl', 'permmacros_map_count', 'decl_map_count', 'color_note', 'color_reset'), depth=6, **kw)
        self.target, self.member, self.counts, self.others = target, member, counts, others
        self.asked = set()
        self.odd = []

    def no_effect(self, n):
        return True

    def on_call(self, st, ins, name, args):
        if name == 'str_in_sl':
            if args[0][0] == 's' and args[1][0] == 'p' and args[1][2] in LISTS:
                self.asked.add(args[0][1])
                m = self.member if args[0][1] == self.target else self.others
                return [(('i', int(m[args[1][2]])), st)]
            self.odd.append('%s: str_in_sl(%s, %s)' % (ins.where(), pretty.pt(args[0]), pretty.pt(args[1])))
            return None
        if name in ('permmacros_map_count', 'decl_map_count'):
            k = (name,) + tuple(a[1] for a in args)
            return [(('i', self.counts.get(k, 1)), st)]
        if name == 'add_check':
            st.cl = st.cl + (('add', args[0], args[2], args[3], ins.file, ins.line),)
            return [(('i', 0), st)]
        if name and name not in self.prog.funcs and name not in ('malloc', 'calloc', 'free', 'printf', 'memset') and not name.startswith('llvm.'):
            self.odd.append('%s: call of %s' % (ins.where(), name))
        return None


def documented(member, only):
    en = 1
    if only:
        en = 0
    else:
        if member['config_disabled']:
            en = 0
        if member['config_enabled']:
            en = 1
        if member['cl_disabled']:
            en = 0
    if member['cl_enabled']:
        en = 1
    return en


def param_args(f):
    # positional: level, config_enabled, config_disabled, cl_enabled, cl_disabled, only_enabled
    return [('p', f.name, x) for x in ('level',) + LISTS + ('only',)]


def run_once(prog, level, target, member, only, counts={}, others=None):
    f = prog.fn('register_checks')
    it = RegInterp(prog, target, member, counts, others or dict.fromkeys(LISTS, 0))
    a = param_args(f)
    a[0] = ('i', ord(level) if isinstance(level, str) else level)
    a[5] = ('i', only)
    st = State()
    rets = it.call_function(f, tuple(a), st)
    return it, rets


NONE = dict.fromkeys(LISTS, 0)


def ident(prog, kind):
    ev = prog.enumvals if hasattr(prog, 'enumvals') else {}
    for n, v in ev.items():
        if n.startswith('NODE_') and v == kind:
            return n
    return str(kind)


def norm(prog, r, it, adds):
    return adds


def check_registration(prog):
    """R01"""
    R = Result()
    R.rule('registered-table', 'at threshold L with nothing enabled or disabled, exactly the checks of severity >= L are attached, each to exactly the statement kinds it documents')
    R.rule('threshold', 'an unknown threshold registers nothing and returns no check set')
    R.rule('precondition', 'E-007/E-008 are attached exactly when the class/permission data they compare against has been loaded')
    f = prog.fn('register_checks')
    R.functions.add('register_checks')
    where = loc(f)
    for lv in RANK:
        it, rets = run_once(prog, lv, None, NONE, 0)
        R.functions |= it.visited_fn
        for o in it.odd:
            R.u('registered-table', o)
        want = {(prog.enum(k), cid, fn) for cid, (fn, ks) in TABLE.items() if RANK.index(cid[0]) >= RANK.index(lv) for k in ks}
        if not rets:
            R.v('registered-table', where, 'register_checks never returns for threshold %s' % lv)
        for v, st in rets:
            R.n('threshold outcomes')
            if v == NULL:
                continue          # allocation failure
            got = set()
            clear = True
            for e in st.cl:
                if e[1][0] == 'i' and e[2][0] == 's' and e[3][0] == 'fn':
                    k = (e[1][1], e[2][1], e[3][1])
                    if k in got:
                        R.v('registered-table', '%s:%s' % (e[4], e[5]), 'threshold %s: %s is attached twice to %s (each finding would be counted twice)'
                            % (lv, e[2][1], ident(prog, e[1][1])))
                    got.add(k)
                    R.n('registrations seen')
                else:
                    clear = False
                    R.u('registered-table', 'add_check with a computed argument at %s:%s' % (e[4], e[5]))
            if not clear:
                continue
            for k in sorted(want - got):
                R.v('registered-table', where, 'threshold %s: %s (%s) is not attached to %s' % (lv, k[1], k[2], ident(prog, k[0])))
            for k in sorted(got - want):
                e = [e for e in st.cl if (e[1][1], e[2][1], e[3][1]) == k][0]
                R.v('registered-table', '%s:%s' % (e[4], e[5]), 'threshold %s: %s (%s) is attached to %s, which is not documented for it%s' % (
                    lv, k[1], k[2], ident(prog, k[0]), '' if k[1] in TABLE and RANK.index(k[1][0]) >= RANK.index(lv) else ' (below the threshold)'))
        R.sample('threshold %s: %d registrations' % (lv, len(want)))
    for lv in (0, ord('X'), ord('c'), ord('e')):
        it, rets = run_once(prog, lv, None, NONE, 0)
        for v, st in rets:
            R.n('threshold outcomes')
            if v != NULL or any(True for e in st.cl):
                R.v('threshold', where, 'a threshold that is no severity letter (%d) yields a check set instead of an error' % lv)
    P = prog.enum('DECL_PERM')
    C = prog.enum('DECL_CLASS')
    for cnts, e7, e8 in (({('permmacros_map_count',): 0}, 0, 1), ({('decl_map_count', P): 0}, 0, 1), ({('decl_map_count', C): 0}, 1, 0), ({}, 1, 1),
                         ({('permmacros_map_count',): 5, ('decl_map_count', P): 7, ('decl_map_count', C): 9}, 1, 1)):
        it, rets = run_once(prog, 'E', None, NONE, 0, cnts)
        for v, st in rets:
            if v == NULL:
                continue
            R.n('precondition outcomes')
            for cid, w in (('E-007', e7), ('E-008', e8)):
                got = any(e[2] == ('s', cid) for e in st.cl)
                if got != bool(w):
                    R.v('precondition', where, '%s is %sregistered when %s' % (cid, '' if got else 'not ', ', '.join('%s%s == %d' % (k[0], list(k[1:]) or '', n) for k, n in cnts.items()) or 'all data is loaded'))
    # whatever was chosen: an enabled check is attached to all its documented kinds, with its own function
    for cid, (fn, ks) in sorted(TABLE.items()):
        full = {(prog.enum(k), fn) for k in ks}
        for only in (0, 1):
            for bits in product((0, 1), repeat=4):
                member = dict(zip(LISTS, bits))
                for lv in {cid[0], 'C'} if bits in ((0, 0, 0, 0), (0, 0, 1, 0)) else {cid[0]}:
                    it, rets = run_once(prog, lv, cid, member, only)
                    if it.odd:
                        R.u('registered-table', it.odd[0])
                        continue
                    for v, st in rets:
                        if v == NULL or any(e[1][0] != 'i' or e[2][0] != 's' or e[3][0] != 'fn' for e in st.cl):
                            continue
                        R.n('selection outcomes')
                        got = {(e[1][1], e[3][1]) for e in st.cl if e[2][1] == cid}
                        if got and got != full:
                            for k in sorted(full - got):
                                R.v('registered-table', where, '%s is run but not attached to %s%s' % (cid, ident(prog, k[0]), ' with --only-enabled' if only else ''),
                                    key='%s %s %s' % (cid, k, only))
                            for k in sorted(got - full):
                                R.v('registered-table', where, '%s is run and attached to %s (%s), which is not documented for it' % (cid, ident(prog, k[0]), k[1]), key='%s %s' % (cid, k))
    R.atleast('registrations seen', 70)
    return R


def check_precedence(prog):
    """R02"""
    R = Result()
    R.rule('precedence', 'command line beats configuration, enabling beats disabling at the same level, --only-enabled ignores everything but -e; for every check id')
    f = prog.fn('register_checks')
    where = loc(f)
    ids = sorted(TABLE)
    for cid in ids:
        lv = cid[0]
        for only in (0, 1):
            for bits in product((0, 1), repeat=4):
                member = dict(zip(LISTS, bits))
                it, rets = run_once(prog, lv, cid, member, only)
                R.functions |= it.visited_fn
                for o in it.odd:
                    R.u('precedence', o)
                if it.odd:
                    continue
                want = documented(member, only)
                for v, st in rets:
                    if v == NULL:
                        continue
                    R.n('cases')
                    got = any(e[2] == ('s', cid) for e in st.cl)
                    if got != bool(want):
                        R.v('precedence', where, '%s is %s although it is %s%s' % (
                            cid, 'run' if got else 'not run',
                            ', '.join('%s list: %s' % (k.replace('_', ' '), 'yes' if b else 'no') for k, b in member.items()), ' with --only-enabled' if only else ''),
                            key='%s %s %s' % (cid, bits, only))
                    others = {e[2][1] for e in st.cl if e[2][0] == 's' and e[2][1] != cid}
                    wanto = set() if only else {c for c in ids if c != cid and RANK.index(c[0]) >= RANK.index(lv)}
                    if others != wanto:
                        R.v('precedence', where, 'selecting %s changes whether other checks run: %s' % (cid, sorted(others ^ wanto)[:6]), key='others %s %s' % (cid, only))
    R.atleast('cases', 1000)
    return R


class ResInterp(Interp):
    def no_effect(self, n):
        return True


def const_values(prog, seen, fn, v, guard=None):
    """the constants an operand can be: through phi, select, conversions, and the calls of a helper; None: computed otherwise"""
    guard = guard or frozenset()
    if v[0] == 'i':
        return {v[1]}
    key = (fn, v)
    if key in guard:
        return set()
    guard = guard | {key}
    f = prog.funcs[fn]
    out = set()

    def add(g, x):
        r = const_values(prog, seen, g, x, guard)
        if r is None:
            return False
        out.update(r)
        return True
    if v[0] == 'l':
        d = f.defs.get(v[1])
        if d is None:
            names = f.params
            if v[1] not in names:
                return None
            i = names.index(v[1])
            for g in seen:
                for c in prog.funcs[g].instrs():
                    if c.op == 'call' and c.callee == fn and not add(g, c.args[i]):
                        return None
            return out
        if d.op == 'phi':
            return out if all(add(fn, x) for x in d.args) else None
        if d.op == 'select':
            return out if all(add(fn, x) for x in d.args[1:]) else None
        if d.op in ('zext', 'sext', 'trunc'):
            return out if add(fn, d.args[0]) else None
    return None


def check_identity(prog):
    """R03: every result a check creates carries the check's own severity and number"""
    R = Result()
    R.rule('identity', 'every finding a registered check can return is created with the severity letter and number it is registered under (or as internal error F-002)')
    R.rule('roster', 'each registered check can actually produce a finding')
    it, rets = run_once(prog, 'C', None, NONE, 0)
    reg = {}
    for v, st in rets:
        for e in st.cl:
            if e[2][0] == 's' and e[3][0] == 'fn':
                reg.setdefault(e[2][1], set()).add(e[3][1])
    mk = {'make_check_result'}
    for cid, fns in sorted(reg.items()):
        for fn in sorted(fns):
            f = prog.fn(fn)
            # static call graph below the check
            seen, work, sites = set(), [fn], []
            while work:
                g = work.pop()
                if g in seen or g not in prog.funcs:
                    continue
                seen.add(g)
                for ins in prog.funcs[g].instrs():
                    if ins.op == 'call' and ins.callee:
                        if ins.callee in mk:
                            sites.append((g, ins))
                        elif ins.callee in prog.funcs and ins.callee not in ('display_check_result',):
                            work.append(ins.callee)
            own = 0
            for g, ins in sites:
                R.n('creation sites')
                sevs, nums = const_values(prog, seen, g, ins.args[0]), const_values(prog, seen, g, ins.args[1])
                if sevs is None or nums is None:
                    R.u('identity', 'computed severity/number at %s' % ins.where())
                    own += 1
                    continue
                single = len(sevs) == 1 and len(nums) == 1
                bad = None
                for sv in sorted(sevs):
                    for nm in sorted(nums):
                        if not (32 < sv < 127):
                            got = '?-%03d' % nm
                        else:
                            got = '%c-%03d' % (sv, nm)
                        if got == cid:
                            own += 1
                        elif got != 'F-002' and (single or got in reg):
                            bad = bad or got
                if bad:
                    R.v('identity', ins.where(), '%s (registered as %s) creates a finding labelled %s' % (fn, cid, bad))
            if not own:
                R.v('roster', loc(f), '%s is registered as %s but creates no %s finding' % (fn, cid, cid))
            R.functions |= seen
    R.n('checks', len(reg))
    R.atleast('checks', 35)
    R.atleast('creation sites', 40)
    return R
