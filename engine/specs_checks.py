"""Documented report conditions of the individual checks (README / headers of the checks)."""
from .tables import *
from .absint import contains

VOC = ('look_up_in_decl_map', 'look_up_in_ifs_map', 'look_up_in_mods_map', 'look_up_in_template_map',
       'look_up_in_permmacros_map', 'str_in_sl', 'ends_with', 'is_in_require', 'decl_map_count', 'permmacros_map_count',
       'decl_flavor_to_string', 'permmacro_check', 'strncmp', 'strlen', 'isdigit', 'strchr', 'strrchr', 'get_names_in_node',
       'has_require', 'compare_declarations', 'ends_with_all_suffix_perms', 'ends_with_suffix_perms', 'all_netlink_socket_classes',
       'all_socket_classes', 'starts_with_module_prefix', 'is_ifelse_argument', 'get_names_required', 'dfs_next', 'strcmp', 'strndup')
OPAQUE = ('dfs_next', 'get_names_required', 'free')


def P(fn, n):
    return ('p', fn, n)


def fields(N, sf):
    return field(N, sf)


def payload(N):
    return field(N, 'policy_node.data')


def dat(N, sf):
    return field(payload(N), sf)


def flav(N):
    return field(N, 'policy_node.flavor')


def ctx(N, sf):
    return field(dat(N, 'fc_entry.context'), sf)


def sl_s(e):
    return field(e, 'string_list.string')


def sl_n(e):
    return field(e, 'string_list.next')


def prevof(e):
    return ('prev', e)


def isfirst(e):
    return eq(('first', e), 1)


def ccd(D, f):
    return field(field(D, 'check_data.config_check_data'), 'config_check_data.' + f)


def fname(D):
    return field(D, 'check_data.filename')


def mname(D):
    return field(D, 'check_data.mod_name')


def ew(s, suf):
    return truth(call('ends_with', s, call('strlen', s), suf, len(suf)))


def startswith(s, pre):
    return isnull(call('strncmp', s, pre, len(pre)))


ANY = ('any',)


def anyarg(t):
    """the list searched in is named by its own rule"""
    if t[0] == 'call' and t[1] == 'str_in_sl' and len(t[2]) == 2:
        b = t[2][1]
        simple = b[0] == 'ld' and not contains(b, {('never',)}) and all(x[0] in ('ld', 'fld', 'p', 'idx', 'i', 'elem') for x in _w(b))
        if not simple:
            return ('call', 'str_in_sl', (t[2][0], ANY))
    return None


def _w(t):
    from .absint import walk
    return [x for x in walk(t) if x and isinstance(x[0], str)]


def build(prog):
    E = prog.enum
    S = {}

    def spec(cid, fn, cond, flavors, extra_pre=None, te=None, nopay=False, first=False, canon=None, voc=()):
        f = prog.fn(fn)
        D, N = P(fn, 'DATA'), P(fn, 'NODE')
        pre = And(inset(flav(N), [E(x) for x in flavors]))
        if not nopay:
            pre = And(pre, nonnull(payload(N)))
        if extra_pre:
            pre = And(pre, extra_pre(D, N))
        c = cond(D, N)
        if te:
            c = And(eq(field(D, 'check_data.flavor'), E(te)), c)
        v = tuple(VOC) + tuple(voc)
        S.setdefault(cid, []).append(Spec(fn, c, pre, v, params=('DATA', 'NODE'), first=first, canon=canon, opaque=OPAQUE))

    lk = lambda name, kind: call('look_up_in_decl_map', name, E(kind))
    known = lambda s, *ks: Or(*[nonnull(lk(s, k)) for k in ks])
    # ---- file contexts
    for cid, fn, fld, kind in (('E-003', 'check_file_context_users', 'sel_context.user', 'DECL_USER'),
                               ('E-004', 'check_file_context_roles', 'sel_context.role', 'DECL_ROLE'),
                               ('E-005', 'check_file_context_types_exist', 'sel_context.type', 'DECL_TYPE')):
        spec(cid, fn, lambda D, N, fld=fld, kind=kind: And(nonnull(dat(N, 'fc_entry.context')), isnull(lk(ctx(N, fld), kind))), ['NODE_FC_ENTRY'])
    spec('S-007', 'check_gen_context_no_range', lambda D, N: And(nonnull(dat(N, 'fc_entry.context')), truth(ctx(N, 'sel_context.has_gen_context')),
                                                                 isnull(ctx(N, 'sel_context.range'))), ['NODE_FC_ENTRY'])
    spec('S-002', 'check_file_context_types_in_mod', lambda D, N: And(
        nonnull(dat(N, 'fc_entry.context')),
        Not(And(truth(ccd(D, 'skip_checking_generated_fcs')),
                Or(streq(fname(D), 'base.fc'), streq(fname(D), 'all_mods.fc'), ew(fname(D), '.mod.fc')))),
        nonnull(lk(ctx(N, 'sel_context.type'), 'DECL_TYPE')),
        Not(streq(mname(D), lk(ctx(N, 'sel_context.type'), 'DECL_TYPE')))), ['NODE_FC_ENTRY'])
    spec('E-002', 'check_file_context_error_nodes', lambda D, N: Const(True), ['NODE_ERROR'], nopay=True)
    # ---- conventions
    spec('C-004', 'check_interface_definitions_have_comment', lambda D, N: Not(And(
        nonnull(field(N, 'policy_node.prev')), eq(flav(field(N, 'policy_node.prev')), E('NODE_COMMENT')))),
        ['NODE_INTERFACE_DEF', 'NODE_TEMP_DEF'])
    unordered = lambda e: And(Not(isfirst(e)), Not(streq(sl_s(prevof(e)), '~')), Not(streq(sl_s(e), '-')),
                              Not(Atom('slt', call('strcmp', sl_s(prevof(e)), sl_s(e)), ('i', 0))))
    spec('C-005', 'check_unordered_perms', lambda D, N: Or(
        And(eq(flav(N), E('NODE_AV_RULE')), Exists(dat(N, 'av_rule_data.perms'), unordered, name='av')),
        And(eq(flav(N), E('NODE_XAV_RULE')), Exists(dat(N, 'xav_rule_data.perms'), unordered, name='xav')),
        And(eq(flav(N), E('NODE_DECL')), eq(dat(N, 'declaration_data.flavor'), E('DECL_CLASS')),
            Exists(dat(N, 'declaration_data.attrs'), unordered, name='cls'))),
        ['NODE_AV_RULE', 'NODE_XAV_RULE', 'NODE_DECL'], first=True)
    c0 = lambda N: field(N, 'policy_node.first_child')
    c1 = lambda N: field(c0(N), 'policy_node.next')
    pd = lambda e: field(e, 'policy_node.data')
    spec('C-006', 'check_unordered_declaration_in_require', lambda D, N: Or(isnull(c1(N)), Exists(c1(N), lambda e: And(
        Not(isfirst(e)), eq(flav(e), E('NODE_DECL')), eq(flav(prevof(e)), E('NODE_DECL')), nonnull(pd(prevof(e))),
        Not(Atom('slt', call('compare_declarations', pd(prevof(e)), pd(e), field(D, 'check_data.config_check_data')), ('i', 0)))), kind=SIBL)),
        ['NODE_REQUIRE', 'NODE_GEN_REQ'], extra_pre=lambda D, N: And(nonnull(c0(N)), eq(flav(c0(N)), E('NODE_START_BLOCK'))), first=True, nopay=True)
    spec('C-007', 'check_no_self', lambda D, N: And(
        isnull(sl_n(dat(N, 'av_rule_data.sources'))),
        isnull(sl_n(dat(N, 'av_rule_data.targets'))),
        Not(streq(sl_s(dat(N, 'av_rule_data.targets')), 'self')),
        streq(sl_s(dat(N, 'av_rule_data.sources')), sl_s(dat(N, 'av_rule_data.targets'))),
        Or(And(eq(char(sl_s(dat(N, 'av_rule_data.sources')), 0), ord('$')), ew(sl_s(dat(N, 'av_rule_data.sources')), '_t')),
           And(Not(eq(char(sl_s(dat(N, 'av_rule_data.sources')), 0), ord('$'))), nonnull(lk(sl_s(dat(N, 'av_rule_data.sources')), 'DECL_TYPE'))))),
        ['NODE_AV_RULE', 'NODE_XAV_RULE'])
    # ---- style
    spec('S-001', 'check_require_block', lambda D, N: Exists(c0(N), lambda e: And(
        eq(flav(e), E('NODE_DECL')), Not(inset(field(pd(e), 'declaration_data.flavor'), [E('DECL_CLASS'), E('DECL_PERM')]))), kind=SIBL),
        ['NODE_REQUIRE', 'NODE_GEN_REQ'], te='FILE_TE_FILE', nopay=True)
    spec('S-003', 'check_useless_semicolon', lambda D, N: Const(True), ['NODE_SEMICOLON'], nopay=True)
    spec('S-006', 'check_bare_module_statement', lambda D, N: eq(dat(N, 'header_data.flavor'), E('HEADER_BARE')), ['NODE_HEADER'])
    DEFS = [E('NODE_INTERFACE_DEF'), E('NODE_TEMP_DEF')]
    par = lambda N: field(N, 'policy_node.parent')
    spec('S-004', 'check_if_calls_template', lambda D, N: And(
        Exists(par(N), lambda e: eq(flav(e), E('NODE_INTERFACE_DEF')), kind=PARENT, stop=lambda e: inset(flav(e), DEFS)),
        truth(call('look_up_in_template_map', dat(N, 'if_call_data.name')))), ['NODE_IF_CALL'], te='FILE_IF_FILE')
    REQS = [E('NODE_GEN_REQ'), E('NODE_REQUIRE')]
    spec('S-005', 'check_decl_in_if', lambda D, N: Exists(par(N), lambda e: eq(flav(e), E('NODE_INTERFACE_DEF')), kind=PARENT,
                                                          stop=lambda e: inset(flav(e), DEFS + REQS)), ['NODE_DECL'], te='FILE_IF_FILE')
    spec('S-008', 'check_unquoted_gen_require_block', lambda D, N: truth(dat(N, 'gen_require_data.unquoted')), ['NODE_GEN_REQ'])
    spec('S-010', 'check_perm_macro_available', lambda D, N: And(
        eq(dat(N, 'av_rule_data.flavor'), E('AV_RULE_ALLOW')), isnull(sl_n(dat(N, 'av_rule_data.object_classes'))),
        Not(ew(sl_s(dat(N, 'av_rule_data.object_classes')), '_class_set')),
        nonnull(call('permmacro_check', sl_s(dat(N, 'av_rule_data.object_classes')), dat(N, 'av_rule_data.perms')))), ['NODE_AV_RULE'])
    if all(x in prog.funcs for x in ('ends_with_all_suffix_perms', 'ends_with_suffix_perms', 'all_netlink_socket_classes', 'all_socket_classes')):
        cls = lambda N: dat(N, 'av_rule_data.object_classes')
        L = lambda e: call('strlen', sl_s(e))
        E_ = lambda e, suf: truth(call('ends_with', sl_s(e), L(e), suf, len(suf)))
        isfile = lambda N: truth(call('str_in_sl', ('s', 'file'), cls(N)))
        isnl = lambda N: truth(call('all_netlink_socket_classes', cls(N)))
        issk = lambda N: truth(call('all_socket_classes', cls(N)))
        allsuf = lambda N, e: truth(call('ends_with_all_suffix_perms', sl_s(e), L(e), cls(N)))
        fsx = lambda e: Or(*[truth(call('ends_with_suffix_perms', sl_s(e), L(e), x, len(x))) for x in ('lnk_file', 'chr_file', 'blk_file', 'sock_file', 'fifo_file')])
        spec('S-009', 'check_perm_macro_class_mismatch', lambda D, N: And(
            Not(truth(call('ends_with', sl_s(cls(N)), call('strlen', sl_s(cls(N))), '_class_set', 10))),
            Exists(dat(N, 'av_rule_data.perms'), lambda e: And(
                E_(e, '_perms'),
                Or(And(allsuf(N, e), isfile(N), fsx(e)),
                   And(Not(allsuf(N, e)),
                       Not(And(isnl(N), E_(e, '_socket_perms'))),
                       Not(And(issk(N), Not(isnl(N)), E_(e, '_socket_perms'), Not(E_(e, 'netlink_socket_perms')))))))),
            ), ['NODE_AV_RULE'], voc=('strlen',))
    # ---- warnings
    nm = lambda N: call('get_names_in_node', N)
    if 'has_require' in prog.funcs:
        def w1(D, N):
            def body(e):
                s = sl_s(e)
                m = mname(D)
                hr = lambda k: truth(call('has_require', N, s, E(k)))
                T, A, R = lk(s, 'DECL_TYPE'), lk(s, 'DECL_ATTRIBUTE'), lk(s, 'DECL_ATTRIBUTE_ROLE')
                return Or(And(nonnull(T), Not(streq(m, T)), Not(hr('DECL_TYPE'))),
                          And(isnull(T), nonnull(A), Not(streq(m, A)), Not(hr('DECL_ATTRIBUTE'))),
                          And(isnull(T), isnull(A), nonnull(R), Not(streq(m, R)), Not(hr('DECL_ATTRIBUTE_ROLE'))))
            return Or(And(eq(flav(N), E('NODE_DECL')), Exists(sl_n(nm(N)), body, name='rest')),
                      And(Not(eq(flav(N), E('NODE_DECL'))), Exists(nm(N), body, name='all')))
        spec('W-001', 'check_no_explicit_declaration', w1, ['NODE_AV_RULE', 'NODE_XAV_RULE', 'NODE_IF_CALL', 'NODE_TT_RULE', 'NODE_RT_RULE', 'NODE_ROLE_ALLOW',
             'NODE_ROLE_TYPES', 'NODE_ALIAS', 'NODE_TYPE_ALIAS', 'NODE_TYPE_ATTRIBUTE', 'NODE_ROLE_ATTRIBUTE', 'NODE_PERMISSIVE', 'NODE_DECL'], te='FILE_TE_FILE')

    def w2(D, N):
        def body(e):
            s = sl_s(e)
            return And(isnull(call('str_in_sl', s, ANY)), Not(streq(s, 'system_r')), known(s, 'DECL_TYPE', 'DECL_ATTRIBUTE', 'DECL_ATTRIBUTE_ROLE', 'DECL_ROLE'))
        return And(nonnull(nm(N)), Exists(N, lambda e: Const(True), kind=PARENT, stop=lambda e: inset(flav(e), DEFS), name='def'),
                   Or(And(eq(flav(N), E('NODE_DECL')), Exists(sl_n(nm(N)), body, name='rest')),
                      And(Not(eq(flav(N), E('NODE_DECL'))), Exists(nm(N), body, name='all'))))
    spec('W-002', 'check_name_used_but_not_required_in_if', w2, ['NODE_AV_RULE', 'NODE_XAV_RULE', 'NODE_IF_CALL', 'NODE_TT_RULE', 'NODE_RT_RULE', 'NODE_ROLE_ALLOW',
         'NODE_ROLE_TYPES', 'NODE_ALIAS', 'NODE_TYPE_ALIAS', 'NODE_TYPE_ATTRIBUTE', 'NODE_ROLE_ATTRIBUTE', 'NODE_PERMISSIVE', 'NODE_DECL'], te='FILE_IF_FILE', canon=anyarg)

    spec('W-005', 'check_module_if_call_in_optional', lambda D, N: And(
        nonnull(call('look_up_in_ifs_map', dat(N, 'if_call_data.name'))),
        Not(streq(call('look_up_in_ifs_map', dat(N, 'if_call_data.name')), mname(D))),
        nonnull(call('look_up_in_mods_map', call('look_up_in_ifs_map', dat(N, 'if_call_data.name')))),
        Not(streq(call('look_up_in_mods_map', call('look_up_in_ifs_map', dat(N, 'if_call_data.name'))), 'base')),
        Not(Exists(par(N), lambda e: eq(flav(e), E('NODE_OPTIONAL_POLICY')), kind=PARENT))), ['NODE_IF_CALL'])
    spec('W-006', 'check_empty_if_call_arg', lambda D, N: isnull(dat(N, 'if_call_data.args')), ['NODE_IF_CALL'])
    spec('W-007', 'check_space_if_call_arg', lambda D, N: Exists(dat(N, 'if_call_data.args'), lambda e: And(
        truth(field(e, 'string_list.has_incorrect_space')), Not(isfirst(e)),
        Or(Not(eq(char(sl_s(e), 0), ord('-'))),
           known(sl_s(prevof(e)), 'DECL_TYPE', 'DECL_ATTRIBUTE', 'DECL_ROLE', 'DECL_ATTRIBUTE_ROLE', 'DECL_USER')))), ['NODE_IF_CALL'], first=True)
    spec('W-008', 'check_risky_allow_perm', lambda D, N: And(
        eq(dat(N, 'av_rule_data.flavor'), E('AV_RULE_ALLOW')),
        Exists(dat(N, 'av_rule_data.perms'), lambda e: Or(streq(sl_s(e), '*'), streq(sl_s(e), '~')))), ['NODE_AV_RULE'])

    def w9(D, N):
        m, f = dat(N, 'header_data.module_name'), fname(D)
        ext = call('strrchr', f, ord('.'))
        ln = ('op', 'sub', call('strlen', f), call('strlen', ext))
        return Or(And(nonnull(ext), Or(Not(eq(call('strlen', m), ln)), truth(call('strncmp', m, f, ln)))),
                  And(isnull(ext), Or(Not(eq(call('strlen', m), call('strlen', f))), truth(call('strncmp', m, f, call('strlen', f))))))
    spec('W-009', 'check_module_file_name_mismatch', w9, ['NODE_HEADER'])
    if 'starts_with_module_prefix' in prog.funcs:
        spec('W-010', 'check_unknown_interface_call', lambda D, N: And(
            Not(streq(dat(N, 'if_call_data.name'), 'domain_auto_transition_pattern')), Not(streq(dat(N, 'if_call_data.name'), 'domain_transition_pattern')),
            truth(call('starts_with_module_prefix', dat(N, 'if_call_data.name'))),
            isnull(call('look_up_in_ifs_map', dat(N, 'if_call_data.name')))), ['NODE_IF_CALL'])
    spec('W-011', 'check_required_declaration_own', lambda D, N: And(
        Not(inset(dat(N, 'declaration_data.flavor'), [E('DECL_CLASS'), E('DECL_PERM'), E('DECL_USER')])),
        Not(eq(char(dat(N, 'declaration_data.name'), 0), ord('$'))),
        truth(call('is_in_require', N)),
        Or(isnull(call('look_up_in_decl_map', dat(N, 'declaration_data.name'), dat(N, 'declaration_data.flavor'))),
           And(Not(streq(call('look_up_in_decl_map', dat(N, 'declaration_data.name'), dat(N, 'declaration_data.flavor')), mname(D))),
               Not(And(eq(dat(N, 'declaration_data.flavor'), E('DECL_ROLE')),
                       streq(call('look_up_in_decl_map', dat(N, 'declaration_data.name'), dat(N, 'declaration_data.flavor')), 'kernel')))))),
         ['NODE_DECL'], te='FILE_IF_FILE')

    def w3(D, N):
        fl = dat(N, 'declaration_data.flavor')
        return And(inset(fl, [E('DECL_TYPE'), E('DECL_ATTRIBUTE'), E('DECL_ATTRIBUTE_ROLE'), E('DECL_ROLE')]),
                   Exists(nm(N), lambda e: isnull(call('str_in_sl', sl_s(e), ANY))))
    # ---- errors
    spec('E-006', 'check_declaration_interface_nameclash', lambda D, N: nonnull(call('look_up_in_ifs_map', dat(N, 'declaration_data.name'))), ['NODE_DECL'])
    spec('E-007', 'check_unknown_permission', lambda D, N: Exists(dat(N, 'av_rule_data.perms'), lambda e: And(
        Not(streq(sl_s(e), '*')), Not(streq(sl_s(e), '~')),
        Not(And(startswith(sl_s(e), 'all_'), ew(sl_s(e), '_perms'))),
        isnull(lk(sl_s(e), 'DECL_PERM')), isnull(call('look_up_in_permmacros_map', sl_s(e))))), ['NODE_AV_RULE'])
    e8 = lambda e: And(Not(And(eq(char(sl_s(e), 0), ord('$')), truth(call('isdigit', char(sl_s(e), 1))))), Not(ew(sl_s(e), '_class_set')),
                       isnull(lk(sl_s(e), 'DECL_CLASS')))
    spec('E-008', 'check_unknown_class', lambda D, N: Or(*[And(eq(flav(N), E(k)), Exists(dat(N, sf), e8, name=k)) for k, sf in (
        ('NODE_AV_RULE', 'av_rule_data.object_classes'), ('NODE_RT_RULE', 'role_transition_data.object_classes'),
        ('NODE_TT_RULE', 'type_transition_data.object_classes'))]), ['NODE_AV_RULE', 'NODE_RT_RULE', 'NODE_TT_RULE'])
    spec('E-009', 'check_empty_block', lambda D, N: Not(Exists(c0(N), lambda e: Not(inset(flav(e), [
        E('NODE_START_BLOCK'), E('NODE_COMMENT'), E('NODE_SEMICOLON')])), kind=SIBL)), ['NODE_OPTIONAL_POLICY', 'NODE_GEN_REQ', 'NODE_REQUIRE'], nopay=True)
    return S
