"""The statement forms of policy sources and what the parser is to record for each.

A form is a token sequence: words are keywords, punctuation stands for itself, and
  %x identifier   #x number   @x identifier starting with a digit   "x quoted string   !x version   ^x selint-disable comment
  // comment   ft file type specifier   4x / 6x addresses
A recording is: function argument...   where an argument is &cur (implied first), an enumerator, %x the operand's text, {-|%x} a composed text,
[a b!] a list of texts (! marks a missing comma), L the line of the statement's first token, B a line of the statement's opening, NULL."""

HEADERS = (
    ('policy_module', 'policy_module ( %m , !v )', ['insert_header %m HEADER_MACRO L']),
    ('policy_module with a plain number', 'policy_module ( %m , #v )', ['insert_header %m HEADER_MACRO L']),
    ('module', 'module %m !v ;', ['insert_header %m HEADER_BARE L']),
    ('module with a plain number', 'module %m #v ;', ['insert_header %m HEADER_BARE L']),
)

AV = (('allow', 'AV_RULE_ALLOW'), ('auditallow', 'AV_RULE_AUDITALLOW'), ('dontaudit', 'AV_RULE_DONTAUDIT'), ('neverallow', 'AV_RULE_NEVERALLOW'))

S = [
    ('type declaration', 'type %a ;', ['insert_declaration DECL_TYPE %a NULL L']),
    ('type declaration with attributes', 'type %a , %b , %c , %d ;', ['insert_declaration DECL_TYPE %a [%b %c %d] L']),
    ('type declaration with an alias', 'type %a alias %b ;', ['insert_declaration DECL_TYPE %a NULL L', 'insert_aliases [%b] DECL_TYPE L']),
    ('type declaration with aliases', 'type %a alias { %b %c } ;', ['insert_declaration DECL_TYPE %a NULL L', 'insert_aliases [%b %c] DECL_TYPE L']),
    ('type declaration with aliases and attributes', 'type %a alias { %b %c } , %d , %e ;', ['insert_declaration DECL_TYPE %a [%d %e] L', 'insert_aliases [%b %c] DECL_TYPE L']),
    ('attribute declaration', 'attribute %a ;', ['insert_declaration DECL_ATTRIBUTE %a NULL L']),
    ('class declaration', 'class %a { %b %c } ;', ['insert_declaration DECL_CLASS %a [%b %c] L']),
    ('role declaration', 'role %a ;', ['insert_declaration DECL_ROLE %a NULL L']),
    ('attribute_role declaration', 'attribute_role %a ;', ['insert_declaration DECL_ATTRIBUTE_ROLE %a NULL L']),
    ('bool declaration', 'bool %a ;', ['insert_declaration DECL_BOOL %a NULL L']),
    ('gen_bool', 'gen_bool ( %a , %b )', ['insert_declaration DECL_BOOL %a NULL L']),
    ('gen_tunable', 'gen_tunable ( %a , %b )', ['insert_declaration DECL_BOOL %a NULL L']),
    ('gen_tunable, quoted', "gen_tunable ( ` %a ' , %b )", ['insert_declaration DECL_BOOL %a NULL L']),
    ('typealias', 'typealias %a alias %b ;', ['insert_type_alias %a L', 'insert_aliases [%b] DECL_TYPE L']),
    ('typealias with several aliases', 'typealias %a alias { %b %c } ;', ['insert_type_alias %a L', 'insert_aliases [%b %c] DECL_TYPE L']),
    ('typeattribute', 'typeattribute %a %b , %c ;', ['insert_type_attribute %a [%b %c] L']),
    ('roleattribute', 'roleattribute %a %b , %c ;', ['insert_role_attribute %a [%b %c] L']),
    ('role allow', 'allow %a { %b %c } ;', ['insert_role_allow [%a] [%b %c] L']),
    ('role allow of a set', 'allow { %a %b } %c ;', ['insert_role_allow [%a %b] [%c] L']),
    ('role types', 'role %a types { %b %c } ;', ['insert_role_types %a [%b %c] L']),
    ('type_transition', 'type_transition %a %b : %c %d ;', ['insert_type_transition TT_TT [%a] [%b] [%c] %d NULL L']),
    ('type_transition of sets', 'type_transition { %a %b } { %c - %d } : { %e %f } %g ;', ['insert_type_transition TT_TT [%a %b] [%c {-|%d}] [%e %f] %g NULL L']),
    ('named type_transition', 'type_transition %a %b : %c %d "e ;', ['insert_type_transition TT_TT [%a] [%b] [%c] %d "e L']),
    ('type_member', 'type_member %a %b : %c %d ;', ['insert_type_transition TT_TM [%a] [%b] [%c] %d NULL L']),
    ('type_change', 'type_change %a %b : %c %d ;', ['insert_type_transition TT_TC [%a] [%b] [%c] %d NULL L']),
    ('range_transition', 'range_transition %a %b : %c %d ;', ['insert_type_transition TT_RT [%a] [%b] [%c] %d NULL L']),
    ('range_transition to a range', 'range_transition %a %b : %c %d - %e : %f . %g ;', ['insert_type_transition TT_RT [%a] [%b] [%c] {%d|-|%e|:|%f|.|%g} NULL L']),
    ('range_transition to a level with categories', 'range_transition %a %b : %c %d : %e . %f ;', ['insert_type_transition TT_RT [%a] [%b] [%c] {%d|:|%e|.|%f} NULL L']),
    ('role_transition', 'role_transition %a %b %c ;', ['insert_role_transition [%a] [%b] NULL %c L']),
    ('role_transition of a class', 'role_transition %a %b : { %c %d } %e ;', ['insert_role_transition [%a] [%b] [%c %d] %e L']),
    ('interface call', 'M ( %b , %c )', None),
    ('interface call', '%a ( %b , %c )', ['insert_interface_call %a [%b %c] L']),
    ('interface call without arguments', '%a ( )', ['insert_interface_call %a NULL L']),
    ('interface call with sets', '%a ( { %b %c } , %d , " %e )', None),
    ('interface call with a set', '%a ( { %b - %c } , "d )', ['insert_interface_call %a [%b - %c "d] L']),
    ('interface call with a quoted argument', "%a ( ` %b %c ' , %d )", ['insert_interface_call %a [%b %c %d] L']),
    ('interface call with an empty argument', "%a ( ` ' , %d )", ['insert_interface_call %a [{} %d] L']),
    ('interface call with a complement', '%a ( ~ { %b %c } )', ['insert_interface_call %a [~ %b %c] L']),
    ('interface call with a number', '%a ( #b , @c )', ['insert_interface_call %a [#b @c] L']),
    ('interface call with a missing comma', '%a ( %b %c , %d )', ['insert_interface_call %a [%b %c! %d] L']),
    ('m4 macro', '%a', ['insert_m4simplemacro %a L']),
    ('permissive', 'permissive %a ;', ['insert_permissive_statement %a L']),
    ('typebounds', 'typebounds %a %b ;', []),
    ('stray semicolon', ';', ['insert_semicolon L']),
    ('comment', '//', []),
    ('refpolicywarn', "refpolicywarn ( ` %a ( %b , %c ) . %d : { } ; - %e ' )", []),
    ('refpolicywarn with inner quotes', "refpolicywarn ( ` ` %a ' ' )", []),
    ('interface call with quoted names in a set', '%a ( ` "b %c \' )', ['insert_interface_call %a ["b %c] L']),
    ('genfscon', 'genfscon %a %b gen_context ( %c : %d : %e , %f )', []),
    ('genfscon with a file type', 'genfscon %a %b ft gen_context ( %c : %d : %e , %f - %g , %h : %i . %j )', []),
    ('genfscon of a numbered file system', 'genfscon @a %b %c : %d : %e : %f', []),
    ('sid', 'sid %a gen_context ( %c : %d : %e )', []),
    ('portcon', 'portcon %a #b gen_context ( %c : %d : %e , %f , )', []),
    ('portcon of a range', 'portcon %a #b - #c %d : %e : %f', []),
    ('portcon of a joined range', 'portcon %a @b %d : %e : %f', []),
    ('netifcon', 'netifcon %a %d : %e : %f %g : %h : %i', []),
    ('nodecon', 'nodecon 4a 4b %d : %e : %f', []),
    ('nodecon IPv6', 'nodecon 6a 6b %d : %e : %f', []),
    ('fs_use_trans', 'fs_use_trans %a %d : %e : %f ;', []),
    ('fs_use_xattr', 'fs_use_xattr %a %d : %e : %f ;', []),
    ('fs_use_task', 'fs_use_task %a %d : %e : %f ;', []),
    ('gen_user', 'gen_user ( %a , %b , %c %d , %e , %f - %g : %h . %i )', []),
    ('gen_user with categories', 'gen_user ( %a , , %c , %e , %f , %g : %h )', []),
    ('define', "define ( ` %a ' )", ['begin_define B', 'end_define']),
    ('define with an expansion', "define ( ` %a ' , ` %b %c ' )", ['begin_define B', 'end_define']),
    ('define, unquoted', 'define ( %a , %b )', ['begin_define B', 'end_define']),
    ('define with an empty expansion', 'define ( %a , )', ['begin_define B', 'end_define']),
]
for w, e in AV:
    S += [
        (w + ' rule', w + ' %%a %%b : %%c %%d ;'.replace('%%', '%'), ['insert_av_rule %s [%%a] [%%b] [%%c] [%%d] L' % e]),
        (w + ' rule of sets', w + ' { %a - %b } ~ { %c %d } : { %e %f } { %g %h %i } ;', ['insert_av_rule %s [%%a {-|%%b}] [~ %%c %%d] [%%e %%f] [%%g %%h %%i] L' % e]),
        (w + ' rule with wildcards', w + ' * %a : %b * ;', ['insert_av_rule %s [*] [%%a] [%%b] [*] L' % e]),
        (w + ' rule of all but a set', w + ' ~ %a - %b : %c ~ { %d } ;', ['insert_av_rule %s [~ %%a] [{-|%%b}] [%%c] [~ %%d] L' % e]),
        (w + 'xperm rule', w + 'xperm %a { %b %c } : %d %e { #f - @g %h } ;', ['insert_xperm_av_rule %s [%%a] [%%b %%c] [%%d] %%e [#f - @g %%h] L' % e]),
        (w + 'xperm rule of all but a set', w + 'xperm %a %b : %c %d ~ { #e @f } ;', ['insert_xperm_av_rule %s [%%a] [%%b] [%%c] %%d [~ #e @f] L' % e]),
        (w + 'xperm rule of one number', w + 'xperm %a %b : %c %d @e ;', ['insert_xperm_av_rule %s [%%a] [%%b] [%%c] %%d [@e] L' % e]),
    ]
S = [x for x in S if x[2] is not None]

# statements of a require block
REQ = []
for w, e in (('type', 'DECL_TYPE'), ('attribute', 'DECL_ATTRIBUTE'), ('role', 'DECL_ROLE'), ('attribute_role', 'DECL_ATTRIBUTE_ROLE'), ('bool', 'DECL_BOOL')):
    REQ += [('required ' + w, w + ' %a ;', ['insert_declaration %s %%a NULL L' % e]),
            ('required %ss' % w, w + ' %a , %b , %c ;', ['insert_declaration %s %%a NULL L' % e, 'insert_declaration %s %%b NULL L' % e, 'insert_declaration %s %%c NULL L' % e])]
REQ += [('required class', 'class %a { %b %c } ;', ['insert_declaration DECL_CLASS %a [%b %c] L']),
        ('required class with one permission', 'class %a %b ;', ['insert_declaration DECL_CLASS %a [%b] L']),
        ('comment', '//', [])]

# blocks: name, opening, closing, recorded on opening, on closing, what they hold
BLOCKS = (
    ('optional_policy', "optional_policy ( `", "' )", ['begin_optional_policy B'], ['end_optional_policy'], 'S'),
    ('optional_policy with else', "optional_policy ( ` // ' , `", "' )", ['begin_optional_policy B', 'end_optional_policy', 'begin_optional_else B'], ['end_optional_else'], 'S'),
    ('optional_policy with a suppression', "optional_policy ( ` ^z", "' )", ['begin_optional_policy B', '!save_command cur->parent ^z'], ['end_optional_policy'], 'S'),
    ('gen_require', "gen_require ( `", "' )", ['begin_gen_require B'], ['end_gen_require 0'], 'REQ'),
    ('gen_require, unquoted', "gen_require (", ")", ['begin_gen_require B'], ['end_gen_require 1'], 'REQ'),
    ('gen_require with a suppression', "gen_require ( ^z `", "' )", ['begin_gen_require B', '!save_command cur->parent ^z'], ['end_gen_require 0'], 'REQ'),
    ('gen_require with a suppression inside the quotes', "gen_require ( ` ^z", "' )", ['begin_gen_require B'], ['end_gen_require 0', '!save_command cur ^z'], 'REQ'),
    ('require', "require {", "}", ['begin_require B'], ['end_require'], 'REQ'),
    ('require with a suppression', "require { ^z", "}", ['begin_require B', '!save_command cur->parent ^z'], ['end_require'], 'REQ'),
    ('ifdef in a require block', "gen_require ( ` ifdef ( ` %z ' , `", "' ) ' )", ['begin_gen_require B', 'begin_ifdef B'], ['end_ifdef', 'end_gen_require 0'], 'REQ'),
    ('ifndef in a require block, unquoted', "require { ifndef ( ` %z ' ,", ") }", ['begin_require B', 'begin_ifdef B'], ['end_ifdef', 'end_require'], 'REQ'),
    ('ifdef', "ifdef ( ` %z ' , `", "' )", ['begin_ifdef B', 'begin_m4_argument B'], ['end_m4_argument', 'end_ifdef'], 'S'),
    ('ifndef', "ifndef ( ` %z ' , `", "' )", ['begin_ifdef B', 'begin_m4_argument B'], ['end_m4_argument', 'end_ifdef'], 'S'),
    ('ifdef with an else part', "ifdef ( ` %z ' , ` ' , `", "' )", ['begin_ifdef B', 'begin_m4_argument B', 'end_m4_argument', 'begin_m4_argument B'], ['end_m4_argument', 'end_ifdef'], 'S'),
    ('ifelse', "ifelse ( %z , ` ' , `", "' , )", ['begin_ifelse B'] + 2 * ['begin_m4_argument B', 'end_m4_argument'] + ['begin_m4_argument B'],
     ['end_m4_argument', 'begin_m4_argument *', 'end_m4_argument', 'end_ifelse'], 'S'),
    ('tunable_policy', "tunable_policy ( ` %z ' , `", "' )", ['begin_tunable_policy B', 'begin_m4_argument B'], ['end_m4_argument', 'end_tunable_policy'], 'S'),
    ('tunable_policy of a condition', "tunable_policy ( ` ( %z && ! %y ) || %x ^ %w == %v != %u ' , `", "' )", ['begin_tunable_policy B', 'begin_m4_argument B'], ['end_m4_argument', 'end_tunable_policy'], 'S'),
    ('tunable_policy, unquoted', "tunable_policy ( %z , `", "' )", ['begin_tunable_policy B', 'begin_m4_argument B'], ['end_m4_argument', 'end_tunable_policy'], 'S'),
    ('if', "if ( %z ) {", "}", ['begin_boolean_policy B'], ['end_boolean_policy'], 'S'),
    ('if with a suppression', "if ( ^z %y ) {", "}", ['begin_boolean_policy B', '!save_command cur->parent ^z'], ['end_boolean_policy'], 'S'),
    ('if with else', "if ( %z && %y ) { ; } else {", "}", ['begin_boolean_policy B', 'insert_semicolon B'], ['end_boolean_policy'], 'S'),
    ('userdebug_or_eng', "userdebug_or_eng ( `", "' )", [], [], 'S'),
    ('interface', "interface ( ` %z ' , `", "' )", ['begin_interface_def NODE_INTERFACE_DEF %z B'], ['end_interface_def'], 'IF'),
    ('template', "template ( ` %z ' , `", "' )", ['begin_interface_def NODE_TEMP_DEF %z B'], ['end_interface_def'], 'IF'),
    ('interface with a suppression', "interface ( ` %z ' , ` ^y", "' )", ['begin_interface_def NODE_INTERFACE_DEF %z B'], ['end_interface_def', '!save_command cur ^y'], 'IF'),
)

# blocks that may be empty
EMPTY = ('optional_policy', 'ifdef', 'ifelse', 'tunable_policy', 'interface', 'template', 'interface with a suppression')

# files of their own kind
FILES = (
    ('permission set', 'NODE_SPT_FILE', "define ( ` %a_perms ' , ` { %b %c } ' )", ['!insert_into_permmacros_map %a_perms [%b %c]']),
    ('permission set without braces', 'NODE_SPT_FILE', "define ( ` %a_perms ' , ` %b ' )", ['!insert_into_permmacros_map %a_perms [%b]']),
    ('permission sets', 'NODE_SPT_FILE', "// define ( ` %a_perms ' , ` { %b } ' ) // define ( ` %c_perms ' , ` { %d %e_perms } ' )",
     ['insert_comment L', '!insert_into_permmacros_map %a_perms [%b]', '!insert_into_permmacros_map %c_perms [%d %e_perms]']),
    ('set that is no permission set', 'NODE_SPT_FILE', "define ( ` %a ' , ` { %b %c } ' )", []),
    ('set named almost like a permission set', 'NODE_SPT_FILE', "define ( ` %aperms ' , ` { %b %c } ' ) define ( ` %a_perms_b ' , ` { %b } ' ) define ( ` %a_perm ' , ` { %b } ' )", []),
    ('deprecated permission set', 'NODE_SPT_FILE', "define ( ` %a_perms ' , ` { %b %c } refpolicywarn ( ` %d ' ) ' )", []),
    ('class with permissions', 'NODE_AV_FILE', 'class %a { %b // %c }', ['!insert_into_decl_map %b {__av_file__} DECL_PERM', '!insert_into_decl_map %c {__av_file__} DECL_PERM',
                                                                     '!insert_into_decl_map %a {__av_file__} DECL_CLASS']),
    ('class that inherits', 'NODE_AV_FILE', 'class %a inherits %b', ['!insert_into_decl_map %a {__av_file__} DECL_CLASS']),
    ('class that inherits and adds', 'NODE_AV_FILE', 'class %a inherits %b { %c }', ['!insert_into_decl_map %c {__av_file__} DECL_PERM', '!insert_into_decl_map %a {__av_file__} DECL_CLASS']),
    ('common permissions', 'NODE_AV_FILE', 'common %a { %b %c }', ['!insert_into_decl_map %b {__av_file__} DECL_PERM', '!insert_into_decl_map %c {__av_file__} DECL_PERM']),
    ('access vectors', 'NODE_AV_FILE', '// common %a { %b } class %c inherits %a // class %d { %e }',
     ['insert_comment L', '!insert_into_decl_map %b {__av_file__} DECL_PERM', '!insert_into_decl_map %c {__av_file__} DECL_CLASS',
      '!insert_into_decl_map %e {__av_file__} DECL_PERM', '!insert_into_decl_map %d {__av_file__} DECL_CLASS']),
    ('comments only', 'NODE_TE_FILE', '// //', ['insert_comment *', 'insert_comment *']),
    ('interface file with comments', 'NODE_IF_FILE', "// interface ( ` %a ' , ` ; ' ) // template ( ` %b ' , ` ; ' )",
     ['insert_comment *', 'begin_interface_def NODE_INTERFACE_DEF %a *', 'insert_semicolon *', 'end_interface_def', 'insert_comment *',
      'begin_interface_def NODE_TEMP_DEF %b *', 'insert_semicolon *', 'end_interface_def']),
)

# files of one kind where another is expected: refused, nothing recorded
WRONG = (
    ('policy_module ( %m , !v ) ;', 'NODE_TE_FILE', 'insert_header'),
    ('module %m !v ; ;', 'NODE_TE_FILE', 'insert_header'),
    ("interface ( ` %a ' , ` ; ' )", 'NODE_IF_FILE', 'begin_interface_def'),
    ("template ( ` %a ' , ` ; ' )", 'NODE_IF_FILE', 'begin_interface_def'),
    ("define ( ` %a_perms ' , ` { %b } ' )", 'NODE_SPT_FILE', 'insert_into_permmacros_map'),
    ("define ( ` %a_perms ' , ` { %b } refpolicywarn ( ` %c ' ) ' )", 'NODE_SPT_FILE', 'insert_into_permmacros_map'),
    ('class %a { %b }', 'NODE_AV_FILE', 'DECL_CLASS'),
    ('class %a inherits %b', 'NODE_AV_FILE', 'DECL_CLASS'),
    ('class %a inherits %b { %c }', 'NODE_AV_FILE', 'DECL_CLASS'),
    ('common %a { %b }', 'NODE_AV_FILE', None),
)

# texts that are no policy: refused
INVALID = (
    ('auditallow %a %b ;', 'a rule of another kind without class and permissions'),
    ('dontaudit %a %b ;', 'a rule of another kind without class and permissions'),
    ('neverallow %a %b ;', 'a rule of another kind without class and permissions'),
    ('allow %a %b : %c %d', 'a rule without its semicolon'),
    ('allow %a %b : %c ;', 'a rule without permissions'),
    ('allow %a : %c %d ;', 'a rule without a target'),
    ('type %a', 'a declaration without its semicolon'),
    ('type %a %b ;', 'a declaration with two names'),
    ('type %a , ;', 'an empty attribute list'),
    ('type_transition %a %b : %c ;', 'a transition without a result'),
    ("optional_policy ( ` ;", 'an optional block that is not closed'),
    ("ifdef ( ` %a ' , ` ; '", 'a conditional that is not closed'),
    ('if ( %a ) { ;', 'a conditional that is not closed'),
    ("gen_require ( ` type %a ;", 'a require block that is not closed'),
    ('%a ( %b', 'a call that is not closed'),
    ("' )", 'a block closed twice'),
    ('}', 'a block closed twice'),
    ('allow { } %b : %c %d ;', 'an empty set'),
)

# what the functions that record take over from the parser, by argument; the rest stays the parser's
TAKES = {'insert_declaration': (3,), 'insert_aliases': (1,), 'insert_av_rule': (2, 3, 4, 5), 'insert_xperm_av_rule': (2, 3, 4, 6), 'insert_role_allow': (1, 2),
         'insert_role_types': (2,), 'insert_type_transition': (2, 3, 4), 'insert_role_transition': (1, 2, 3), 'insert_interface_call': (2,), 'insert_m4simplemacro': (1,),
         'insert_type_attribute': (2,), 'insert_role_attribute': (2,), 'insert_into_permmacros_map': (1,)}
