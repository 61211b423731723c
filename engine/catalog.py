"""Properties, and the rules that decide each one.  gen.py writes properties.jsonl and MANIFEST.json from here."""
from .core import Result, run_specs
from . import specs_checks
from .rules import registration, dispatch, run as runrules, errors, symtab, record, treefn, template, cli, config, fc, startup, grammar, lexer, parsing, required, reqorder, terminate, release, textfn, ordering, payload


def table_rule(*ids):
    def fn(prog, tier):
        R = Result()
        R.rule('table', 'for every path of a check the outcome (finding / no finding) is the one its documented condition gives; every iteration left behind had a false condition')
        S = specs_checks.build(prog)
        run_specs(prog, R, 'table', [(i, s) for i in ids for s in S[i]])
        R.atleast('decision tables', len(ids))
        return R
    return ('decision tables ' + ' '.join(ids), fn)


def rule(f):
    return (f.__module__.split('.')[-1] + '.' + f.__name__, lambda prog, tier: f(prog, tier == 'thorough') if 'thorough' in f.__code__.co_varnames[:f.__code__.co_argcount] else f(prog))


TECH_PATH = 'path-sensitive abstract interpretation of the LLVM IR (helpers inlined, loops judged per generic iteration) against a frozen rule table'
TECH_TABLE = 'static decision-table extraction: guard of every outcome of every path, compared with the documented condition'
ASSUME = ['clang -O0 + mem2reg IR of the working tree represents the compiled program (units taken from src/Makefile.am; flex and bison output regenerated)',
          'uthash macros are modelled by their documented contract (find/add/delete by key)', 'libc and libconfuse functions behave as documented']
NOTE = ('Path rules over the resolved program; holds for every input reaching the analysed functions. Paths that use a condition the rule language cannot name '
        'are counted as undecided in the evidence (0 on this tree) and never alarm. Trusts clang/opt, flex/bison and the analyser itself.')

CATALOG = {}


def prop(pid, title, statement, over, quant, why, files, mech, rules, tech=TECH_PATH, note=NOTE, explanation=None, assumptions=None, level='other', **kw):
    assert len(title) <= 80, title
    CATALOG[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, rules=rules, technique=tech,
                        note=note, level=level, explanation=explanation or tech, assumptions=ASSUME + (assumptions or []), **kw)


prop('P01', 'Every documented check is wired to the statements it documents',
     'Every check id the tool documents is registered exactly once and runs on exactly the kinds of policy statement it documents, when it is enabled, and no disabled or unknown id ever runs. '
     'The set of known ids printed for listing and accepted for enabling and disabling is that same set.',
     ['inputs', 'configurations'], 'for every combination of enabled and disabled checks, every statement kind and every source/normal mode',
     'Tests register a handful of checks and call check functions directly; no test sees the whole matrix of check x statement kind x enablement.',
     ['src/runner.c', 'src/check_hooks.c', 'src/check_hooks.h'], [('register_checks', 'src/runner.c'), ('add_check', 'src/check_hooks.c')],
     [rule(registration.check_registration)])
prop('P02', 'Command line and configuration enable and disable checks with fixed precedence',
     'A check runs exactly when the documented precedence says so: command-line enabling beats command-line disabling, which beats enabling in the configuration, which beats disabling in the configuration, which beats the default of running; '
     'with only-enabled mode nothing runs but what the command line enables. A check below the severity threshold never runs.',
     ['configurations'], 'for every combination of the four lists, only-enabled mode and severity',
     'Tests exercise a few fixed combinations of options; the rule is about every combination, for every check.',
     ['src/runner.c', 'src/main.c'], [('is_check_enabled', 'src/runner.c')],
     [rule(registration.check_precedence)])
prop('P03', 'Every finding carries the id and severity of the check that made it',
     'Whatever policy is analysed, a finding reported by a check is labelled with that check\'s own severity letter and number, the id under which it can be disabled, suppressed and counted.',
     ['inputs'], 'for every path of every check on which it reports a finding',
     'Tests compare the label on the sample inputs that reach one report site; a check has many report sites and reachable paths.',
     ['src/if_checks.c', 'src/te_checks.c', 'src/fc_checks.c', 'src/runner.c'], [('make_check_result', 'src/check_hooks.c')],
     [rule(registration.check_identity)])
prop('P04', 'A suppression comment silences exactly the named check on its statement',
     'A check is consulted for a statement exactly when the suppression comment stored with that statement does not name that check\'s id; every other check registered for that kind of statement is consulted. '
     'No other statement and no other check is affected.',
     ['inputs'], 'for every statement kind, every suppression text and every set of registered checks',
     'Tests contain a few suppression comments for a few checks; the dispatcher\'s decision must hold for all of them.',
     ['src/check_hooks.c'], [('call_checks', 'src/check_hooks.c'), ('call_checks_for_node_type', 'src/check_hooks.c')],
     [rule(dispatch.check_suppression), rule(record.check_command)])
prop('P05', 'Every finding is counted, raises the fail flag, and is printed with its line',
     'Each finding adds one to the summary count of its check and raises the flag that decides the failing exit status, whether or not output is suppressed. '
     'Unless only the summary was asked for, it is printed exactly once with the file, the line of the statement, its severity, its message and its id, and its memory is released once, after that.',
     ['inputs', 'configurations'], 'for every check outcome and every output mode',
     'Tests look at counts or output of single checks; none shows that no path drops, doubles or mislabels a finding.',
     ['src/check_hooks.c'], [('call_checks_for_node_type', 'src/check_hooks.c'), ('display_check_result', 'src/check_hooks.c'), ('make_check_result', 'src/check_hooks.c')],
     [rule(dispatch.check_counting)])
prop('P06', 'Every statement of every analysed file is visited once by the checks',
     'For each analysed file, every statement, however deeply nested, is handed to the checks once and in file order, and after the last statement the checks are told to clean up. An error raised by a check ends the file with that error.',
     ['inputs'], 'for every parse tree',
     'Tests walk a few small trees; the traversal must be complete for every shape of tree.',
     ['src/runner.c', 'src/tree.c'], [('run_checks_on_one_file', 'src/runner.c'), ('dfs_next', 'src/tree.c')],
     [rule(runrules.check_walk)])
prop('P07', 'A failed operation is never reported as success',
     'When reading, parsing, recording or checking anything fails, the operation that contained it fails too: no failure status is dropped or turned into success on the way up, and no loop carries on past it. '
     'Best-effort bookkeeping and releasing memory are the only exceptions.',
     ['fault_sequences', 'inputs'], 'for every path on which some callee reports a failure',
     'Tests cannot make most operations fail (allocation failure, malformed intermediate state); each failing call site would need its own fault injection.',
     ['src/runner.c', 'src/parse_functions.c', 'src/startup.c', 'src/template.c', 'src/parse_fc.c', 'src/maps.c', 'src/tree.c'], [('enum selint_error', 'src/selint_error.h')],
     [rule(errors.check_propagation)])
prop('P08', 'Context files are only read, and everything is read before anything is checked',
     'A successful run has parsed every given interface, policy and file-context file and every context file before the first check, interfaces before policy files, and has then checked every given file as the kind of file it is; context files are never checked. '
     'A file that cannot be parsed ends the run with an error, and the symbol tables are released exactly once, after the last check.',
     ['inputs', 'configurations'], 'for every combination of file lists, and every file that fails',
     'Tests run a few file sets; the order and completeness must hold on every path through the runner, including the failing ones.',
     ['src/runner.c'], [('run_analysis', 'src/runner.c'), ('parse_all_files_in_list', 'src/runner.c')],
     [rule(runrules.check_phases)])
PF = ['src/parse_functions.c', 'src/tree.c']
prop('P10', 'A parsed statement becomes one node carrying all of its operands',
     'Every statement the parser records appends exactly one node of the right kind, at the statement\'s line, after the previous statement, and carries each operand (sources, targets, classes, permissions, names, attributes, arguments) in its own slot. '
     'A statement that cannot be recorded changes nothing and reports failure.',
     ['inputs', 'fault_sequences'], 'for every statement kind, every operand value and every failing insertion',
     'Tests parse a few statements per kind and look at some operands; slots swapped for one kind, dropped optional operands or failing insertions stay unseen.',
     PF, [('insert_av_rule', 'src/parse_functions.c'), ('insert_type_transition', 'src/parse_functions.c')], [rule(record.check_payload)])
prop('P11', 'Blocks open and close in pairs, and nest exactly as written',
     'Opening a block (interface, template, optional, tunable, boolean, ifdef, require and so on) makes the following statements its children; closing it succeeds only inside a block of that very kind and continues right after it. '
     'A closing without its opening is an error and changes nothing; interfaces and templates are recorded under their name and module when opened.',
     ['inputs', 'histories'], 'for every sequence of openings, statements and closings',
     'Tests nest a few blocks; that every pairing of every kind keeps the tree right needs all sequences.',
     PF, [('begin_optional_policy', 'src/parse_functions.c'), ('end_interface_def', 'src/parse_functions.c')], [rule(record.check_blocks)])
prop('P12', 'Names are recorded for the module that declares them, and only there',
     'A declaration is recorded as owned by the module it appears in unless it is inside a require block; inside a template it is recorded with the template, and calling the template declares its names for the caller. '
     'Aliases follow the same rule. An interface is marked as a file-transition, transform or role interface exactly when one of its direct statements makes it one.',
     ['inputs'], 'for every declaration, nesting and name',
     'Tests parse a few declarations; the ownership rule decides many checks and must hold for every nesting and every kind of name.',
     ['src/parse_functions.c', 'src/template.c'], [('insert_declaration', 'src/parse_functions.c'), ('insert_aliases', 'src/parse_functions.c')], [rule(record.check_recording)])
prop('P13', 'The names of a statement are all the names it mentions, in order',
     'For every kind of statement, the names taken from it are those of every list and single name it carries (sources, targets, defaults, declared names, attributes, arguments, roles), in order, a leading "-" removed, and nothing else; '
     'those of a require block are the names of all its statements, nested ones included. Being inside a require block or template is decided by all enclosing blocks.',
     ['inputs'], 'for every statement kind, list length and nesting',
     'Tests extract names from a few statements; missing one slot of one kind, or one enclosing level, silently blinds several checks.',
     ['src/tree.c', 'src/string_list.c'], [('get_names_in_node', 'src/tree.c'), ('get_names_required', 'src/tree.c'), ('is_in_require', 'src/tree.c')],
     [rule(treefn.check_names), rule(required.check_required_names), rule(treefn.check_inside)])
prop('P14', 'Trees and lists keep every element in its place',
     'A node inserted after another or as a child is linked last among its siblings below the right parent with its kind, data and line; appending, joining and copying name lists and queueing files keep every element and its marks in order, the new ones last. '
     'A failed insertion leaves the tree unchanged.',
     ['inputs', 'histories'], 'for every tree, list and sequence of insertions',
     'Tests build small trees and lists; a link lost for the third sibling or a flag lost in a copy stays unseen.',
     ['src/tree.c', 'src/string_list.c', 'src/file_list.c'], [('insert_policy_node_child', 'src/tree.c'), ('copy_string_list', 'src/string_list.c')],
     [rule(treefn.check_links)])
prop('P15', 'Releasing gives back everything owned, exactly once',
     'Releasing a parse tree, a statement\'s data, a list or a finding releases each part it owns exactly once, by the routine for its kind, before the thing itself, and releases nothing it only refers to.',
     ['inputs'], 'for every kind of statement and list, whatever optional parts are present',
     'Tests do not observe leaks or double releases, and most statement kinds with optional parts never occur in them.',
     ['src/tree.c', 'src/string_list.c', 'src/file_list.c', 'src/check_hooks.c'], [('free_policy_node', 'src/tree.c'), ('free_string_list', 'src/string_list.c')],
     [rule(treefn.check_release), rule(release.check_release_followed)])
prop('P16', 'Calling a template declares its names for the caller, arguments substituted',
     'Every name a called template declares, itself or through templates it calls at any depth, is recorded for the calling module with its kind, each placeholder replaced by the argument of that number; a template that calls itself is refused. '
     'Substitution never writes outside its buffer, always yields a terminated string, and nothing is leaked or released twice.',
     ['inputs', 'histories'], 'for every set of templates, nesting, argument list and placeholder',
     'Tests expand one nested template with few arguments; repeated placeholders, calls without arguments, failing nested expansions and loops need inputs they do not contain.',
     ['src/template.c'], [('add_template_declarations', 'src/template.c'), ('replace_m4', 'src/template.c')],
     [rule(template.check_expansion), rule(template.check_substitution)])
prop('P17', 'Command line options mean what the usage text says',
     'Every documented option, long or short, alone or combined, has its documented effect on the analysis (severity, lists of enabled and disabled checks, modes, configuration file, module lists, output) and no other; anything else ends with the usage exit status. '
     'Without an option the documented default holds. An id given for a check is warned about exactly when it is not a severity letter, a dash and the three digits of a check number. The exit status is 0 on success, and nonzero exactly when the analysis failed, or when findings exist and failing on them was asked for.',
     ['configurations', 'inputs'], 'for every single option and pairs of options, every outcome of the analysis',
     'No test runs the main program with most options; combinations and their defaults are never sampled.',
     ['src/main.c'], [('main', 'src/main.c')], [rule(cli.check_options), rule(textfn.check_ids)])
prop('P18', 'Every policy file found is analysed as the kind its name says',
     'Each file found under the given paths whose name ends in .te, .if or .fc is queued once as that kind; from a context path .te and .if files not already given are queued as context only. Entries with other names are never queued. '
     'Directories are descended only when recursive mode was asked for, and the support files found on the way are loaded from where they are.',
     ['inputs', 'configurations'], 'for every kind of directory entry, file name, and mode',
     'The scan of directories is only run by hand; unit tests never reach it.',
     ['src/main.c', 'src/file_list.c'], [('main', 'src/main.c'), ('file_list_push_back', 'src/file_list.c')], [rule(cli.check_files), rule(treefn.check_known_file)])
prop('P19', 'The configuration file means what it documents, or is refused',
     'Every documented option is accepted with its documented kind and default; every documented value has its documented meaning; every listed check, user, role and macro is taken over, in order, copied. '
     'Any other value, an incomplete or repeated order of requirement kinds, or a syntax error makes the configuration fail; the parsed file is released exactly once.',
     ['configurations', 'inputs'], 'for every value of every option, list lengths up to three, every mode',
     'Tests load about ten configuration files; invalid values per option, list contents and the release on failing paths are not sampled.',
     ['src/selint_config.c'], [('parse_config', 'src/selint_config.c')], [rule(config.check_config)])
prop('P25', 'A file-contexts file is read line by line exactly as written',
     'Every line of a file-contexts file that is not empty, a comment, an m4 construct or a call of a known macro becomes one entry, in order and under its line number; one that is not of the documented form becomes an error and nothing else does. '
     'Path, object class, user, role, type and range of an entry are exactly the parts written on the line, whether the context is plain, generated, or <<none>>, and nothing is lost, used after release or released twice.',
     ['inputs'], 'for every line of every file-contexts file',
     'Tests parse about fifteen lines; missing parts, blanks inside a generated context, unclosed contexts, the last line without line end and the release on every refusal are not enumerated.',
     ['src/parse_fc.c'], [('parse_fc_line', 'src/parse_fc.c'), ('parse_context', 'src/parse_fc.c'), ('parse_fc_file', 'src/parse_fc.c'), ('check_for_fc_macro', 'src/parse_fc.c')],
     [rule(fc.check_line), rule(fc.check_context), rule(fc.check_file), rule(fc.check_macro)])
prop('P26', 'The support files are taken in completely and exactly',
     'Every line of modules.conf that is neither blank nor a comment names one module and its status, taken without surrounding blanks, and is refused otherwise; every class directory and permission file of the kernel is recorded as such and nothing else is; access vectors and permission sets are parsed as what they are; '
     'every installed interface header is queued as context with its layer. An interface is marked as transforming exactly if the first statement behind its require blocks calls a transforming interface, until nothing more can be marked. Files are closed, lines and trees released, and failures reported.',
     ['inputs'], 'for every content of the support files, every directory content and every chain of interfaces',
     'Tests load one sample of each kind of file; a missing line end, blanks, refused lines, directories without permissions, chains of transforming interfaces across files and their order are not enumerated.',
     ['src/startup.c'], [('load_modules_source', 'src/startup.c'), ('load_access_vectors_kernel', 'src/startup.c'), ('mark_transform_interfaces', 'src/startup.c')],
     [rule(startup.check_modules), rule(startup.check_kernel), rule(startup.check_headers), rule(startup.check_parsed), rule(startup.check_transform)])
prop('P27', 'A parsed statement is recorded completely, in its place and as what it is',
     'Every form of policy statement is accepted wherever statements are, and causes exactly the recording it stands for: every operand in its own role, sets with all their members in order, "~", "*" and "-" kept, at its own line, blocks opened before and closed after what they hold. '
     'Text that is no policy, or is policy of another kind of file, is refused with one F-001 message carrying its line and file, and yields no tree. Every operand is released or handed over exactly once, also when the text is refused; composed texts fit their buffers.',
     ['inputs'], 'for every documented form of statement, nesting, operand text and set length, every kind of file and every refused form',
     'Tests parse some sample modules and look at a few nodes; a statement form not in the samples, an operand in the wrong role, a dropped set member, wrong nesting or a leak after a refused text stays unseen.',
     ['src/parse.y', 'src/parse.h'], [('yyparse_wrapper', 'src/parse.y'), ('yyerror', 'src/parse.y')],
     [rule(grammar.check), rule(parsing.check_wrapper), rule(parsing.check_message)],
     tech='static simulation of the LALR automaton (bison XML of the working tree) over every documented statement form with symbolic operands; each reduction\'s action is sliced from yyparse and interpreted abstractly')
prop('P28', 'Policy text is divided into exactly the documented tokens',
     'Every text is divided into the documented tokens (keywords, identifiers, numbers, versions, addresses, quoted strings, file type specifiers, punctuation, suppression comments; other comments, m4 comments and blanks are skipped), longest match first; '
     'a token with an operand carries its own copy of exactly the text matched and its own line and columns.',
     ['inputs'], 'for every text: every pair of states of the scanner and of the documented token rules that any text reaches',
     'Tests parse sample policies; identifiers that start with a keyword or with dnl, addresses, comments at odd places and other rare texts are not sampled.',
     ['src/lex.l'], [('yylex', 'src/lex.l')],
     [rule(lexer.check)],
     tech='product construction of the compiled scanner automaton (flex tables of the working tree) with an automaton built from the documented token rules; abstract interpretation of every token action')
prop('P29', 'Every run comes to an end, whatever the input',
     'No input keeps the program busy for ever or exhausts its stack: each way around each loop advances it (along a finite list or text, by a count towards its bound, by consuming input, by recording something new), '
     'and each recursion hands on a proper part of what it was given. Templates and permission macros that name themselves, directly or through others, are expanded finitely. '
     'The depth of a recursion follows how deep the input is nested, never how long it is.',
     ['inputs'], 'for every loop and every way around it, every recursive call, and every ring of names',
     'A test that does not end is never written down; the input that drives a loop down its one way without progress, a ring of macros, or a file of half a million statements is not in the test policies.',
     ['src'], [('free_policy_node', 'src/tree.c'), ('compute_perm_mask', 'src/perm_macro.c'), ('add_template_declarations', 'src/template.c')],
     [rule(terminate.check_loops), rule(terminate.check_recursion), rule(terminate.check_names)],
     tech='progress analysis of every cyclic path of every loop (value and memory dependence of its branch decisions), structural-descent analysis of the call graph\'s cycles, abstract interpretation of name expansion')
WHY_T = 'Unit tests of a check sample a handful of statements; its condition has to be right for every statement, and many combinations of its inputs never occur in the test policies.'
prop('P09', 'A recorded name is found again under exactly its kind and first module',
     'A name recorded as one kind (type, role, user, attribute, boolean, class, permission, module, interface, template, macro) is found under exactly that kind with the value first recorded for it, and under no other kind; a name never recorded is not found. '
     'The counts of known names match what was recorded, and after release every table is empty with nothing leaked or freed twice.',
     ['inputs', 'histories'], 'for every sequence of recordings, lookups and releases, every name and kind',
     'Tests insert and look up a handful of names per table; mixing kinds, repeated recording and stale results need histories no test enumerates.',
     ['src/maps.c'], [('insert_into_decl_map', 'src/maps.c'), ('look_up_in_decl_map', 'src/maps.c'), ('free_all_maps', 'src/maps.c')],
     [rule(symtab.check_tables)])
prop('P20', 'File-context checks report exactly what they document',
     'An undefined user, role or type in a file context, a context naming a type of another module, a generated context without range, and an unparsable entry are reported, each exactly under its documented condition and never otherwise. '
     'The documented exemptions (generated files when configured) apply, and only those.',
     ['inputs', 'configurations'], 'for every file-context entry, symbol-table content and configuration', WHY_T,
     ['src/fc_checks.c'], [('check_file_context_*', 'src/fc_checks.c')],
     [table_rule('E-002', 'E-003', 'E-004', 'E-005', 'S-002', 'S-007')], tech=TECH_TABLE)
prop('P21', 'Name-declaration checks report exactly what they document',
     'A name of another module used without being required, a name used in an interface without being required, a name required in an interface but not used in it, and an interface requiring a name of its own module are reported exactly under their documented conditions. '
     'A name counts as required if any require block before or around the statement lists it, at any depth of the block. Every name of a statement is examined, in every kind of statement these checks cover.',
     ['inputs'], 'for every statement, nesting and symbol-table content', WHY_T,
     ['src/te_checks.c', 'src/if_checks.c'], [('check_no_explicit_declaration', 'src/te_checks.c'), ('check_name_used_but_not_required_in_if', 'src/if_checks.c')],
     [table_rule('W-001', 'W-002', 'W-011', 'E-006'), rule(required.check_required)], tech=TECH_TABLE)
prop('P22', 'Class and permission checks report exactly what they document',
     'Unknown classes and permissions, permission macros not matching the class, available permission macros, all-permission wildcards, unordered permissions and rules that should use self are reported exactly under their documented conditions. '
     'Every class and permission of the statement is examined.',
     ['inputs'], 'for every rule, permission list and symbol-table content', WHY_T,
     ['src/te_checks.c'], [('check_unknown_permission', 'src/te_checks.c'), ('check_unknown_class', 'src/te_checks.c')],
     [table_rule('E-007', 'E-008', 'S-009', 'S-010', 'W-008', 'C-005', 'C-007')], tech=TECH_TABLE)
prop('P23', 'Interface-call checks report exactly what they document',
     'A call of another module\'s interface outside an optional block, an empty argument, a suspicious space in an argument, an unknown interface, and an interface calling a template are reported exactly under their documented conditions. '
     'Being inside an optional block at any depth counts.',
     ['inputs'], 'for every call, nesting and symbol-table content', WHY_T,
     ['src/te_checks.c', 'src/if_checks.c'], [('check_module_if_call_in_optional', 'src/te_checks.c'), ('check_if_calls_template', 'src/if_checks.c')],
     [table_rule('S-004', 'W-005', 'W-006', 'W-007', 'W-010')], tech=TECH_TABLE)
prop('P24', 'Structure and style checks report exactly what they document',
     'Missing interface comments, unordered and repeated requirements (kinds in the configured order, names with a final _t ignored), empty blocks, require blocks in policy files, declarations in interfaces, stray semicolons, bare module statements, unquoted requirement blocks and module names not matching the file are reported exactly under their documented conditions.',
     ['inputs', 'configurations'], 'for every statement and nesting', WHY_T,
     ['src/if_checks.c', 'src/te_checks.c'], [('check_empty_block', 'src/te_checks.c'), ('check_interface_definitions_have_comment', 'src/if_checks.c')],
     [table_rule('C-004', 'C-006', 'E-009', 'S-001', 'S-003', 'S-005', 'S-006', 'S-008', 'W-009'), rule(reqorder.check)], tech=TECH_TABLE)

prop('P30', 'A path is reported for an unescaped regex character exactly when it has one',
     'For every path with a context, W-004 is reported exactly when outside of bracket groups the path has a period that is neither preceded by a backslash nor followed by an asterisk, plus or question mark, '
     'or a plus or asterisk that is preceded by none of backslash, period, closing bracket and closing parenthesis (an opening bracket not preceded by a backslash opens a group, which ends with the next closing bracket that is not preceded by a backslash). '
     'The first such character and its position are named, and no character outside of the path is looked at.',
     ['inputs'], 'for every path',
     'Tests try a handful of paths; the neighbourhoods of each special character, characters at the very start and end, and unclosed bracket groups are not enumerated.',
     ['src/fc_checks.c'], [('check_file_context_regex', 'src/fc_checks.c')], [rule(textfn.check_regex)],
     tech='product construction of the configurations of the function (abstract interpretation of its IR, one character at a time, relative to the read position) with the automaton of the documented rule')

prop('P31', 'C-001 reports exactly the fewest lines out of the documented order',
     'Statements of a policy file are ordered as documented: by section (declarations first, the others by their mean line or by name), kind of declaration, and place within the section (rules on self, own module, related, kernel module, kernel, system and other interfaces, then ifdef, boolean, tunable and optional blocks, as far as the configured order knows them; interfaces of a layer by name). '
     'Conditional blocks count by their outermost kind; statements of no section are never reported, exempt ones take no part. Where all statements have a place, those C-001 does not report are in order and no larger choice of them would be; each report names a line with which the reported one is in the wrong order.',
     ['inputs', 'configurations'], 'for every kind of statement, pair of statements, configured order, and every order among the statements of a file',
     'Tests check a handful of files with one configured order; most pairs of statement kinds, nestings and orders of lines never occur in them.',
     ['src/ordering.c', 'src/te_checks.c'], [('get_section', 'src/ordering.c'), ('get_local_subsection', 'src/ordering.c'), ('check_te_order', 'src/te_checks.c')],
     [rule(ordering.check_sections), rule(ordering.check_order), rule(ordering.check_averages), rule(ordering.check_files)],
     tech='abstract interpretation of the IR over every kind of statement, nesting and pair of them (symbolic symbol tables), compared with a frozen order table; the choice of lines over every weak order of up to five statements, comparison abstracted')

prop('P32', 'Statement data is only read as what the kind of the statement holds',
     'Whatever statements a policy has and however they are nested, each piece of statement data is only read as the structure or text that the kind of that statement holds: '
     'the kind is tested on every way that leads to the reading, or given by the kinds a check is attached to. No statement is taken for one of another kind.',
     ['inputs'], 'for every statement, neighbour and enclosing block a function looks at, on every path',
     'Reading a statement as another kind usually yields plausible data in the samples of the tests, and a crash or a wrong finding for the neighbour they do not contain.',
     ['src'], [('get_names_in_node', 'src/tree.c'), ('free_policy_node', 'src/tree.c'), ('get_section', 'src/ordering.c'), ('mark_transform_interfaces', 'src/startup.c')],
     [rule(payload.check_payload)],
     tech='typestate analysis: path-sensitive abstract interpretation of every function that reads statement data, needs of a function checked at its call sites, kinds of a check taken from its registration')

NOT_APPLICABLE = {
    'N01': dict(title='Running out of memory is survived',
        statement='When an allocation fails, selint reports the failure and ends without a crash.',
        over=['fault_sequences'], quant='for every allocation that can fail',
        why='Tests never make an allocation fail.',
        files=['src/tree.c', 'src/string_list.c', 'src/maps.c'], mech=[('sl_from_str', 'src/string_list.c')],
        reason='The program does not promise it: most allocations are used unchecked by design (strdup and calloc results stored directly), so a static rule would only restate that the property does not hold.'),
    'N02': dict(title='Checking time grows moderately with the size of the policy',
        statement='The time of a run grows at most in proportion to the size of the policy times the logarithm of it.',
        over=['inputs'], quant='for every policy',
        why='Tests use small policies.',
        files=['src/check_hooks.c', 'src/maps.c'], mech=[('call_checks', 'src/check_hooks.c')],
        reason='Cost bounds depend on the numbers of list elements and hash collisions at run time; no sound static bound is in reach. That every loop and recursion ends is decided by P29.'),
}
