"""Texts of the properties (source of properties.jsonl and MANIFEST.json, see gen.py)."""

NOTES = ("No hooks are needed in /repo: every check compiles /repo/src (flex and bison included) from the working tree "
         "into a fork server (mc/server.c) and observes complete selint runs (files + command line -> output + exit "
         "status). Checks may run concurrently; builds are cached by content under .build.")

NOT_APPLICABLE = []


def P(id, title, statement, over, qtext, why, files, mech, note, observe=None, state=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "state": [{"name": a, "meaning": b, "where": d} for a, b, d in (state or [])],
                        "observe_at": observe or ["selint command line: stdout findings and exit status"],
                        "hook_needed": None},
            "note": note}


PROPS = [
    P("C01", "Exactly the selected checks report",
      "A check reports its findings if and only if it is selected: by default every check whose severity is at or above "
      "the level (command line level, else the configuration's severity, else convention) is selected, then the "
      "configuration's disable list deselects, its enable list for the current mode (enable_source in source mode, "
      "which -s or --context turn on, else enable_normal) selects, -d deselects and -e selects, each step overriding the "
      "earlier ones but never the level. With -E only checks named by -e (and at or above the level) are selected, and "
      "selecting or deselecting one check never changes what another check reports.",
      ["configurations"], "all lists, levels, modes and option orders",
      "The tests try a handful of single -d/-e options; the precedence of five sources over 35 checks, list lengths and "
      "positions has far more combinations than any hand-written list.",
      ["src/runner.c", "src/main.c", "src/selint_config.c", "src/string_list.c"],
      [("is_check_enabled / register_checks", "src/runner.c"), ("option parsing", "src/main.c"),
       ("parse_config", "src/selint_config.c")],
      "Exhaustive within the bounds printed by the check (about 30,000 runs of the real program, compared with the "
      "hand-verified findings of a policy that violates every check). Trusts the fixture and the compiler."),
    P("C02", "The exit status tells the outcome",
      "selint exits 64 for a usage error (unknown option, bad level or colour, unreadable configuration path, -E without "
      "-e, no path), 78 for an invalid configuration file, 70 when a policy file given or found cannot be opened or "
      "parsed, 65 with -F when at least one selected check has a finding, and 0 otherwise. Among several of these, "
      "options are judged in order first, then the configuration, then -E, then the paths, and parse failures win over "
      "findings; verbosity, summary options and the number of findings never change the status.",
      ["configurations", "inputs"], "all option sequences and file contents",
      "The tests check a few exit codes one at a time; scripts rely on the status for every combination of options, "
      "file position and number of findings.",
      ["src/main.c", "src/runner.c", "src/check_hooks.c"],
      [("main", "src/main.c"), ("found_issue", "src/check_hooks.c"), ("run_analysis", "src/runner.c")],
      "Exhaustive over all option sequences up to length 3 (4 thorough) from 25 option words, 20 file contents and "
      "files lists up to 65 files; exit status table is an independent Python model."),
    P("C03", "Summary and individual findings agree",
      "The summary (-S) lists every check that has at least one finding exactly once, ordered by severity letter and "
      "number, with the exact number of its findings over all files, or (none); --summary-only shows the same summary "
      "and no individual findings. Every individual finding is one line naming the file, the line, the severity and the "
      "check, and whether the summary or colours are on never changes which findings there are.",
      ["configurations", "inputs"], "all selections, reporting modes and numbers of findings",
      "Counts, orderings and duplicates only go wrong for particular combinations of checks and numbers of findings; the "
      "tests look at one summary.",
      ["src/runner.c", "src/check_hooks.c", "src/main.c", "src/color.c"],
      [("display_check_issue / increment_issues", "src/check_hooks.c"), ("display_run_summary", "src/runner.c")],
      "Exhaustive over pairs of checks, leave-one-out sets, levels, counts up to 4097 and reporting modes."),
    P("C04", "A disable comment silences exactly its statement and its checks",
      "A comment #selint-disable:ID[, ID...] on a statement's line of a te or if file (for a block: on its opening line) "
      "suppresses the findings of exactly the listed checks on exactly that statement. Findings of other checks, of "
      "other statements (including those inside the block) and of other files stay, wherever in the file and however long "
      "the list is, and other comments suppress nothing.",
      ["inputs"], "all placements, lists and statement sequences",
      "Whether a comment is attached to the right node depends on the statements before and after it; the tests have "
      "three comments.",
      ["src/parse.y", "src/tree.c", "src/check_hooks.c", "src/lex.l"],
      [("save_command", "src/parse_functions.c"), ("call_checks", "src/check_hooks.c"), ("comment rules", "src/lex.l")],
      "Exhaustive over every finding of the fixture x check x position and over statement sequences up to 3 with all "
      "comment assignments."),
    P("C05", "Template calls declare what the macro processor would declare",
      "A name declared inside a template counts as declared by the calling module with every $n replaced by the n-th "
      "argument of the call, through nested template calls of any depth and any argument rewriting, exactly as m4 would "
      "expand it; the checks that look names up then behave as if the expanded declaration stood in the calling module. "
      "Templates that are not called declare nothing, and recursive templates terminate.",
      ["inputs"], "all template programs, patterns and argument lists",
      "Argument substitution (repeated, adjacent, missing, multi-digit arguments, nesting) has unbounded inputs; the "
      "tests expand two templates.",
      ["src/template.c", "src/parse_functions.c", "src/tree.c", "src/runner.c"],
      [("replace_m4 / replace_m4_list", "src/template.c"), ("add_template_declarations", "src/template.c")],
      "Bounded exhaustive over patterns, programs, chains and call graphs; oracle is a Python m4 substitution model."),
    P("C06", "C-001 reports exactly the statements that have to move",
      "For the configured ordering_rules (refpolicy, refpolicy-light, refpolicy-lax), a te file whose statements follow "
      "the style guide order (declarations first; sections in alphabetical order unless another order is consistent; "
      "inside a section: self rules, own rules, kernel, kernel layer, system layer, other layers, blocks) has no C-001 "
      "finding. Otherwise the findings are on a smallest set of statements whose removal leaves the file ordered, judged "
      "for every file on its own; statements the guide gives no place (requirements, neverallow, role rules) neither are "
      "reported nor hide an issue.",
      ["inputs", "configurations"], "all statement sequences and ordering variants",
      "Ordering is a property of whole sequences; minimality in particular cannot be sampled by the few ordering tests.",
      ["src/ordering.c", "src/te_checks.c", "src/maps.c", "src/parse_functions.c"],
      [("calculate_longest_increasing_subsequence, compare_nodes_*", "src/ordering.c"),
       ("check_te_order", "src/te_checks.c"), ("mark_transform_interfaces", "src/if_checks.c")],
      "Exhaustive over sequences up to length 3-6 of 5-30 kinds, permutation patterns up to 300 statements, interface "
      "bodies, sections and layers; oracle is an independent longest non-decreasing subsequence over a style guide rank."),
    P("C07", "Foreign names in te files must be required",
      "Every statement of a te file that names a type, alias, attribute or attribute role declared only by another "
      "module is reported by W-001 (once) unless each such name is required with its flavour by an earlier require block "
      "in the same or an enclosing block; declarations by template calls count, and the order in which files are given does not "
      "matter. Own names, undeclared names and the require blocks themselves are never reported. S-001 reports exactly the "
      "raw require blocks of te files that stand outside gen_require.",
      ["inputs", "histories"], "all statement forms, positions, block structures and module sets",
      "Whether a use is covered depends on the whole tree around it and on every other module; the tests cover three "
      "layouts.",
      ["src/te_checks.c", "src/tree.c", "src/parse_functions.c", "src/maps.c"],
      [("check_te_explicit_declaration / symbol_missing_require", "src/te_checks.c"),
       ("get_names_in_node, get_names_required", "src/tree.c")],
      "Exhaustive over 49 statement forms x names x requirements, forests of up to 5 (6 thorough) nodes, module tuples in "
      "all file orders; the oracle is an independent scoping model."),
    P("C08", "Interfaces require exactly the names they use",
      "In an interface or template, a statement naming a declared type, attribute, role (but system_r) or attribute role that "
      "no require block earlier in the same interface names is reported by W-002; a requirement whose name no later statement "
      "in the same interface uses is reported by W-003 on its line (stub interfaces excepted); a requirement of a name "
      "its own module does not declare (kernel's roles excepted) is reported by W-011. Nothing else "
      "is reported by these checks, similar names never count as the same, and one interface never affects another.",
      ["inputs"], "all statement forms, requirement forms, block structures and sequences of interfaces",
      "The set of names a statement uses and the scope of a requirement have to be right for every statement form and "
      "nesting; the tests have one example of each check.",
      ["src/if_checks.c", "src/tree.c", "src/parse.y"],
      [("check_name_used_but_not_required_in_if, check_name_required_but_not_used_in_if, "
        "check_required_declared_own", "src/if_checks.c"), ("get_names_in_node", "src/tree.c")],
      "Exhaustive over 49 statement forms x names x requirements, forests of up to 6 (7 thorough) nodes, sequences of "
      "interfaces, lists to 300 names."),
    P("C09", "Conventions and style of interfaces and blocks are judged correctly",
      "C-004 reports exactly the interfaces and templates with no comment directly before them; C-006 exactly "
      "the require blocks whose requirements are out of the configured order (flavour order, and alphabetical order "
      "among equal flavours when configured), once per block; S-004 exactly the template calls and S-005 exactly the "
      "declarations in interfaces (not templates); S-008 exactly the unquoted gen_require blocks; and E-009 exactly the "
      "optional and require blocks holding nothing but comments and semicolons. Nesting, other blocks and file order do not "
      "change any of this.",
      ["inputs", "configurations"], "all sequences, orders and nesting structures",
      "Orders, comment placement and nesting are combinatorial; the unit tests hold one or two examples per check.",
      ["src/if_checks.c", "src/ordering.c", "src/te_checks.c", "src/parse.y", "src/selint_config.c"],
      [("check_interface_definitions_have_comment, check_requirements_ordering, check_template_call_in_interface, "
        "check_type_in_interface, check_unquoted_gen_require_block", "src/if_checks.c"),
       ("check_empty_block", "src/te_checks.c")],
      "Exhaustive over 720 orders x pairs of flavours, 40x40 names, comment and definition sequences up to 5, forests up "
      "to 5 (6 thorough) nodes."),
    P("C10", "Interface calls are resolved and judged correctly",
      "A call to an interface or template that a module other than the own one defines is reported by W-005 exactly when "
      "modules.conf lists that module with a status other than base and no optional block protects the call (its else branch "
      "does not). W-010 reports exactly the calls of undefined names that begin with a listed module's name (or its usual "
      "abbreviation) and an underscore. W-006 reports exactly calls without argument and W-007, once per call, an argument with a "
      "space outside quotes and braces. E-006 reports exactly the declarations named like an interface. The places and order of "
      "definitions never matter.",
      ["inputs", "configurations"], "all call positions, module lists, names and argument lists",
      "Resolution depends on all files, the module list, prefixes of names and nesting; the tests hold single examples.",
      ["src/te_checks.c", "src/maps.c", "src/startup.c", "src/parse.y", "src/util.h"],
      [("check_module_if_call_in_optional, check_unknown_interface_call, check_space_if_call_arg, "
        "check_declaration_interface_nameclash", "src/te_checks.c"), ("load_modules_source", "src/startup.c"),
       ("interface and module maps", "src/maps.c")],
      "Exhaustive over forests of up to 6 (7 thorough) nodes, module statuses and spellings, 170 call names x 256 module "
      "sets, argument lists of up to 3 of 34 shapes, 1000 modules."),
    P("C11", "E-002 reports exactly the malformed file context lines",
      "Every line of an fc file that is neither empty, a comment, an m4 construct (ifdef, ifndef, else, end) nor a call of a "
      "macro listed in custom_fc_macros has to be a path, an optional file type (-- -b -c -d -l -p -s) and a context: "
      "<<none>>, gen_context(user:role:type[, range[, categories]]) or a raw user:role:type[:range]. Exactly the lines that "
      "are not are reported by E-002, each once with its own line number, whatever the blanks, line ends and lengths, and "
      "nothing of a line changes how another is read.",
      ["inputs", "configurations"], "all lines and sequences of lines",
      "Hand-written tokenising with many separators and optional parts; the tests parse three small files.",
      ["src/parse_fc.c", "src/fc_checks.c", "src/selint_config.c", "src/runner.c"],
      [("parse_fc_line / parse_context / check_for_fc_macro / parse_fc_file", "src/parse_fc.c")],
      "Exhaustive over entry combinations (190,000), corruptions, sequences of up to 5 (6 thorough) lines, all strings up to "
      "7 (9 thorough) over 5 characters, macro lists, lines to 70000 characters."),
    P("C12", "File context entries are checked against the declared names",
      "For every well-formed file context entry E-003, E-004 and E-005 report exactly the users, roles and types that "
      "neither a parsed file declares (directly, as an alias, by a called template or gen_user) nor assume_users / "
      "assume_roles list (system_u and object_r without a configuration); S-002 reports exactly the types declared by "
      "another module than the file's (except, by default, in generated files); S-007 exactly gen_context without a range; and W-004 "
      "exactly the paths with an unescaped regex dot, star or plus standing alone. Each entry is judged independently of the others.",
      ["inputs", "configurations"], "all entries, environments and paths",
      "Names can be declared in many ways and places, and path scanning is a character automaton; the tests use a few "
      "entries.",
      ["src/fc_checks.c", "src/maps.c", "src/parse_fc.c", "src/selint_config.c", "src/template.c", "src/main.c"],
      [("check_file_context_*", "src/fc_checks.c"), ("declaration maps", "src/maps.c"),
       ("insert_config_declarations", "src/selint_config.c")],
      "Exhaustive over all paths of up to 6 (7 thorough) of 10 regex characters, 70 contexts x 350 environments, module name "
      "pairs, generated file names, 3000 declarations."),
    P("C13", "Permission macros are judged against the classes of their rule",
      "S-009 reports exactly the access vector rules using a permission macro whose suffix does not name (a class comprising) "
      "every class of the rule, wherever the macro stands in the list. S-010 reports exactly the allow rules on one file-like class whose "
      "permissions, expanded through the loaded definitions, are better expressed by a defined macro of that class: one which "
      "grants nothing that does not usually go along with the permissions used, covers at least two words of the rule, and is "
      "the widest and tightest of those. The order of permissions, definitions and rules does not matter.",
      ["inputs", "configurations"], "all permission sets, class lists and macro sets",
      "The suggestion is a search over subsets of permissions and nested macro definitions; the tests try a handful.",
      ["src/perm_macro.c", "src/te_checks.c", "src/maps.c", "src/startup.c"],
      [("permmacro_check", "src/perm_macro.c"), ("check_perm_macro_class_mismatch, check_perm_macro_available", "src/te_checks.c"),
       ("load_obj_perm_sets_source", "src/startup.c")],
      "Exhaustive over sets of up to 4 (5 thorough) of 38 words x classes, 512 macro sets, 120 definition orders, class lists "
      "of up to 2 (3 thorough) of 18 classes."),
    P("C14", "Permissions, classes and self in rules are judged exactly",
      "C-005 reports exactly the access vector rules, extended permission rules and class declarations with two neighbouring "
      "permissions out of ASCII order or repeated; C-007 exactly the rules whose one source is spelled as their one target and is a "
      "declared type or a parameter ending in _t; W-008 exactly the allow rules with * or ~ permissions; E-007 exactly the access "
      "vector rules with a permission that is no permission, macro, all_*_perms or parameter, and E-008 the rules with a class that is "
      "no class, class set or parameter, provided access_vectors and permission macros (E-007) or classes (E-008) were read. Place, "
      "length and neighbours of a rule never matter.",
      ["inputs", "configurations"], "all permission and class lists, names, declarations and definition files",
      "Each judgement depends on lists of any length and on names declared anywhere; the tests hold one file per check.",
      ["src/te_checks.c", "src/maps.c", "src/startup.c", "src/parse.y", "src/file_list.c", "src/main.c"],
      [("check_unordered_perms, check_no_self, check_risky_allow_perm, check_unknown_permission, check_unknown_class", "src/te_checks.c"),
       ("load_access_vectors_source", "src/startup.c")],
      "Exhaustive over lists of up to 4 (5 thorough) of 9 permissions, 10 extended permissions, 512 definition sets, all pairs of "
      "names, sequences of up to 4 (5 thorough) rules, lists to 1000 names."),
    P("C15", "Stray semicolons, stray words and module statements are judged exactly",
      "S-003 reports every semicolon that ends no statement, at its line, once each, and E-010 every bare word standing where a "
      "statement is expected unless it is configured in custom_te_simple_macros or is a comparison argument of ifelse; nothing else "
      "is reported by either. W-009 reports exactly the te files whose module name differs from the file name without .te, and S-006 "
      "exactly those using a module statement instead of policy_module().",
      ["inputs", "configurations"], "all statement sequences, block nestings, m4 arguments, words and file names",
      "Words and semicolons can follow any statement in any block; the tests hold one example each.",
      ["src/parse.y", "src/te_checks.c", "src/parse_functions.c", "src/tree.c"],
      [("check_useless_semicolon, check_stray_word, check_bare_module_statement, check_module_file_name_mismatch", "src/te_checks.c"),
       ("insert_semicolon, insert_m4simplemacro", "src/parse_functions.c")],
      "Exhaustive over forests of up to 5 (6 thorough) nodes, sequences of up to 2 of 48 pieces, ifelse of up to 9 (10 thorough) "
      "arguments, 6 configured words, 50000 headers."),
    P("C16", "Context files only provide knowledge and are never reported on",
      "Giving a path with --context reads every te and if file below it (hidden directories included), once, and makes what they declare "
      "known exactly as if they were scanned, but no finding is ever reported or counted in them. It implies source mode: modules.conf, "
      "obj_perm_sets.spt and access_vectors are taken from the scanned paths, else from the first context path having them. "
      "Which of the files are scanned and which are context, in how many paths, how spelled and overlapping, does not change the "
      "findings in the scanned files; an unparsable te or if file in a context makes the run fail.",
      ["configurations", "histories"], "all distributions of a policy over scanned and context paths",
      "The number of ways to split a policy is exponential; the tests use one split.",
      ["src/main.c", "src/runner.c", "src/file_list.c", "src/startup.c"],
      [("main", "src/main.c"), ("run_analysis", "src/runner.c"), ("file_name_in_file_list", "src/file_list.c")],
      "Exhaustive over 5^5 placements of definition files, all partitions of 7 files, pairs of context paths, broken files, up to 300 context modules."),
    P("C17", "Findings do not depend on the order, number or neighbours of the files",
      "The findings are a function of the set of files: the order in which files are given or found, the directories they lie in, how "
      "often selint is run and unrelated files next to them never change a finding in a file. No check carries anything from one file "
      "to another, and what one file declares is known in every other, whichever comes first.",
      ["inputs", "histories"], "all sets and orders of files",
      "Leaked state shows only for particular pairs of files in a particular order; the tests run one order.",
      ["src/runner.c", "src/main.c", "src/check_hooks.c", "src/te_checks.c", "src/if_checks.c", "src/fc_checks.c", "src/maps.c"],
      [("run_analysis, run_all_checks", "src/runner.c"), ("call_checks", "src/check_hooks.c")],
      "Exhaustive over ordered selections of 3 (4 thorough) of 30 files, all subsets per kind of file, 5040 orders of a policy with every "
      "violation, 3^7 directory layouts, pairs of neighbours, up to 400 files."),
    P("C18", "Exactly the policy files below the given paths are scanned",
      "With -r every file named *.te, *.if or *.fc below the given directories is read, as the kind its suffix tells, except in hidden "
      "directories (names beginning with one dot) unless --scan-hidden-dirs is given; symbolic links to files are read, links to "
      "directories are not followed, and directories are never taken for files. Without -r only the files given are read. Nothing else "
      "is read, whatever the depth, number, names or spelling of paths and options.",
      ["inputs", "configurations"], "all directory trees, names and command lines",
      "Trees and names are unbounded; a skipped file means a policy that is silently not checked.",
      ["src/main.c", "src/file_list.c"],
      [("main, policy_file_suffix", "src/main.c"), ("file_list_push_back", "src/file_list.c")],
      "Exhaustive over trees of up to 3 (4 thorough) entries of 12 kinds and 5 (6) of 4 kinds, triples of 24 paths, names of up to 4 (5) of "
      "16 pieces, depths to 40, 2000 files."),
    P("C19", "Input that cannot be read never passes for clean",
      "If any scanned te, if or fc file, or te or if file of a context, cannot be opened or read completely - whichever open or read "
      "fails, once or for good - selint prints an error, reports no finding and no summary, and exits with a failure status other than "
      "those for success and for findings. A support file that cannot be read either fails the run or is mentioned by a warning, and "
      "only findings depending on it change. How many bytes a read returns never matters, and nothing crashes.",
      ["crash_points", "histories"], "all I/O failure points and read sizes",
      "Failures of single reads cannot be produced by test files; a policy taken for clean because half of it was not read is the worst outcome.",
      ["src/runner.c", "src/parse_fc.c", "src/startup.c", "src/lex.l", "src/main.c"],
      [("parse_one_file, parse_all_files_in_list", "src/runner.c"), ("parse_fc_file", "src/parse_fc.c"), ("load_modules_source", "src/startup.c"),
       ("YY_INPUT", "src/lex.l")],
      "Fault injection below stdio at every open and read of every file (reads of 1 to 4096 bytes), plus pairs with missing files."),
    P("C20", "Every configuration setting has exactly its documented effect",
      "Each setting of the configuration file - severity, disable, enable_normal, enable_source, assume_users, assume_roles, "
      "custom_fc_macros, custom_te_simple_macros, ordering_rules, ordering_requires, ordering_requires_same_flavor and "
      "skip_checking_generated_fcs - changes the findings exactly as documented, in any combination, order, number and length of "
      "values. A file that cannot be read, does not parse, or holds an unknown setting or a value that is not allowed fails the run "
      "with the exit status for configuration errors, before anything is reported.",
      ["configurations", "inputs"], "all sets, orders and values of the settings",
      "Settings combine exponentially; the tests use a few complete configuration files.",
      ["src/selint_config.c", "src/main.c", "src/ordering.c", "src/fc_checks.c", "src/if_checks.c"],
      [("parse_config, parse_bool", "src/selint_config.c"), ("main", "src/main.c")],
      "Exhaustive over sets of up to 3 settings with all listed values, 720 orders of requires, 46 invalid values in 11 surroundings, all "
      "spellings, repeated settings, all texts of up to 3 (4 thorough) of 17 tokens, lists of up to 1000 words."),
    P("C21", "Layout changes nothing but line numbers, and every line number is right",
      "Every finding names the line of the statement it is about. Blanks, tabs, line breaks, carriage returns, blank lines, comments, "
      "m4 comments and the end of the file's last line change nothing in the findings but these line numbers, in te, if, fc and support "
      "files, wherever they stand between tokens and however many and long they are.",
      ["inputs"], "all layouts of a policy",
      "There are endless layouts of every policy; the tests fix one for each file.",
      ["src/lex.l", "src/parse.y", "src/parse_fc.c", "src/tree.c", "src/check_hooks.c"],
      [("lexer rules", "src/lex.l"), ("statement actions (first_line)", "src/parse.y"), ("parse_fc_file", "src/parse_fc.c"), ("call_checks", "src/check_hooks.c")],
      "Exhaustive over every gap x 9 fillers and all pairs of gaps of a policy with every violation, 90 statement forms in 9 surroundings, "
      "inserted lines at all pairs of places, up to 70000 lines and 100000 characters."),
    P("C22", "Exactly the policy language is accepted, and errors are reported in place",
      "A te, if, permission macro or class file is accepted if and only if it belongs to the supported policy language. Otherwise F-001 "
      "is reported for that file at the line of the first token with which no valid file can begin that way, with that line quoted; for "
      "te and if files nothing else is reported, no summary is printed and the exit status is that for a parse failure, whatever other "
      "files are given.",
      ["inputs"], "all token sequences",
      "The language is infinite and the grammar has some 200 rules; the tests hold a few dozen files. A construct that is wrongly rejected "
      "stops the whole run, and one that is misread is not checked.",
      ["src/parse.y", "src/lex.l", "src/runner.c", "src/parse_functions.c"],
      [("grammar", "src/parse.y"), ("lexer rules", "src/lex.l"), ("yyparse_wrapper, yyerror", "src/parse.y"), ("parse_one_file", "src/runner.c")],
      "An Earley parser of the language as the model, compared on every single edit (any token deleted, swapped, replaced, inserted, file cut) of "
      "110 statement forms, alone and in 11 blocks, all sequences of up to 3 (4 thorough) tokens, all texts of up to 2 (3) of 34 characters."),
    P("C23", "No input crashes selint or makes it hang",
      "Whatever the policy files, support files, configuration and command line contain - valid or not, of any size, nesting or "
      "encoding, and interfaces, templates and permission macros calling each other in any way, even in circles - selint ends by itself "
      "with one of its exit statuses and never reads or writes memory it does not own or relies on undefined behaviour.",
      ["inputs", "configurations"], "all inputs",
      "Memory errors show on odd inputs and often only under a sanitizer; the tests use well-formed policies and plain builds.",
      ["src/parse_functions.c", "src/parse_fc.c", "src/template.c", "src/string_list.c", "src/maps.c", "src/tree.c", "src/perm_macro.c", "src/util.c"],
      [("parser actions", "src/parse_functions.c"), ("parse_fc_line, parse_context", "src/parse_fc.c"), ("replace_m4, add_template_declarations", "src/template.c"),
       ("compute_perm_mask", "src/perm_macro.c")],
      "Address and undefined behaviour sanitizers on every single edit of 110 statement forms, 36 odd names in every position, nestings to 3000, all call "
      "graphs of up to 3 templates and macros, all fc lines of up to 3 (4 thorough) pieces, all cuts of every file, all pairs (triples) of command line words."),
    P("C24", "Normal mode knows the kernel's classes and the installed interfaces",
      "Without -s and --context, the classes are those of the running kernel and every .if file below /usr/share/selinux/devel counts as a "
      "context file: its interfaces, templates and layers are used exactly as those of a context in source mode, also when the module is scanned as well, "
      "and nothing is reported on it. Modules, permission macros and classes of files in the scanned tree are not used and other installed "
      "files are ignored. A header that cannot be read or parsed fails the run. With -s or --context nothing installed counts.",
      ["inputs", "configurations"], "all kernels and sets of installed headers",
      "The tests run on a machine without either directory, so the default mode of the tool is never run with what it is meant to use.",
      ["src/main.c", "src/startup.c", "src/runner.c", "src/te_checks.c"],
      [("load_access_vectors_kernel", "src/startup.c"), ("load_devel_headers", "src/startup.c"), ("mark_transform_interfaces", "src/startup.c"),
       ("check_unknown_class_condition", "src/te_checks.c")],
      "All sets of 3 classes and permissions with up to 2 of 9 class names, 2 headers in 9 places with 11 misleading files in 4 modes, all partitions of a policy "
      "into scanned, installed, both and absent, 19 broken files, every failing open and read of 3 headers, up to 300 headers."),
    P("C25", "Every finding names the culprit",
      "The message of a finding names what it is about. C-004, E-006, E-010, S-005, W-006 and W-010: the interface, declaration, word or call; C-005 and C-006: "
      "two neighbours in the order they have in the file, of which the second belongs first, or the repeated one; C-001: a line that stands on the wrong "
      "side and need not move; S-002 and W-001: a foreign name and its module; S-004: interface and template; S-009: macro and class; S-010: a macro of the class not "
      "used yet, exactly the words it replaces and the permissions it would add; W-002 and W-003: kind and name not required or not used; "
      "W-004: the character, its position and the path; W-005: call and module; W-007: call, number and first words of the argument; W-009: module and "
      "file; W-011: kind, name and module if any; E-003, E-004, E-005, E-007 and E-008: the unknown name. The letter before it is that of the check.",
      ["inputs"], "all statements with several names",
      "A finding on the right line with the wrong name sends the user looking in the wrong place. The tests look at ids and lines only.",
      ["src/te_checks.c", "src/if_checks.c", "src/fc_checks.c", "src/perm_macro.c", "src/ordering.c", "src/check_hooks.c"],
      [("check functions", "src/te_checks.c"), ("check functions", "src/if_checks.c"), ("check functions", "src/fc_checks.c"), ("permmacro_check", "src/perm_macro.c"),
       ("get_ordering_reason", "src/ordering.c"), ("make_check_result", "src/check_hooks.c")],
      "64 statement forms with up to 3 foreign names and every subset of them required, all require blocks of up to 3 (4 for C-006) declarations, all argument "
      "lists of up to 3, permission lists of up to 4 of 6 words, permission sets of up to 4 (6 thorough) of 13 words, file context lines, sequences of up to 4 statements for C-001."),
    P("C26", "Blocks are transparent to the checks",
      "A statement has the same findings at any depth of optional_policy, ifdef, ifndef, tunable_policy, if, ifelse and userdebug_or_eng blocks, in any of "
      "their branches, as on its own, in te files, interfaces and templates; so have the statements after it and in other files, to which whatever it declares is known "
      "as if it stood alone. What is required inside ifdefs of a require block is required. Statements in one branch do not change the findings of another branch. "
      "Disable comments work at every depth. Exceptions: the order of statements (C-001), of the lines of a require block (C-006), a require block without "
      "direct requirements (S-001), and calls inside the first branch of an optional block, which need none (W-005).",
      ["inputs"], "all nestings of blocks",
      "Policy is full of conditional blocks; a check that does not look into one kind of branch silently misses whole parts of a policy. The tests have a few nestings of a few statements.",
      ["src/parse.y", "src/parse_functions.c", "src/tree.c", "src/runner.c", "src/te_checks.c", "src/if_checks.c"],
      [("block rules", "src/parse.y"), ("begin_block, end_block", "src/parse_functions.c"), ("dfs_next", "src/tree.c"), ("run_checks_on_one_file", "src/runner.c")],
      "91 statement forms, 19 kinds of blocks and branches nested to depth 2, 8 to depth 3 (thorough: 3, and 4 to depth 4), 60 (200) deep; all pairs of statement forms in two branches or one."),
    P("C27", "How the command line is written does not matter",
      "Options mean the same in every spelling (short, clustered, argument attached or separate, long, any unambiguous abbreviation), in every order, before, between "
      "or after the paths, and given once or twice; everything behind -- is a path. -v, --debug-parser and --color do not change the findings, the summary or the exit status, nor lose any "
      "other line of the output, whatever else goes wrong. --help and --version print only that and succeed wherever they stand. A word that "
      "is no option, or an ambiguous abbreviation, is a usage error.",
      ["inputs"], "all command lines",
      "Selint is called from scripts and makefiles that write options in every way and turn on verbose output when something looks odd; the tests call it with few command lines.",
      ["src/main.c", "src/util.c", "src/color.c"],
      [("main (getopt_long)", "src/main.c"), ("print_if_verbose", "src/util.c"), ("color_enable", "src/color.c")],
      "every spelling at every position, every order of up to 4 (5 thorough) of 14 options and a path, clusters of up to 4 flags, all subsets of the output options over 13 scenarios."),
    P("C28", "Names are just names",
      "Consistently renaming anything a policy declares - a type, alias, attribute, role, role attribute, user, boolean, class, permission, permission macro, "
      "module, interface, template, stem of a template, custom macro, ifdef symbol, name or path - to any other legal name that is free changes nothing but "
      "that name in the findings: not when names are one letter or hundreds long, begin, end or look like keywords, differ only in capitals or in the last "
      "letter, or are prefixes of one another. Only the documented conventions look into names: alphabetical order (C-001, C-005, C-006), _t for a process type "
      "(C-007), <class>_perms and all_..._perms for permission macros, <module>_ for interfaces.",
      ["inputs"], "all policies",
      "A policy writer names things freely; the tests use a handful of short names, while lookups, lexing and comparisons of prefixes and suffixes depend on them.",
      ["src/lex.l", "src/maps.c", "src/te_checks.c", "src/if_checks.c", "src/template.c"],
      [("lexer rules", "src/lex.l"), ("look_up_in_decl_map, look_up_in_ifs_map", "src/maps.c"), ("get_names_in_node", "src/tree.c")],
      "a policy of 9 files with 44 names and 80 findings, renamed in every listed way (one name, two related names, two exchanged, all names) and compared with itself."),
    P("C29", "Everything is judged on its own",
      "What is reported for a statement, an interface or template, or a line of a file context file does not depend on the other ones in its file: it is the "
      "same alone and among others, before or behind them, next to them or thousands of lines away, on a line of its own or sharing one, and every further "
      "occurrence of a violation is reported again. Parts influence each other only through the names they declare or require and through the order of "
      "statements (C-001).",
      ["inputs"], "all policies",
      "Tests show one violation per file; that nothing is carried over from one statement to the next (a buffer, a flag, a last position) is a claim on all sequences.",
      ["src/runner.c", "src/check_hooks.c", "src/te_checks.c", "src/if_checks.c", "src/fc_checks.c", "src/parse.y"],
      [("call_checks", "src/check_hooks.c"), ("check functions", "src/te_checks.c"), ("check functions", "src/if_checks.c")],
      "about 160 statement forms, 18 kinds of interfaces and 20 lines of file contexts in all sequences and orders within the bounds, compared with each one alone.")
]

# what each check compares the runs with
ORACLE = {
    "C01": "the selection rule of selint.conf and README written as a function, applied to the hand-verified findings of the fixture policy",
    "C02": "a decision table of exit statuses in the documented order of precedence",
    "C03": "the findings of the same run without summary (and the fixture); the summary must be their count, the report their list",
    "C04": "the fixture's findings minus those whose statement carries a comment naming the check; scopes by tree structure",
    "C05": "a Python model of m4 argument substitution and of declaration by (nested, recursive) template calls",
    "C06": "the style guide's order as a key per statement; the number of findings must be n - (longest ordered subsequence), see below",
    "C07": "a model of scope: a name is known where a require block of the same or an enclosing block precedes (or contains) the use",
    "C08": "the same scope model for interfaces, and use counting per require block",
    "C09": "per-check rules on the structure of the file (documentation, first letters, gen_require, order of requirements)",
    "C10": "per-check rules on calls: defined, arguments quoted, own module, name of a template or type",
    "C11": "a grammar of fc lines written from the file_contexts format; a line is reported iff it is not in it",
    "C12": "sets of declared users, roles, types, modules; a model of regular expression metacharacters in paths",
    "C13": "macro permission sets as Python sets: S-009 iff another class, S-010 iff the permissions equal/contain a macro's set",
    "C14": "sets: repeated elements, undeclared permissions and classes, known modules",
    "C15": "the definition of each check on the token level: redundant semicolons, stray words, missing names, header kinds",
    "C16": "the run on the same files without any context, and the declared names of all context files",
    "C17": "the union of the findings of runs on each file among its definitions: a function of the set, not of the order",
    "C18": "a Python walk of the tree by the documented rules",
    "C19": "the fault-free run: with the k-th open or read failing the run must fail or be equal to it",
    "C20": "settings as a dictionary and the documented effect of each on the findings of a probe policy",
    "C21": "the fixture's findings with lines moved by the known positions of tokens; for other statements the unchanged layout",
    "C22": "an independent lexer and Earley recogniser (mc/syntax.py) giving acceptance and the offending token",
    "C24": "the same files as a context of source mode (and the fixture's findings without those needing files unused in normal mode)",
    "C25": "the list of culprits known from how each case is built; the wording of messages is not judged, only the policy names, kinds, numbers and lines in it",
    "C26": "the same run with the statement outside of all blocks",
    "C28": "the findings of the same policy under its original names, with the names replaced",
    "C29": "the findings of every part alone between the same lines",
    "C27": "the run with the canonical command line: long options before the paths, no output options",
    "C23": "address and undefined behaviour sanitizers, the list of exit statuses and a time limit",
}
COST = {"C01": 6, "C02": 6, "C03": 5, "C04": 5, "C05": 21, "C06": 10, "C07": 33, "C08": 41, "C09": 19, "C10": 11, "C11": 17, "C12": 20, "C13": 5, "C14": 6,
        "C15": 37, "C16": 4, "C17": 24, "C18": 40, "C19": 8, "C20": 7, "C21": 33, "C22": 70, "C23": 230, "C24": 23, "C25": 27, "C26": 100, "C27": 40, "C28": 40, "C29": 90}
