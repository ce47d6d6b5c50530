#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
CFG, GRP, DIR, EQN, UTL = ('NRWAL/handlers/config.py', 'NRWAL/handlers/groups.py',
                           'NRWAL/handlers/directories.py', 'NRWAL/handlers/equations.py',
                           'NRWAL/utilities/utilities.py')
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


prop('C01', 'Config expressions follow ordinary arithmetic',
     'The value of every config expression equals ordinary (Python) arithmetic applied to the values of its operands: usual precedence of + - * / and ** (or ^), left-to-right subtraction and division, right-to-left powers, unary minus, and parentheses nested or repeated in any number, whatever the spacing. '
     'Operands may be number literals (also in scientific notation, also negative), inputs, config constants, other config entries, library equations and variables addressed by "::" paths, members of a library group named in the config, and numpy function calls (whose arguments may themselves be expressions over names and numbers). All operands see one shared set of variable values (where two operands that use a variable bring different defaults for it, the right-most applies).',
     ['inputs', 'programs'], 'every expression of the grammar, every spacing and parenthesisation, every kind of operand in every position',
     'Tests evaluate about twenty fixed expressions (and test_config_math discards its comparisons: np.allclose without assert); the grammar is unbounded and the parser is hand written, splitting strings at operators.',
     [CFG, UTL, EQN], [('recursive split at the lowest-precedence operator', CFG + ' NrwalConfig._parse_equation'), ('parenthesis / numpy call extraction into a workspace', CFG + ' NrwalConfig._parse_equation, ' + UTL + ' find_parens, find_np_pd_methods'), ('operand resolution', CFG + ' NrwalConfig._parse_expression')],
     [('workspace', 'parsed parenthetical parts of the expression under way', CFG + ' gvars')], ['NrwalConfig.evaluate', 'NrwalConfig[...]'])

prop('C02', 'Arithmetic inside retrieval keys follows ordinary arithmetic',
     'Retrieving from an equation group or an equation directory with a key that is an expression (names or "::" paths and plain numbers joined by + - * / ** or ^, with parentheses in any number) returns an equation whose value is ordinary (Python) arithmetic applied to the values of the named equations and variables, under one shared set of variable values. '
     'A key that is not understood is refused with an error; it never yields an equation with another value.',
     ['inputs', 'programs'], 'every key expression of the grammar, from groups (top level and nested) and from directories',
     'Tests retrieve about twenty keys; none chains two subtractions or two divisions.',
     [GRP, DIR, UTL], [('recursive split of the key', GRP + ' AbstractGroup._getitem_math'), ('group retrieval', GRP + ' AbstractGroup._getitem'), ('directory retrieval', DIR + ' EquationDirectory._getitem')],
     observe=['EquationGroup[...]', 'EquationDirectory[...]', 'Equation.eval'])

prop('C03', 'Arithmetic on equation objects composes values',
     'For equations A and B (B may also be a number or an expression string), A + B, A - B, A * B, A / B and A ** B, combined to any depth, are new equations whose value is the same operation applied to the operand values under one shared set of variable values, whose variables are the union of the operands\' variables, and whose default variable values are those of both operands (the right operand\'s value where both define one, except for a variable that only the left operand uses). '
     'The operands themselves are left unchanged.',
     ['inputs', 'programs'], 'every tree of operations over every kind of operand, negative numbers and operands used twice included',
     'test_eqn_math uses one pair of equations per operator and no trees, no negative numbers and no default variables.',
     [EQN], [('textual composition with parentheses', EQN + ' Equation.__eqn_math'), ('merge of defaults', EQN + ' Equation.__eqn_math')],
     observe=['Equation operators', 'Equation.eval', 'Equation.variables', 'Equation.default_variables'])

prop('C04', 'An equation needs exactly its free variables',
     'An equation reports as its variables exactly the free variable names of its formula, in sorted order and without duplicates: no numbers (in any notation), no numpy/pandas functions or constants, no called numeric built-ins (abs, max, min, pow, round, sum), no keyword-argument names, whatever the spelling and spacing of names, numbers, operators, comparisons, calls, lists and index brackets. '
     'Evaluating it gives the arithmetic value of the formula if every variable is supplied at run time or has a default, run-time values taking precedence over defaults and extra values being ignored; with any variable missing it raises RuntimeError and returns nothing.',
     ['inputs', 'programs'], 'every formula of the grammar, every subset of its variables supplied, every subset defaulted',
     'Tests look at the variables of about eight formulas and always supply all or none of them.',
     [EQN], [('tokenising of the formula', EQN + ' Equation.parse_variables, is_variable, is_num, is_method'), ('missing argument test and evaluation', EQN + ' Equation.evaluate')],
     observe=['Equation.variables', 'Equation.evaluate'])

prop('C05', 'Forbidden code is refused at every entry point',
     'An expression containing a forbidden fragment ("import ", "os.", "sys.", ".__", "__.", "eval", "exec") (outside the names of existing entries and paths) is rejected with an error when it is loaded, wherever in the expression the fragment stands and whichever way the expression arrives: an equation object, an equation produced by arithmetic or replacement, a group or directory file at any nesting depth, a retrieval-key or config expression, or a config that points to another config file. '
     'No part of a refused expression is ever executed.',
     ['inputs', 'configurations'], 'every forbidden fragment, every position in the expression, every entry point',
     'No test contains a forbidden fragment.',
     [EQN], [('preflight scan of every equation string', EQN + ' Equation._preflight, Equation.ILLEGAL')],
     observe=['constructors of Equation, EquationGroup, EquationDirectory, NrwalConfig'])

prop('C06', 'References between equations of one group resolve by name',
     'In an equation group, an equation whose formula mentions another equation of the same group by name has the value obtained by evaluating that other equation in its place (recursively, as a parenthesised unit), and needs only the variables left after that. '
     'This holds for every order of definition and every choice of names: a name matches only whole variable names, never part of a longer name, of a number or of a function. A group whose equations refer to each other in a circle, directly or indirectly, is refused with ValueError, and loading always terminates.',
     ['inputs', 'configurations'], 'every dependency graph between the equations of a group, every order, every choice of names (prefixes and suffixes of each other included), nested groups and groups in files',
     'One test file has five equations with unrelated names; two files have cycles.',
     [GRP, EQN], [('inlining until nothing changes', GRP + ' EquationGroup._parse_group'), ('self-reference rejection', EQN + ' Equation.verify_no_self_reference')],
     observe=['EquationGroup[...].eval', 'EquationGroup[...].variables'])

prop('C07', 'A directory object mirrors the equation files on disk',
     'A directory object holds one group per yaml, yml or json file and one sub-directory object per folder that contains equation files at any depth, at the same nesting, and nothing else: hidden ("."), "__" and other files and folders without equations do not appear. '
     'Every path "folder::file::group::equation" (of names free of arithmetic operators), with or without the file extension, retrieves the equation written there, the listing of all equations contains each of them exactly once, and a path that does not exist is not "in" the directory and raises KeyError (or yields the fallback of a get call) rather than another object or another error.',
     ['inputs', 'configurations'], 'every small tree of folders and files of every kind, every existing path and every one-step-off path',
     'One fixed tree is loaded; a dozen paths are retrieved.',
     [DIR, GRP], [('recursive loading', DIR + ' EquationDirectory._parse_eqn_dir'), ('path retrieval', DIR + ' EquationDirectory._getitem, ' + GRP + ' AbstractGroup._getitem')],
     observe=['EquationDirectory keys / items / [...] / get / all_equations'])

prop('C08', 'Default variables come from the nearest enclosing variables file',
     'The default value an equation sees for a variable is the one in the variables file of the closest enclosing folder that defines it, and there is no default if no enclosing folder defines it; variables files of sibling or descendant folders never contribute. '
     'The values set programmatically on a directory act like the next enclosing folder: they reach everything below except where a lower variables file defines the variable, unless an update is forced, in which case they win everywhere below; values set on a group or an equation reach everything in it, the latest setting winning. A value passed when evaluating always wins over any default.',
     ['configurations', 'histories'], 'every placement of variables files over a folder tree, loaded from any folder of it, followed by programmatic updates',
     'One tree with two nested variables files and no siblings.',
     [DIR, GRP, EQN], [('propagation of variables down the tree', DIR + ' EquationDirectory.set_default_variables, ' + GRP + ' AbstractGroup.set_default_variables'), ('precedence at run time', EQN + ' Equation._merge_vars')],
     [('default variables', 'namespace of every directory, group and equation', '_default_variables')], ['Equation.evaluate', 'default_variables'])

prop('C09', 'Power and year lookups: exact, else interpolate, else nearest, else KeyError',
     'Retrieving "name_<n>MW" ("MW" in any letter case) or "name_<yyyy>" (years 1800 to 2200) returns the equation stored under exactly that key when it exists; otherwise, with interpolation enabled for that kind, the straight line through the two available values of the same name nearest to the request (or the only one available); otherwise, with nearest lookup enabled for that kind, the nearest; otherwise KeyError, as for every key without a match. '
     'The power and the year switches act independently of each other, apply at the last step of a path in groups nested at any depth and to every operand of a key expression or a config, and equations with another base name never take part.',
     ['inputs', 'configurations'], 'every set of available powers / years, every request, all 16 switch combinations, constant and variable equations, file order, nesting',
     'Tests use one set of three powers and one of three years with five switch combinations.',
     [GRP, DIR, CFG], [('neighbour search', GRP + ' find_nearest_power_eqns, find_nearest_year_eqns'), ('selection', GRP + ' AbstractGroup._getitem, _get_nn_eqns_values')],
     observe=['EquationGroup[...]', 'EquationDirectory[...]', 'NrwalConfig'])

prop('C10', 'Evaluation always reflects the current inputs',
     'After any sequence of setting, updating and clearing inputs, evaluations (successful or failed) and output resets, a config evaluation returns exactly what a newly built config would return for the inputs now in force: it uses the latest value of every input, never a result of an earlier evaluation. '
     'Inputs accumulate across updates (later values win) until cleared; a rejected update changes nothing; results handed out earlier are not altered by later calls, nor do changes the caller makes to computed results show in later evaluations; and an evaluation with inputs missing raises RuntimeError.',
     ['histories', 'fault_sequences'], 'every sequence of operations on a config object up to a bound, failing operations included',
     'Tests evaluate each config object once.',
     [CFG], [('input store', CFG + ' NrwalConfig.inputs setter'), ('evaluation loop over unsolved entries', CFG + ' NrwalConfig.evaluate, solved, to_be_solved'), ('output store', CFG + ' NrwalConfig._outputs, reset_output')],
     [('inputs', 'current input namespace', CFG + ' _inputs'), ('outputs', 'results of the last evaluation', CFG + ' _outputs')], ['NrwalConfig.evaluate', 'NrwalConfig.inputs', 'NrwalConfig.outputs'])

prop('C11', 'The order of config entries does not matter',
     'A config gives the same results for every order of its entries: an entry may use any other entry, defined earlier or later, inside an arithmetic expression, as an alias, inside a numpy call, as a variable of a library equation it names, or as the group or folder prefix of a path, through chains of any length (arithmetic chains as far as Python\'s limit on nested parentheses). '
     'Every entry has the value obtained by evaluating the entries it uses first.',
     ['inputs', 'configurations'], 'every dependency graph, every kind of reference, every permutation of the entries; long chains in both directions',
     'Test configs list their entries in dependency order.',
     [CFG], [('inlining of entries', CFG + ' NrwalConfig._parse_expression'), ('iteration until solved', CFG + ' NrwalConfig.evaluate')],
     observe=['NrwalConfig.evaluate'])

prop('C12', 'Equivalent ways to state a config or its inputs give equal results',
     'A config given as a dictionary, a yaml, yml or json file gives the same results; so do an entry that points to an entry of another config file (through any number of such pointers) and the same text written in place, a lookup switch set in the config and the same switch passed as an argument, and inputs given as a dictionary or a data table, at construction, by assignment or at evaluation. '
     'A pointer to a missing file or entry, without a retrieval key, combined with arithmetic, or in a config not read from a file is refused when the config is loaded.',
     ['inputs', 'configurations'], 'every combination of representation, pointer depth, folder layout, switch placement and input route',
     'One test compares one pair of files.',
     [CFG], [('loading and pointer resolution', CFG + ' NrwalConfig._load_config'), ('switches', CFG + ' NrwalConfig.__init__'), ('input conversion', CFG + ' NrwalConfig.inputs setter')],
     observe=['NrwalConfig', 'NrwalConfig.evaluate'])

prop('C13', 'Required and missing inputs are reported exactly',
     'The required inputs of a config are exactly the variables its equations need that neither the config nor a variables file provides, sorted and without duplicates; the missing inputs are the required ones not yet supplied; and the config is reported solvable if and only if none is missing. '
     'Evaluation of a config without circular references succeeds, with a value for every equation entry, if and only if the config is solvable; otherwise it raises RuntimeError. An entry whose value is constant is available as a global variable.',
     ['inputs', 'configurations'], 'every config of the enumerated family and every subset of its inputs supplied',
     'Tests count required inputs of one config and supply one, two or all of them.',
     [CFG, EQN], [('required / missing / solvable', CFG + ' NrwalConfig.required_inputs, missing_inputs, solvable'), ('global variables', CFG + ' NrwalConfig.global_variables')],
     observe=['NrwalConfig.required_inputs', 'NrwalConfig.missing_inputs', 'NrwalConfig.solvable', 'NrwalConfig.evaluate'])

prop('C14', 'Circular config references are refused, acyclic ones accepted',
     'A config whose expressions refer to each other in a circle of any length, directly or through other entries, with any kind of reference and wherever in the config the circle lies, is refused with RuntimeError when it is loaded, in bounded time. '
     'Entries that need each other only through the variables of the library equations they name never get a value either: evaluating them raises RuntimeError. '
     'A config without a circle is never refused for one, however entries share sub-entries and whatever their names.',
     ['configurations'], 'every directed graph on up to 3 (quick) or 4 (thorough) entries, every reference style, long rings, names contained in each other',
     'Two tests: one ring of two and one of three.',
     [CFG, EQN], [('reference walk', CFG + ' NrwalConfig._check_circ_ref'), ('variables of an expression', EQN + ' Equation.parse_variables')],
     observe=['NrwalConfig'])

prop('C15', 'Objects are isolated and arguments are never modified',
     'Building, combining, retrieving from, updating, evaluating or discarding one object never changes the value, variables, defaults or contents of another: not the dictionaries, arrays or tables passed in by the caller, not the operands or the source of a combined or derived equation, group or directory, and not a config built from the same dictionary, file or folder. '
     'Lists and tables that an object hands out may be changed freely by the caller. Repeating the same construction or evaluation therefore gives the same results.',
     ['histories'], 'every interleaved sequence of operations on two or more objects up to a bound',
     'Tests use each object alone and never look at the arguments afterwards.',
     [EQN, GRP, DIR, CFG], [('deep copies of namespaces', EQN + ' _merge_vars, set_default_variables, __eqn_math'), ('deep copies of groups and configs', GRP + ' __add__, ' + DIR + ' __add__, set_default_variables, ' + CFG + ' _load_config, _parse_config')],
     observe=['all public methods'])

prop('C16', 'Merging groups or directories is a right-biased union',
     'Adding one group or directory to another (as an object, a file or folder path, or for groups a dictionary) gives a new object that contains exactly the keys of both, the right one\'s entry where both have a key. '
     'Each entry keeps its formula and its default values, overridden by the defaults of the right object (for a directory, those its own variables file and programmatic settings give it), a lower-level variables file still winning inside its own folder; and neither addend is changed.',
     ['inputs', 'configurations'], 'every pair of small groups / directories with every overlap of keys and defaults, chains of merges',
     'One test per class with one pair each.',
     [GRP, DIR], [('group merge', GRP + ' AbstractGroup.__add__'), ('directory merge', DIR + ' EquationDirectory.__add__')],
     observe=['EquationGroup +', 'VariableGroup +', 'EquationDirectory +'])

prop('C17', 'Array inputs are evaluated element by element',
     'Evaluating an equation or a config whose formulas use elementwise operations on arrays (of any integer type or float type of at least single precision, boolean masks, any length or shape, mixed with scalars) gives at every position the value obtained by evaluating with the scalars at that position, within single precision, in the input\'s shape. '
     'Integer inputs behave as the same numbers written as floats, and the caller\'s arrays are not modified.',
     ['inputs'], 'every combination of scalar / array kind and dtype per variable over a small value set, Equation and config routes, dictionary and table',
     'Tests use constant arrays of ones, where positions and types cannot be told apart.',
     [EQN, CFG], [('input conversion', EQN + ' Equation._check_input_args, ' + CFG + ' NrwalConfig.inputs setter')],
     observe=['Equation.evaluate', 'NrwalConfig.evaluate'])

prop('C18', 'Value sources have a fixed priority in a config',
     'For a variable of a library equation used by a config, the value used is, in this order: the config entry of that name if it is computed, the input of that name, the config constant of that name, the default from the library\'s variables files; it is required as an input only if none exists. '
     'Inputs also override config constants of the same name in config expressions and numpy calls, whatever the order of the entries.',
     ['inputs', 'configurations'], 'every combination of sources present, every kind of use, every entry order',
     'Tests never supply the same name from two sources in a config.',
     [CFG, EQN], [('namespace assembly', CFG + ' NrwalConfig.evaluate'), ('globals as defaults', CFG + ' NrwalConfig._parse_expression'), ('defaults', EQN + ' Equation._merge_vars')],
     observe=['NrwalConfig.evaluate', 'NrwalConfig.required_inputs'])

prop('C19', 'The shipped library and default configs compute what their files say',
     'For every equation of the shipped analysis library and every entry of every shipped default config, the value NRWAL computes equals the formula written in its file, evaluated with ordinary arithmetic, the variables file of its own folder and the entries and library equations it names (power and year interpolation as switched in the config). '
     'Every default config loads, becomes solvable by supplying its reported inputs and then evaluates completely.',
     ['inputs', 'configurations'], 'all library equations and all default configs, over a grid of input vectors',
     'The library tests only check that equations evaluate without an exception at one point and that configs load; the numeric ORCA tests are skipped.',
     ['NRWAL/analysis_library', 'NRWAL/default_configs', EQN, GRP, DIR, CFG], [('whole pipeline', CFG + ' NrwalConfig')],
     observe=['EquationDirectory[...].eval', 'NrwalConfig.evaluate'])

prop('C20', 'Independent objects may be used from concurrent threads',
     'Building and evaluating separate equations, groups, directories and configs, and evaluating one shared equation, from several threads at once gives in every interleaving the results of running the same calls one after the other.',
     ['schedules'], 'every interleaving of two threads at source-line granularity within a preemption bound',
     'No test uses threads.',
     [EQN, GRP, DIR, CFG], [('no shared mutable state outside the objects', 'NRWAL/handlers')],
     observe=['Equation.evaluate', 'EquationGroup', 'EquationDirectory', 'NrwalConfig'])

prop('C21', 'Copied and pickled objects behave like the original',
     'A deep copy of, or a pickle round trip through, any equation, group, variable group, directory or config, taken at any point of its use, is an object of the same kind that gives the same values, variables, keys, lookups, printed form, inputs, outputs and errors as the original at that moment, '
     'responds to later operations as an object that was never copied would, and is independent: operations on one never show in the other.',
     ['histories'], 'every kind of object, every short history before copying, every way of copying, every short history afterwards on either',
     'No test copies or pickles an object.',
     [EQN, GRP, DIR, CFG], [('attribute fallback', CFG + ' NrwalConfig.__getattr__'), ('state held by the objects', EQN + ' Equation.__init__, ' + GRP + ' AbstractGroup.__init__, ' + DIR + ' EquationDirectory.__init__')],
     observe=['copy.deepcopy', 'pickle.dumps', 'pickle.loads'])

prop('C22', 'A config reports its own state truthfully',
     'At every point of a history of input updates, evaluations (successful, refused or failing half way) and output resets, a config lists its entries in the order of its definition; an entry asked for by key, attribute or get() is the result of the latest evaluation if there is one that was not reset, else its equation or group; an unknown name is an error or the given fallback. '
     'Its outputs hold nothing that was reset or that a later evaluation replaced, and its constants, variables, entries to be solved and solved flag agree with them.',
     ['histories', 'configurations'], 'every choice and order of entry kinds, every history of operations up to a bound',
     'Tests look at these properties once, after a single evaluation.',
     [CFG], [('access', CFG + ' NrwalConfig.__getitem__, __getattr__, get, keys, items, values'), ('state', CFG + ' NrwalConfig.to_be_solved, solved, outputs, reset_output, all_variables, global_variables')],
     observe=['NrwalConfig.outputs', 'NrwalConfig.solved', 'NrwalConfig[...]'])

prop('C23', 'Malformed definitions never yield a value',
     'A text that is not well-formed arithmetic (missing, doubled or misplaced operators, unbalanced parentheses, an empty text) never has a value as an equation, retrieval key or config entry: it is refused when it is defined, retrieved or evaluated, and whatever is accepted has the value ordinary arithmetic gives it. '
     'A definition of the wrong kind (nothing, a list, a number as key, a variable that is not a number) at any depth, and a file that is empty, malformed, not a mapping, asks for Python objects, has another extension or does not exist, is refused with an error by every loader; other files in a library folder are ignored.',
     ['inputs', 'configurations'], 'every token string up to a length on every route; every malformed value at every position, depth and container; every malformed file through every loader',
     'Tests try a few single malformed values.',
     [EQN, GRP, DIR, CFG], [('equation text', EQN + ' Equation.__init__'), ('group values', GRP + ' _parse_group, _load'), ('directory files', DIR + ' EquationDirectory._parse_eqn_dir'), ('config values', CFG + ' NrwalConfig._load_config, _parse_config, _parse_expression')],
     observe=['Equation', 'EquationGroup', 'VariableGroup', 'EquationDirectory', 'NrwalConfig'])

prop('C24', 'Printed forms and formula texts describe the object truthfully',
     'At every point of its use an equation prints as its name (or "Equation") and, in parentheses, its variables: first those without a default, then those with one as name=value with the value now in force, each part in sorted order; an equation that is a number prints as that number, and one made by arithmetic as the parenthesised operands as they printed when they were combined. '
     'A group, directory or config prints a heading and below it one entry per key with the lines of everything nested in it indented by a tab (a directory: its variables file, then its files, then its folders); repr is the same text, and head(n) and tail(n) are its first and last n (at least one) lines. The formula text of an equation ("full") together with its defaults defines an equation with the same value and variables.',
     ['histories', 'configurations'], 'every kind of equation, every short history of printing, setting defaults, combining and copying; every small group, folder and config',
     'Tests print a handful of objects once, before any update.',
     [EQN, GRP, DIR, CFG], [('printing', EQN + ' Equation.__str__, ' + GRP + ' EquationGroup.__str__, VariableGroup.__str__, ' + DIR + ' EquationDirectory.__str__, ' + CFG + ' NrwalConfig.__str__'), ('text', EQN + ' Equation.full, __eqn_math')],
     observe=['str', 'repr', 'head', 'tail', 'Equation.full'])

prop('C25', 'Objects are what their files held when they were loaded',
     'A file or folder gives the same object whatever the form of its path (absolute, relative, with ".", ".." or repeated slashes, through symbolic links), whatever the current folder, and whatever the textual form of the mapping in the file (block or flow style, quoting, comments, line ends, anchors, json). A pointer in a config is found relative to the file it is written in, a relative equation directory relative to the current folder. '
     'Once loaded, an object depends on the files no more: changing, replacing, moving or removing them or changing the current folder does not show in its values, contents or copies, and loading again gives what the files hold then.',
     ['configurations', 'histories'], 'every loader, form of path, current folder, event after loading and later use',
     'Tests load absolute paths once each.',
     [GRP, DIR, CFG], [('loading', GRP + ' AbstractGroup._parse_group, ' + DIR + ' EquationDirectory._parse_eqn_dir, ' + CFG + ' NrwalConfig._load_config')],
     observe=['EquationGroup', 'VariableGroup', 'EquationDirectory', 'NrwalConfig'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
