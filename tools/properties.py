prop('C08', 'Formulas compile to the formula that was written',
     'A cell whose text starts with = is compiled to a formula with the same meaning: operators bind and group as they do in a spreadsheet (comparison, &, + and -, * and /, ^ from the loosest to the tightest, parentheses overriding this), calls keep their name and every argument in its place, and literals keep their value. What is written is explicit enough that the grouping of operators does not depend on precedence anymore. Anything which is not a formula is rejected, no part of the text is silently ignored.',
     ['inputs'], 'every sequence of formula tokens up to the length bound over several alphabets (operators, levels, calls), with and without whitespace between tokens, and long random formulas with at most one mistake',
     'The tests parse a handful of formulas; whether the parser groups as the language says holds for every nesting of operators, signs, %, parentheses, calls and left out arguments, and rejecting non-formulas is about everything that is not a formula.',
     ['src/parser/ast_parser.rs', 'src/parser/ast_lexer/mod.rs', 'src/parser/ast_lexer/token_library.rs', 'src/ast/display.rs', 'src/ast/node.rs'],
     [('operator precedence parser', 'src/parser/ast_parser.rs'), ('lexer', 'src/parser/ast_lexer'), ('rendering of nodes', 'src/ast/display.rs')],
     'TLA+ grammar specification (Formula.tla) enumerated by TLC, every case replayed in the real compiler',
     'Exhaustive up to the length bounds over the chosen alphabets (quick: 160k token sequences), random beyond. The grammar is declarative and unrelated to the precedence climbing of the implementation. Right grouping of operators of the same precedence is a known finding.',
     ['the cells of the compiled spreadsheet'])
prop('C01', 'Cached object code makes no difference to the result',
     'Compiling gives the result (cells, or an error) that compiling every module from scratch would give, whatever happened before: after any history of compiling as a main module or as a dependency, editing, touching, deleting, breaking and repairing modules, moving the directory, and with --no-cache or key/values on the command line. Object code which is out of date, as old as its source, of another version of the compiler, truncated, empty or garbage is never used and never prevents compiling.',
     ['inputs', 'histories', 'fault_sequences'], 'every history of 3 (thorough: 4) steps after a first compilation over 4 modules which use each other (two graphs: shared dependencies, and a chain of 4), with the clock advancing or standing still between steps, and random histories of 12 steps; modules of all kinds (options, values, fills and names, definitions, scopes, layouts, mistakes: those of the other specifications) compiled with and without cache in any order',
     'The cache is only wrong after particular histories, like changing what a dependency of a dependency defines and going through another main module, or within the resolution of a timestamp.  Tests compile once or twice in fresh directories.',
     ['src/compiler/mod.rs', 'src/module_loader/mod.rs', 'src/module/mod.rs', 'src/lib.rs'],
     [('is object code up to date', 'src/module_loader/mod.rs'), ('object code file format', 'src/module'), ('when object code is written', 'src/lib.rs')],
     'TLA+ specification of the caching protocol (Cache.tla) checked by TLC to be transparent; every behaviour it generates is replayed in the real compiler with controlled timestamps',
     'TLC explores the protocol exhaustively to a depth of 4 (thorough: 5-6) steps and proves it transparent there. All of the histories of that set, with random longer ones, are then run on real files, and every compilation is compared to the from-scratch meaning which the specification computes.',
     ['result of every compilation in the history'])
prop('C02', 'Loading modules does not depend on timing and always ends',
     'Modules are loaded by concurrent threads. In whatever order the files are read and the threads run, with import cycles or modules importing themselves, loading ends, every module that can be reached is read exactly once, no other one is, and the result (all the cells, or an error that names every module which could not be loaded) is the same.',
     ['inputs', 'schedules', 'fault_sequences'], 'every order in which the contents of files can arrive, for all import graphs of up to 3 modules and samples of those with 4, any two modules missing or not compiling',
     'A test sees one import graph under whatever schedule the machine happens to pick. Races, deadlocks, and errors lost because another thread failed first need a particular order of arrival.',
     ['src/module_loader/mod.rs', 'src/compiler/mod.rs', 'src/error/mod.rs'],
     [('one thread per module with the modules reserved under a lock', 'src/module_loader/mod.rs'), ('collection of load errors', 'src/module_loader/mod.rs')],
     'TLA+ specification of the concurrent loader (Loader.tla): safety, deadlock freedom and liveness with TLC; its schedules are forced upon the real loader through FIFOs, and the recorded traces are validated against it (TraceLoader.tla)',
     'Safety and liveness are checked exhaustively with all interleavings for up to 3 modules. The order of arrival (what the environment controls) is forced in the real code by serving each module from a FIFO; the interleavings of internal steps in between are the ones which happen to occur.',
     ['result, the modules which were opened and in which order'])
prop('C03', 'A name means the same wherever its definition is imported to',
     'A name in an imported definition means what it does in the module where it was written: that module\'s own definitions, then those of modules it uses (the last use wins), whatever the importing modules happen to define; a name which means nothing there is looked up where it was imported to. In a cell of the main module a name is the main module\'s own definition, else an imported one (the last use wins), else the cell which is bound with var, else a key/value of the command line, else it is left as it is. Cells of dependencies have no influence, and neither does loading a dependency from cached object code.',
     ['inputs'], 'random programs out of the set of all those with main and 3 dependencies, import graphs, variables and functions which clash in all possible ways, key/values and cell names; every one of them in two compilations (from scratch, and with the cache)',
     'Shadowing needs several modules to define the same name and to use each other in a particular way; the tests have one or two modules with distinct names.',
     ['src/scope/mod.rs', 'src/module/mod.rs', 'src/compiler/mod.rs', 'src/ast/eval.rs'],
     [('merging of scopes', 'src/module_loader/mod.rs'), ('evaluation of references', 'src/ast/eval.rs')],
     'TLA+ specification of scoping (Scope.tla), by rewriting one name at a time, checked by TLC to be confluent; the programs it generates are compiled by the real compiler',
     'Programs are sampled from a set that is too large to enumerate (thorough: all import graphs over a smaller set of definitions). TLC checks of every program that the order of rewriting makes no difference.',
     ['the cells of the compiled spreadsheet'])
prop('C04', 'Variables and functions are expanded completely and hygienically',
     'In every cell, references to variables are replaced by their definition and function calls by the body with every parameter replaced by the argument, no matter how definitions refer to each other and in which order they are given. Arguments are never captured by parameters of the same name, parameters shadow variables and a variable, a function and a parameter can have the same name. Definitions which refer to themselves are not expanded endlessly; a call with the wrong number of arguments is an error.',
     ['inputs'], 'every program of up to 2 variables and 3 functions from pools of definitions (recursive, mutually recursive, shadowing and nested ones) with every cell of a pool, in random order of definitions, and random programs with up to 4 variables and 3 functions',
     'Capture and incomplete expansion depend on how names coincide across several definitions; the tests have a single function or variable at a time.',
     ['src/ast/eval.rs', 'src/ast/node.rs', 'src/scope/mod.rs', 'src/compiler/mod.rs'],
     [('evaluation of references and calls', 'src/ast/eval.rs')],
     'TLA+ small-step semantics (Lang.tla), checked by TLC to be confluent, terminating and equal to a big-step semantics; every program is compiled by the real compiler and compared',
     'Exhaustive over the pools (all reduction orders in the specification), random beyond. How many times a recursive definition is expanded is fixed by the specification: not inside of itself.',
     ['the cells of the compiled spreadsheet'])
prop('C05', 'Any input is compiled or rejected with a message, nothing crashes',
     'Whatever is given to csv++ (the code section, cells, formulas, options and their values, key/values, existing files in place of the output, the arguments), it ends within a bounded time, and it has either been compiled or is rejected with a message. It never panics, no matter which characters, encodings or numbers there are and where the input stops.',
     ['inputs', 'configurations'], 'every sequence of 2 (thorough: 4) tokens of each of 9 surfaces, every seed of these (correct inputs) with one edit and random ones with up to 5 edits, nested up to 300 levels; every command line of 2 and random ones of up to 9 arguments',
     'The tests give well-formed input, and a few mistakes which the author thought of. A panic needs the one combination of characters that was not thought of: a multi-byte character next to an index, a number past a limit, the end of the input after a particular token.',
     ['src/parser/ast_parser.rs', 'src/parser/ast_lexer/mod.rs', 'src/parser/cell_lexer/mod.rs', 'src/parser/cell_parser/mod.rs', 'src/parser/code_section_parser.rs', 'csvp/src/parser.rs', 'src/main.rs', 'src/cli_args.rs', 'src/output/mod.rs'],
     [('parsers', 'src/parser'), ('CSV parser', 'csvp'), ('excerpts of errors', 'src/error'), ('arguments', 'src/compiler/try_from.rs')],
     'TLA+ specification of what can be given as token sequences and their edits (Robust.tla, with the liveness property that a run ends); TLC enumerates them and each is given to the real compiler or binary under a time limit',
     'Exhaustive for short token sequences and single edits of correct inputs, random beyond. The specification only says that one of the two outcomes is reached, it is the weakest of them: what the outcome is, is decided by the others. An overflow of the stack with thousands of nested parentheses is a known finding.',
     ['result or message', 'panics and signals', 'exit status of the binary'])
prop('C06', 'Fills make exactly the rows that were asked for, in place',
     'A row with fill=N becomes N consecutive rows with the same cells, one without an amount as many as it takes for the spreadsheet to have 1000 rows in total, and other rows stay one row, all of them in their order. More than one fill without an amount is an error.',
     ['inputs'], 'every sequence of 3 (thorough: 5) rows with all combinations of fill amounts including 0, those around and past 1000, and without an amount',
     'The tests expand one or two small fills. Off-by-one errors only show up for particular combinations of amounts, their order and the size of the spreadsheet.',
     ['src/spreadsheet/mod.rs', 'src/row/mod.rs', 'src/cell/mod.rs', 'src/cell_options/fill/mod.rs'],
     [('expanding of fills', 'src/spreadsheet/mod.rs')],
     'TLA+ machine which lays out one row at a time (Sheet.tla), invariants checked by TLC; every sheet it lays out is compiled by the real compiler and read back from its CSV output',
     'Exhaustive over the amounts and lengths given; quick runs a sample of those with hundreds of rows.',
     ['the compiled spreadsheet', 'the CSV output'])
prop('C07', 'Names of cells, rows and fills refer to where these ended up',
     'A reference to the name of a cell or row becomes the A1 reference of where the cell or row is in the output, after fills have been expanded. From outside of a fill the name stands for the range of all its rows, and inside of it for the cell (or row) of that very row; this includes references by way of functions and variables. When a name is given several times the last one of them counts.',
     ['inputs'], 'every sheet of 3 (thorough: 4) rows from a pool of rows with named cells, named rows and references to them (also through functions), each not filled or filled with several amounts or to the end, in columns A to AC; and of 2 rows put into a Google Sheet at several offsets',
     'Positions are shifted by all the fills before them, and whether a name is relative depends on where it is used; the tests have single examples of these.',
     ['src/spreadsheet/mod.rs', 'src/ast/variable_value.rs', 'src/ast/eval.rs', 'src/scope/mod.rs'],
     [('names bound to positions', 'src/ast/variable_value.rs'), ('columns as letters', 'a1 crate')],
     'TLA+ machine which lays out one row at a time (Sheet.tla) and then resolves names declaratively; every sheet of it is compiled by the real compiler and compared',
     'Exhaustive over the pool for 3 rows, sampled for those with hundreds of rows in quick.',
     ['the cells of the compiled spreadsheet'])
prop('C09', 'Any CSV is read as the rows and fields it stands for',
     'The cells of a file are the fields and rows of CSV: quoted fields with commas, newlines and doubled quotes in them, blank fields, LF or CRLF. Comments are left out, lines ending with a backslash are continued and whitespace around a field is not part of it. Text following the closing quote of a field is an error rather than being dropped (a field whose quote is never closed ends with the file), and the CSV output when read by others has those same rows and fields.',
     ['inputs'], 'every text up to a bounded length (6 to 9 characters) over three alphabets of significant characters and random texts of up to 60 characters, some of them after a very long row',
     'The reader is a state machine with a state per kind of field, whose every pair of state and next character matters. The tests sample typical files.',
     ['csvp/src/parser.rs', 'csvp/src/field_builder.rs', 'src/cell/mod.rs', 'src/target/csv/mod.rs'],
     [('reader of fields', 'csvp/src/parser.rs'), ('CSV output', 'src/target/csv')],
     'TLA+ automaton which reads one character at a time (Csv.tla), checked by TLC, which enumerates all texts; each is read by the real reader, and a share of them compiled, written and read back by another CSV implementation',
     'Exhaustive up to the lengths over the alphabets, random beyond. A quirk is specified as it is: a last line that ends in a comma without a newline has no last blank field.',
     ['fields and their positions', 'the compiled spreadsheet', 'the CSV output'])
prop('C10', 'Row and cell options have the effect they are documented to have',
     'Every option, by its long or short name and in any of its spellings, has its documented effect on the cells it was given for: options of a row hold for all the cells of this row (and its fills), options of a cell only for the cell and they win over those of the row, borders and text styles add up. Excel files and Google Sheets requests contain exactly these values, and the documented defaults for all others. Options which do not exist or have wrong values are an error.',
     ['inputs'], 'every option with every documented value in every place of a sheet of two rows, every pair of short options in all places, random sheets with up to 10 options, and 30 kinds of wrong ones; values written character by character (texts and colors of up to 3 characters, random ones of up to 8; dates in all spellings, numbers, sizes), right and wrong',
     'There are about 15 options with 80 values in two output formats; the tests check some of them, in isolation.',
     ['src/cell_options/mod.rs', 'src/parser/cell_parser/mod.rs', 'src/parser/cell_parser/validate.rs', 'src/target/excel/excel_cell.rs', 'src/target/google_sheets/google_sheets_cell.rs'],
     [('parsing of options', 'src/parser'), ('Google Sheets request', 'src/target/google_sheets'), ('Excel styles and validations', 'src/target/excel')],
     'TLA+ machine reading options from left to right (Options.tla), checked by TLC against a declarative reading, with tables of what they become in each format, and of the values which they are given (Arguments.tla: escapes, the calendar, colors, numbers); generated sheets are compiled for Google Sheets and Excel and read back',
     'Every value and all pairs; random beyond. Options that only have an effect in the application (lock) are checked to be accepted. Colors in Excel files are a known finding.',
     ['the Google Sheets batch update request (hook)', 'the Excel file, read back'])
prop('C11', 'Writing to an existing file or sheet loses nothing it should keep',
     'Afterwards every cell has the value the module has for it; with --safe, cells which already had a value keep it instead. What the module has no cells for (everything else in an Excel sheet, its other sheets, the format, note and validation of cells that are kept, and with --safe also the other rows and columns of a CSV file) stays as it was. Writing the same module once more changes nothing.',
     ['histories'], 'every existing contents and module of up to 2x2 cells (thorough: 3 kinds of rows) with empty, text, number, formula and formatted cells, and random histories of up to 3 writes of up to 4x4 cells with and without --safe; in Excel the format, the note and the validations (of a cell or a range) of each cell',
     'What is preserved depends on how the shapes of both and the kinds of each of their cells coincide, and on previous writes; the tests write over a file once or not at all.',
     ['src/spreadsheet/mod.rs', 'src/target/mod.rs', 'src/target/csv/compilation_target.rs', 'src/target/excel/mod.rs', 'src/target/google_sheets/batch_update_builder.rs'],
     [('merging of cells with existing ones', 'src/target'), ('options --safe and --sheet-name', 'src/cli_args.rs')],
     'TLA+ machines whose state is the contents of the spreadsheet (Target.tla) and what else there is about its cells (Keep.tla), invariants checked by TLC; all of its histories are replayed with real CSV and Excel files and against the request that is made to Google Sheets',
     'Exhaustive for a single write of 2x2 over 2x2, random for histories. What is left of rows and columns outside of the module in a CSV file without --safe is left open. Empty lines of an existing CSV file are a known finding. Whether a cell that is written keeps its note or validation when the module has none for it is left open. Reading the existing cells of a Google Sheet over the network is covered by C16.',
     ['CSV and Excel files read back', 'the Google Sheets batch update request (hook)'])
prop('C12', 'A backup is a complete copy, and never replaces anything',
     'With --backup, a run that replaces an output leaves a copy of what was there next to it, under a name which no other file had. Backups are never changed or removed by later runs, no matter how many are made in the same day, minute, second or at the same instant. Without an output to save no backup is made, and none is made without --backup.',
     ['histories', 'schedules'], 'random histories of up to 7 runs with a clock which stands still or jumps by days, half days, minutes, seconds or nanoseconds, outputs which get replaced in between and names which are taken by files of the user; outputs with 10 kinds of names and places',
     'Whether a name is free depends on when the previous ones were made. The tests make a single backup at whatever time it is.',
     ['src/target/file_backer_upper.rs', 'src/compiler/mod.rs', 'src/target/csv/compilation_target.rs', 'src/target/excel/compilation_target.rs'],
     [('names of backups', 'src/target/file_backer_upper.rs'), ('backup before writing', 'src/compiler/mod.rs')],
     'TLA+ machine of runs, outputs, backups and the clock (Run.tla), invariants checked by TLC; its histories are replayed with the real binary under a clock that is set by the history',
     'Random histories. When every possible name is taken (several backups in the same nanosecond) the run may fail, as long as nothing is lost.',
     ['the files in the directory', 'the exit status'])
prop('C13', 'A run either does what it was asked to or fails and says so',
     'The exit status of csvpp is 0 only if the output contains what was compiled. A run that fails (wrong arguments, errors in the sources, outputs which can not be written, a full disk) exits with another status and a message, and leaves the output and all other files as they were, except for a CSV output during whose writing the disk became full. Failures do not affect the following runs.',
     ['histories', 'fault_sequences', 'configurations'], 'every single run with 11 kinds of correct and wrong sources, 4 kinds of imports, 7 kinds of targets, 4 kinds of existing outputs and all combinations of --backup, --safe and --no-cache, random histories of 6 runs with edits in between, and disks which get full while the output, a backup or object code is written',
     'The tests stop at the first error, and none of them look at what a failure leaves behind or what the next run makes of it.',
     ['src/main.rs', 'src/compiler/mod.rs', 'src/error/mod.rs', 'src/target/csv/compilation_target.rs', 'src/target/excel/compilation_target.rs', 'src/module/mod.rs'],
     [('exit status', 'src/main.rs'), ('order of compiling, backup and writing', 'src/compiler/mod.rs'), ('error types', 'src/error')],
     'TLA+ machine of runs, sources, outputs and backups (Run.tla), invariants checked by TLC; its runs and histories are replayed with the real binary, with ENOSPC injected into the writes of particular files',
     'Single runs are exhaustive in thorough and sampled in quick (3000 of them); histories and faults are random.',
     ['the exit status and message', 'all files in the directory and their hashes'])
prop('C15', 'Errors name the place of the mistake',
     'A mistake in a module is reported with the file and the section or cell it is in, and unless it only shows when it is evaluated also with its line number and an excerpt of the file around it, whose lines are those of the file and which points at the mistake (options: at it or right after it). Whatever precedes it makes no difference: other definitions or rows, comments, texts and cells over several lines, continued lines, characters which are not ASCII, Windows line ends. Mistakes in imported modules are reported as such with the same details.',
     ['inputs'], 'every module of up to 2 (thorough: 3) items of code, or 1 row of 2 cells, with one of 75 kinds of mistakes in each possible place, in the main or an imported module, and random ones of up to 4 items and 4 rows',
     'The position is carried through three lexers, each of which starts in the middle of the file and counts by itself; whether it is right depends on everything before the mistake, and tests have their mistakes on the first line.',
     ['src/error/mod.rs', 'src/error/display.rs', 'src/source_code/mod.rs', 'src/parser/ast_lexer/mod.rs', 'src/parser/cell_lexer/mod.rs', 'csvp/src/parser.rs'],
     [('excerpts', 'src/source_code'), ('positions of tokens', 'src/parser/ast_lexer'), ('positions of fields', 'csvp/src')],
     'TLA+ machine which writes a module with one mistake and always knows the place it has reached (Mistakes.tla), invariants checked by TLC; each module is compiled by the real compiler and its message is compared with the place the specification knows',
     'Exhaustive within the bounds (quick runs samples of the larger sets), random beyond. For mistakes in options the place is allowed to be at or right after the mistake, as the existing tests have it in both ways.',
     ['the error message'])
prop('C14', 'Every target gets the same values',
     'Whether a module compiles (and the message if not) does not depend on what it is compiled to, and CSV, Excel and Google Sheets get the same value in every cell: a text is this very text whatever characters it consists of, a number, boolean or text literal is a number, boolean or text, a formula is the same formula, and an empty cell is empty. This is so no matter how the value was given: directly, in parentheses, through variables, functions and their arguments, key/values, imported definitions, and in rows which are repeated. Excel files are always readable, and compiling once more gives the same request to Google Sheets.',
     ['inputs', 'configurations'], 'every text of 2 out of 30 kinds of characters, every literal given in every way with 2 (thorough: 3) levels of indirection, and random sheets of up to 4 rows of 4 cells with fills and definitions, with and without mistakes; each compiled to all three targets',
     'Each target has its own conversion of values, which the tests look at for a few values and one target at a time; nothing compares them.',
     ['src/target/excel/mod.rs', 'src/target/google_sheets/batch_update_builder.rs', 'src/target/csv/compilation_target.rs', 'src/ast/display.rs', 'src/cell/display.rs'],
     [('values of Excel cells', 'src/target/excel'), ('values in the request', 'src/target/google_sheets/batch_update_builder.rs'), ('CSV records', 'src/target/csv')],
     'TLA+ specification of values, the ways in which they can be given and what they are in each target (Values.tla), with TLC checking that they are kept; the modules it builds are compiled to all targets, the Excel file is read by an independent reader',
     'Exhaustive for single cells within the bounds, random for sheets. Cells without a formula are texts in Excel and Google Sheets even if they look like numbers. Google Sheets is the request (hook).',
     ['the CSV output', 'the Excel file', 'the Google Sheets batch update request (hook)'])
prop('C17', 'The same input always gives the same output and message',
     'Compiling the same files with the same options always gives the same result, whatever the timing of threads, the number of processors or the process it is done in: the same bytes in a CSV or Excel file, the same request to Google Sheets, the same exit status and message. If several things are wrong it is always the same that is reported: all modules which can not be loaded, by name, or else the first definition of an imported module (of which all those it imports are fine) or else the first cell that can not be evaluated, from top to bottom and left to right.',
     ['schedules', 'inputs', 'configurations'], 'every sheet of 3 (thorough: 4) rows of 2 cells which are fine, fine but slow to evaluate, or wrong; every acyclic graph of 3 modules with wrong definitions, missing and broken modules; each compiled several times in a process and (for some) in processes with 1, 2 and 8 threads',
     'Rows are evaluated in parallel and modules and definitions are kept in hash maps: which one is first depends on the timing and on random seeds, so that a test which passes once can fail the next time.',
     ['src/module/mod.rs', 'src/module_loader/mod.rs', 'src/error/display.rs', 'src/scope/mod.rs', 'src/spreadsheet/mod.rs'],
     [('parallel evaluation of rows', 'src/module/mod.rs'), ('evaluation of definitions', 'src/module_loader'), ('errors of several modules', 'src/error/display.rs')],
     'TLA+ machine of loading, evaluation of definitions and of rows by parallel workers (Eval.tla); TLC checks that all interleavings end with the same outcome; each input is compiled several times by the real compiler, with slow cells so that rows finish in another order',
     'The interleavings are explored in the specification, in the real code they are provoked by cells which take longer and by the number of threads. Which definition of which module is reported may be any whose imports are fine, as long as it is always the same.',
     ['the error message', 'CSV and Excel files (their hashes)', 'the Google Sheets batch update request (hook)'])
prop('C18', 'The layout of a module makes no difference',
     'Comments, line breaks and whitespace between the tokens of the code section, of formulas and of options, whitespace around cells, lines continued with \\, comments between rows, blank lines at the beginning, quotes around cells which would not need them, and LF or CRLF line ends have no influence on what a module is compiled to, neither its cells nor their options. A module with a mistake is rejected whatever its layout is.',
     ['inputs'], 'every single place of 9 modules (definitions, functions, imports, texts, formulas, options, fills, mistakes) with each of up to 9 layouts there, all pairs of these for some modules (thorough), and random layouts everywhere',
     'There are some 300 places in these modules where whitespace and comments can be, in three lexers that treat them in their own way; tests are all written in the same style.',
     ['src/parser/ast_lexer/mod.rs', 'src/parser/cell_lexer/mod.rs', 'src/parser/code_section_parser.rs', 'csvp/src/parser.rs', 'src/source_code/mod.rs'],
     [('lexers', 'src/parser'), ('splitting of code and cells', 'src/source_code/mod.rs'), ('continued lines and comments', 'csvp/src/parser.rs')],
     'TLA+ machine which writes a module with any layout at each joint (Layout.tla) and knows the cells it means; TLC enumerates the layouts and each of the texts is compiled by the real compiler',
     'Exhaustive for single changes (and pairs in thorough), random beyond. A blank last cell is a known finding. A space is needed between a name and := (a: is part of a range).',
     ['the cells of the compiled spreadsheet', 'the Google Sheets batch update request for options (hook)'])
prop('C19', 'Command line arguments mean the same however they are written',
     'Each option has the same meaning in all of its forms (--name value, --name=value, -n value, -nvalue, -n=value, in a cluster of short flags), in any order, before or after the input file, and independently of the other options; the defaults apply to exactly those that were not given. What can not be understood (unknown or repeated options, missing or wrong values, several outputs or inputs) ends with status 2 for a mistake of usage or 1 for a value that is refused, a message, and without touching any file; otherwise the effects (output, tab, backup, cache, variables) are those that were asked for.',
     ['inputs', 'configurations'], 'every sequence of one argument from nothing, all of two after an input and an output, and long random ones, each option in each of its forms with good and bad values; a sample is run with the real program and its files are looked at',
     'Tests construct CliArgs directly, or parse a single argument: not one of the forms or combinations is run.',
     ['src/cli_args.rs', 'src/config/try_from.rs', 'src/config/mod.rs', 'src/output/try_from.rs', 'src/output/mod.rs', 'src/compiler/try_from.rs', 'src/parser/ast_parser.rs', 'src/main.rs'],
     [('options', 'src/cli_args.rs'), ('what they are configured to', 'src/config/try_from.rs'), ('choice of the output', 'src/output/mod.rs'), ('key/values', 'src/parser/ast_parser.rs')],
     'TLA+ machine which writes a command line argument by argument (Cli.tla) and knows what each means; TLC enumerates them, each is parsed by the real code, and a sample run by the real program',
     'Exhaustive up to two arguments, random beyond. What the outputs are in detail is in C11, C12 and C16. A --google-sheet-id is only parsed, not used.',
     ['the configuration of the compiler', 'exit status, messages and files of the program'])
prop('C16', 'A Google Sheet gets exactly what it was meant to, or isn\'t changed',
     'After a successful run the tab that was asked for contains the module at its offset (with --safe only where there was no value), and everything else in the spreadsheet is as it was or as others edited it meanwhile; with --backup a copy of what was there before was made first. If any of the requests fails (access token, copy, read or update), or there are no usable credentials, the run fails with a message and the spreadsheet isn\'t changed. Credentials given by option take precedence over those of the environment, and these over the default ones.',
     ['histories', 'schedules', 'fault_sequences', 'configurations'], 'random histories of up to 3 runs of modules with up to 2500 rows over spreadsheets with up to 3 tabs whose ids and order differ, with blank, formatted and computed cells; every request can fail in 8 ways, and others edit cells in between of the requests',
     'The tests can not access Google Sheets at all: nothing about the requests other than that there is one is tested.',
     ['src/target/google_sheets/mod.rs', 'src/target/google_sheets/batch_update_builder.rs', 'src/target/google_sheets/credentials.rs', 'src/target/google_sheets/compilation_target.rs', 'src/main.rs'],
     [('reading of existing cells', 'src/target/google_sheets/mod.rs'), ('batch update request', 'src/target/google_sheets/batch_update_builder.rs'), ('choice of credentials', 'src/target/google_sheets/credentials.rs')],
     'TLA+ machine of a run as a sequence of requests interleaved with edits by others (Remote.tla), invariants checked by TLC on random behaviours; these are replayed with the real binary, whose connections are redirected to a replica of Google\'s APIs on the loopback interface which executes the edits and faults of the behaviour',
     'Random behaviours. What Google does with the requests is a replica written from its documentation. Edits by others between reading and updating to cells of the module itself are lost (this is specified). A --sheet-name without such a tab is a known finding.',
     ['the contents of the spreadsheet in the replica, the exit status and message'])
prop('C20', 'Only what is out of date is compiled again',
     'A compilation writes the object code of exactly those modules that have to be compiled: of modules which changed since (by whatever was done to them), which have no usable object code for the role they have (main or imported), and of those that use one which was compiled again. Compiling the same once more right afterwards writes nothing, a module nobody in the compilation uses is not touched, nothing is written when it fails or with --no-cache, and only object code of dependencies with key/values.',
     ['histories'], 'every history of 3 (thorough: 4) steps after a first compilation over 4 modules which use each other, with the clock advancing or standing still between steps, and random histories of 12 steps',
     'That object code is useful at all shows only over several compilations: if it were never used again, or all of it always written, every test would pass.',
     ['src/lib.rs', 'src/compiler/mod.rs', 'src/module_loader/mod.rs', 'src/module/mod.rs'],
     [('when object code is written', 'src/lib.rs'), ('is object code up to date', 'src/module/mod.rs'), ('dependencies which have to be compiled again', 'src/module_loader/mod.rs')],
     'TLA+ specification of the caching protocol (Cache.tla) with the modules each compilation writes, checked by TLC (what was just compiled is up to date); the histories it generates are replayed in the real compiler with controlled timestamps and the files written are compared',
     'The histories of C01. Which files were written is known from their modification times, all others are set to a time in the past.',
     ['object code files written by every compilation in the history'])
