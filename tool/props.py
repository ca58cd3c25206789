#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (python3 tool/props.py rewrites both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=list(observe)))
AI = 'abstract interpretation (finite constant-set dataflow) over LLVM IR of the current source'
DF = 'interprocedural dataflow / dominance rules over LLVM IR of the current source'

prop('C01', 'A reported error always makes the compilation fail',
 'Whenever the preprocessor, the compiler proper or the driver reports a diagnostic of error severity, that process exits with a non-zero status, and the compiler proper never goes on to generate code for the translation unit after a parse or semantic error. No error report is printed on a path that continues as success.',
 ['inputs', 'programs'], 'every source text and every place that reports an error',
 'each test shows one error message; nothing shows that every one of several hundred report sites records its failure',
 ['src/cc1/cc1.c', 'src/cc1/warn.c', 'src/cc1/fold.c', 'src/util/warn.c', 'src/cpp2/main.c'],
 [('parse_had_error / fold_had_error', 'src/cc1/parse_fold_error.h, cc1.c main'), ('vwarn/die_at', 'src/util/warn.c')],
 DF, 'Every error report is followed to the end of the program, path-sensitively, through its callers; main is interpreted with each phase recording a failure. Trusts clang IR; one report backed by a later one is accepted; out of memory, ICEs and crashes excluded.')
prop('C02', 'A failing sub-process makes the driver fail',
 'When a stage the driver runs (preprocess, compile, assemble, link, dump) cannot be started, exits non-zero, or is killed by a signal, the driver exits non-zero and runs no later stage for that input. The status of every child is collected and inspected.',
 ['fault_sequences', 'inputs'], 'every stage, every child outcome, every combination of inputs',
 'tests only run stages that succeed or one that fails with an ordinary exit status',
 ['src/ucc/ucc_ext.c', 'src/ucc/ucc.c'], [('runner', 'src/ucc/ucc_ext.c'), ('wait/WIFEXITED handling', 'src/ucc/ucc_ext.c')],
 AI, 'The fork/wait/exec boundary is modelled: every abstract child outcome (cannot start, exit status, signal, wait failure) is pushed through the runner and through main, and success or a further stage being reachable is a violation. Trusts clang IR and the process model; heap contents unknown.')
prop('C03', 'Failed output writes are never reported as success',
 'If writing or closing an output (assembly, preprocessed text, dependency file, concatenated output) fails, the process that was writing it reports the failure and exits non-zero.',
 ['fault_sequences'], 'every write failure at every position of every output stream',
 'no test runs on a full disk or closed descriptor',
 ['src/cc1/cc1.c', 'src/cc1/out/section.c', 'src/cpp2/main.c', 'src/cpp2/deps.c', 'src/ucc/ucc.c'], [('fclose checks', 'cc1.c io_fin/gen, cpp2/main.c')],
 AI, 'main() of each program is interpreted with the error indicator or final flush of an output stream modelled as failing; a reachable success exit is a violation. Trusts ISO C stdio semantics.')
prop('C04', 'Temporary files are private and are removed on every exit',
 'Every intermediate file the driver creates is created exclusively with a unique name and owner-only permissions (mkstemp), and its name is recorded, with the removing exit handler registered, before control leaves the code that creates it. The handler removes every recorded file, and the driver never ends (short of a crash) in a way that bypasses it. After a failed stage the partial output is removed if and only if it is a regular file.',
 ['fault_sequences', 'inputs'], 'every exit path of the driver',
 'tests do not look at $TMPDIR after failures',
 ['src/ucc/ucc.c', 'src/util/tmpfile.c'], [('remove_temps/atexit', 'src/ucc/ucc.c'), ('tmpfile_prefix_out mkstemp', 'src/util/tmpfile.c')],
 AI, 'Creation sites, recording, the handler loop and every exit path are found in the IR; the driver is interpreted with each stage outcome. Trusts mkstemp/atexit semantics; crashes, ICEs and signals excluded.')
prop('C05', 'User-supplied names never pass through a shell',
 'No program of the tool chain builds text for a command interpreter from names or options: the driver starts sub-processes with an argument vector whose elements are the given names and options unchanged, and any script that is handed to a shell is a fixed string that only refers to quoted positional parameters.',
 ['inputs', 'configurations'], 'every file name and option',
 'tests use plain names',
 ['src/ucc/ucc_ext.c', 'src/ucc/ucc.c'], [('execvp', 'src/ucc/ucc_ext.c')],
 DF, 'All process-starting calls in all programs are enumerated; the vector handed to exec is tracked back to the pieces it is made of. Trusts libc exec semantics.')
prop('C06', 'Output is a function of the input only',
 'The preprocessor output and generated assembly depend only on source text, options and the documented date/time macros: no address of an object, hash of an address, process id, random number, uninitialised or environment value other than documented search paths influences what is printed.',
 ['programs', 'configurations', 'histories'], 'every input, every address-space layout and environment',
 'a rerun on the same machine samples one layout; the bootstrap comparison covers only the compiler sources',
 ['src/cc1', 'src/cpp2'], [('dynmap keyed iteration', 'src/util/dynmap.c'), ('label counters', 'src/cc1/out/lbl.c')])
prop('C07', 'Constant expressions fold to the value C defines',
 'Folding a unary, binary or logical operator, a conversion or a ?: whose operands are constants yields the value C defines: the right operation on the left and right operand in order, signed or unsigned as the operand type says, comparisons and logical operators giving 0/1, unsigned results and converted values reduced to their type, pointer arithmetic scaled by the pointee size, division by zero diagnosed and not evaluated. Code generation folds, drops or rewrites an operation with a constant operand (shift for a power of two, and for a remainder) only where that gives the same value for every input.',
 ['inputs'], 'every operator and pair of constants',
 'tests sample a few constants per operator',
 ['src/cc1/const.c', 'src/cc1/out/op.c', 'src/cc1/ops/expr_op.c'], [('const_op_exec', 'src/cc1/const.c'), ('const_is_noop/try_const_fold', 'src/cc1/out/op.c')],
 AI.replace('finite constant-set dataflow', 'Herbrand term domain'), 'Folders interpreted with opaque operand terms; the resulting term is compared with the C definition for every operator x type. Results of signed overflow (undefined in C) are not constrained. Trusts clang IR and the modelled type queries.')
prop('C08', '#if expressions have C precedence, operators and short-circuiting',
 'In #if/#elif controlling expressions every operator has its C meaning on signed 64-bit operands (comparisons and arithmetic of operands of unsigned type excepted: recorded finding), C precedence and left associativity; parentheses group; unary + - ! ~ bind tightest; &&, || and ?: neither evaluate nor diagnose division by zero in an unselected operand at any depth; division by zero otherwise is an error and no operand values make evaluation trap; identifiers left over count as 0; integer literals of every base and suffix and character literals have their value; anything that is not a constant expression is rejected with an error.',
 ['inputs'], 'every controlling expression, whatever the operand values',
 'tests sample a few expressions; operand values, operator combinations and unevaluated nesting are unbounded',
 ['src/cpp2/expr.c', 'src/cpp2/expr_tok.c'], [('expr_op/eval/preds', 'src/cpp2/expr.c')], AI, 'tokeniser, parser and evaluator of #if interpreted on expression texts with opaque operands; result term compared with the C meaning for every outcome of every decision')
prop('C09', 'Every operator selects the instruction that computes it',
 'For every C arithmetic, bitwise, shift and comparison operator and integer/floating conversion, and each operand class (signed, unsigned, floating) and size, the code generator selects the machine instruction, operand order, operand width and register name that compute that operator. Conditions are materialised and branched on with the condition code of the right relation and signedness, including when negated or when the operands are exchanged, and comparisons with NaN are false except !=.',
 ['programs', 'inputs'], 'every operator x operand class x size x operand location',
 'the tests sample a few operator/type/location combinations',
 ['src/cc1/out/x86_64.c', 'src/cc1/out/op.c', 'src/cc1/out/asm.c'],
 [('impl_op', 'src/cc1/out/x86_64.c'), ('x86_cmp/x86_suffix tables', 'src/cc1/out/x86_64.c'), ('v_not_cmp/v_commute_cmp', 'src/cc1/out/val.c')],
 AI, 'Enumerates operator/class/size/operand-location contexts and compares the emitted instruction templates with an x86-64 oracle; trusts clang -O0 IR, the oracle table, and that register allocation keeps operand identities.')
prop('C10', 'Generated functions follow the System V AMD64 calling convention',
 'Integer and pointer arguments are passed and received in rdi, rsi, rdx, rcx, r8, r9 and floating ones in xmm0-7, return values in rax/rdx/xmm0; before a variadic or unprototyped call al holds the number of vector registers used; rbx and r12-r15 are saved and restored whenever they are used, and no value is kept across a call in a register the callee may overwrite. Every function epilogue undoes its prologue.',
 ['programs'], 'every function and call the compiler can generate',
 'tests link mostly code produced by the same compiler and sample few signatures',
 ['src/cc1/out/x86_64.c', 'src/cc1/out/func.c'], [('call_regs/callee-save tables', 'src/cc1/out/x86_64.c'), ('impl_func_prologue/epilogue', 'src/cc1/out/x86_64.c')])
prop('C11', 'Primitive types have the x86-64 size, alignment, signedness and limits',
 'For the default x86-64 (LP64) target every arithmetic type has the size, alignment and signedness of the ABI (plain char signed unless -fno-signed-char), pointers are 8 bytes, an array is its length times its element, and qualifying, attributing or casting a type changes none of these. The same sizes govern the maximum of a type, its signed/unsigned counterpart, the truncation of constants, the size of the data directive and value printed for static data, the rounding of offsets to an alignment, the type of sizeof, and the predefined size, limit and byte-order macros of the preprocessor.',
 ['programs', 'configurations'], 'every primitive type and every function that states a size, alignment, signedness or limit',
 'tests check a few sizeofs and ask the compiler itself',
 ['src/cc1/btype.c', 'src/cc1/type.c', 'src/cc1/type_is.c', 'src/cc1/num.c', 'src/cc1/pack.c', 'src/cc1/out/asm.c', 'src/util/platform.c', 'src/util/limits.h', 'src/cpp2/main.c'],
 [('type_primitive_size/btype_align', 'src/cc1/btype.c'), ('asm_type_table', 'src/cc1/out/x86_64.c'), ('integral_truncate_bits', 'src/cc1/num.c'), ('initial_defs', 'src/cpp2/main.c')],
 AI, 'Every such function is interpreted for every primitive type and type constructor, array lengths and truncated values opaque, against the ABI table.')
prop('C12', 'Every C token, keyword and operator means what C says',
 'Each operator and punctuator spelling is recognised as its C token by longest match, each keyword as its C keyword, each binary operator is parsed at its C precedence with left associativity (assignment and ?: right), and each compound assignment and ++/-- applies the matching binary operator.',
 ['programs'], 'every token sequence',
 'tests sample common operator combinations',
 ['src/cc1/tokenise.c', 'src/cc1/tokconv.c', 'src/cc1/parse_expr.c', 'src/cc1/op.c'], [('nexttoken', 'src/cc1/tokenise.c'), ('parse_expr_* chain', 'src/cc1/parse_expr.c'), ('curtok_to_op', 'src/cc1/tokconv.c')],
 AI, 'Tokeniser and expression parser are interpreted from their entry points over one token plus every following character, and over every pair of operators with opaque operands; results compared with the C grammar. Longer inputs rest on the tokeniser and parser keeping no other state.')
prop('C13', 'Each -W option controls exactly its own diagnostics',
 'Every -W<name> / -Wno-<name> / -Werror=<name> spelling switches the warnings of that name and no others, all documented groups switch each member, -Werror turns an enabled warning into a failure and -w silences it, a diagnostic is printed under the flag documented for it, and every warning the compiler can print is controlled by some option.',
 ['configurations'], 'every option spelling and order', 'tests use a handful of warning options',
 ['src/cc1/warn.c', 'src/cc1/warnings.def', 'src/cpp2/warnings.def', 'src/cpp2/main.c'], [('warnings table', 'src/cc1/warnings.def')],
 AI, 'main() of the compiler and preprocessor interpreted on every -W spelling from three base states; resulting flag state against spec/options.json (reviewed against warnings.def and the manual); every diagnostic site resolved to its flag. Combinations beyond pairs with -Werror/-w rest on options being processed one at a time.')
prop('C14', 'Each -f/-m option controls exactly its own feature',
 'Every -f<name>/-fno-<name>, -m<name>/-mno-<name>, -std, -O, -g, -fsanitize and value option accepted by the compiler proper sets or clears exactly its own settings whatever precedes it, the defaults are those documented, and an unknown option is rejected with a failure status.',
 ['configurations'], 'every option spelling', 'tests use a handful of options',
 ['src/cc1/fopt.c', 'src/cc1/fopts.h', 'src/cc1/cc1.c'], [('fopt_on', 'src/cc1/fopt.c'), ('-m table', 'src/cc1/cc1.c')],
 AI, 'main() interpreted on every option from an all-off and an all-on command line and in pairs; settings compared with spec/options.json by effect. What a setting then does in code generation is not covered here.')
prop('C15', 'Escape sequences and literals are decoded and re-encoded exactly',
 'Every simple, octal and hexadecimal escape in a character or string literal denotes the character C assigns to it, out-of-range or unknown escapes are diagnosed, and string data written to the assembly or preprocessed output is escaped so that the assembler reads back exactly the same bytes, including NUL, quotes, backslashes, control and high bytes.',
 ['inputs'], 'every byte string', 'tests use a few escapes',
 ['src/util/escape.c', 'src/cc1/str.c', 'src/cc1/tokenise.c', 'src/util/str.c'], [('escape_char', 'src/util/escape.c'), ('literal_print', 'src/cc1/str.c')])
prop('C16', 'Enabled run-time checks guard every operation they name',
 'With -ftrapv every signed addition, subtraction, multiplication and negation that overflows reaches the overflow handler and unsigned arithmetic never does; each -fsanitize=<kind> inserts exactly its own checks and -fno-sanitize removes them, and a function marked no_sanitize gets none.',
 ['programs', 'configurations'], 'every operation and option combination', 'tests sample few',
 ['src/cc1/sanitize.c', 'src/cc1/sanitize_opt.c', 'src/cc1/ops/expr_op.c'], [('sanitize_* calls', 'src/cc1/ops/expr_op.c')])
prop('C17', 'Every language construct is handled by every compiler phase',
 'Each kind of expression and statement the parser can build has a handler in every phase (folding, code generation, dumping) and each phase that distinguishes kinds of types, storage classes, operators or values handles every one of them or stops with an internal error, never falling through silently with an undefined result.',
 ['programs'], 'every construct and phase', 'tests only reach the constructs they contain',
 ['src/cc1/ops', 'src/cc1/expr.h', 'src/cc1/stmt.c', 'src/cc1/type.c'], [('expr_mutate_*/stmt_mutate_*', 'src/cc1/expr.h, stmt.h')])
prop('C18', 'Debug info is structurally well-formed DWARF',
 'In the emitted debug sections each attribute value is written in the size its declared form requires, every section length is exact, every abbreviation code used is declared, constants (tags, attributes, forms, encodings, operations) have their DWARF-standard values, and LEB128 values are encoded so that they decode to the original.',
 ['programs'], 'every program compiled with -g', 'tests grep a few lines',
 ['src/cc1/out/dbg.c', 'src/cc1/out/leb.c', 'src/cc1/out/leb.h'], [('dwarf_form/dwarf_leb_printf', 'src/cc1/out/dbg.c'), ('leb128_out', 'src/cc1/out/leb.c')])
prop('C19', 'Fixed-size buffers are never overrun',
 'No input, file name, option, identifier or number makes any of the programs write outside a buffer of fixed or computed size: a call told how much to write (snprintf, fread, readlink, memcpy, ...) is told no more than the buffer holds, one that copies all it is given (strcpy, sprintf) has a buffer of that length and its terminator, a computed index into a fixed array (file stacks, conditional stack, link targets) is within it, and a cursor moved through a buffer with its remaining size never moves past its end.',
 ['inputs'], 'every input length and nesting', 'tests use short inputs',
 ['src/ucc', 'src/cpp2', 'src/cc1', 'src/util'], [('type_add_str', 'src/cc1/type.c'), ('push_fname', 'src/cc1/tokenise.c'), ('preproc_push', 'src/cpp2/preproc.c'), ('if_push', 'src/cpp2/directive.c'), ('path_prepend', 'src/ucc/ucc_path.c')],
 DF, 'Capacities and written lengths are linear expressions over the SSA IR, compared using dominating branch conditions, string-search and counter axioms and inductive ranges of file-scope counters; buffers passed as parameters are checked at every caller. Strings built by a walking pointer (str_join, str_quote, str_add_escape, tokens_join_n) and list memmoves are outside.')
prop('C20', 'Skipped preprocessor groups have no effect',
 'Exactly the groups ISO C selects of each #if/#ifdef/#ifndef..#elif..#else..#endif are processed, at every nesting: a selected group prints its text and its directives take effect; a skipped one prints nothing (also with -C and -CC), changes no macro, includes no file, changes no line number and raises no error, whatever its lines are, and conditionals inside it only nest. A condition after the selected group is not evaluated. Comments hide directives, spacing and comments within directives do not matter. #elif/#else/#endif without #if, #else or #elif after #else, a missing #endif, an unknown directive or a malformed condition in a processed group are errors. Conditionals may nest 60 deep.',
 ['inputs'], 'every nesting and directive', 'tests sample a few nestings',
 ['src/cpp2/directive.c', 'src/cpp2/preproc.c'], [('if_push/handle_elif/handle_else/parse_should_noop', 'src/cpp2/directive.c'), ('filter_macros/strip_comment', 'src/cpp2/preproc.c')],
 AI, 'The line loop interpreted on every shape of conditional with up to two #elif nested to depth three and every kind of line in every kind of skipped group. Macro expansion is taken as the identity; groups spanning files are outside.')
prop('C21', 'Control flow and operand evaluation follow C',
 'The code generated for &&, ||, !, ?: (with and without a middle operand), the comma operator, if/else, while, do, for (any clauses present), switch (case, case range, default, fall-through), break, continue, goto, labels and return evaluates each operand exactly when, as often and in the order C says, and each statement is reached exactly when the controlling values select it, whatever the nesting, including constant controlling expressions, likely-branch hints, constant folding of operands, and jump threading. A NaN controlling value is excepted.',
 ['programs'], 'every nesting of control constructs and every value of their controlling expressions', 'tests sample nestings and values',
 ['src/cc1/parse_stmt.c', 'src/cc1/ops/expr_op.c', 'src/cc1/ops/expr_if.c', 'src/cc1/ops/expr_comma.c', 'src/cc1/ops/stmt_for.c', 'src/cc1/ops/stmt_while.c', 'src/cc1/ops/stmt_do.c', 'src/cc1/ops/stmt_if.c', 'src/cc1/ops/stmt_switch.c', 'src/cc1/ops/stmt_code.c', 'src/cc1/out/ctrl.c', 'src/cc1/out/blk.c'],
 [('gen_stmt_*', 'src/cc1/ops/stmt_*.c'), ('op_shortcircuit/gen_expr_if', 'src/cc1/ops'), ('out_ctrl_branch/out_ctrl_transfer', 'src/cc1/out/ctrl.c'), ('blk_flushall', 'src/cc1/out/blk.c')],
 AI, 'Shapes of nested constructs with opaque operands go through the interpreted parser, folder, code generator and block emitter; the emitted jumps and labels are compared with the C flow graph on their product, for all operand values. Nestings are enumerated to depth three; declarations, VLAs, cleanup and statement expressions inside are outside.')
prop('C22', 'Operands get the C integer promotions and usual conversions',
 'For every pair of arithmetic operand types, each binary operator, ?: and compound assignment converts both operands to the common type C defines and has the result type C defines (int for comparisons and logical operators, the promoted left type for shifts); unary operators and switch promote their operand; call arguments are converted to the parameter types of a prototype and default-promoted otherwise; a compound assignment computes in the common type and converts back. An integer literal has the first type of the C list for its base, suffix and standard that holds its value.',
 ['programs'], 'every pair of arithmetic types, every operator, every literal suffix, base, standard and magnitude',
 'tests sample a few type pairs; a wrong pair computes a wrong value only for large or negative operands',
 ['src/cc1/ops/expr_op.c', 'src/cc1/ops/expr_if.c', 'src/cc1/ops/expr_assign_compound.c', 'src/cc1/ops/expr_val.c', 'src/cc1/ops/expr_funcall.c', 'src/cc1/ops/stmt_switch.c', 'src/cc1/type_is.c', 'src/cc1/btype.c', 'src/cc1/num.c'],
 [('op_required_promotion', 'src/cc1/ops/expr_op.c'), ('type_is_promotable', 'src/cc1/type_is.c'), ('type_intrank', 'src/cc1/btype.c'), ('fold_expr_val', 'src/cc1/ops/expr_val.c')],
 AI, 'Type-resolution functions interpreted for every pair of arithmetic types (types named, operands opaque), compared with the C conversion tables. Enumerations, bit-fields and pointer operands other than pointer +/- integer are outside.')
prop('C23', 'Linkage, visibility and section of every symbol are those declared',
 'A static symbol is never exported, a non-static defined symbol always is, weak and hidden/protected attributes are emitted for exactly the symbols that carry them, and each object goes in the section its constness, initialiser and attributes demand.',
 ['programs'], 'every declaration', 'tests sample a few declarations',
 ['src/cc1/gen_asm.c', 'src/cc1/out/asm.c', 'src/cc1/out/section.c'], [('asm_predeclare_*', 'src/cc1/out/asm.c')])
prop('C26', 'Running out of memory is reported, never used',
 'No memory allocation result is used without having been checked: when memory runs out each program reports it and exits non-zero.',
 ['fault_sequences'], 'every allocation', 'no test makes allocation fail',
 ['src/util/alloc.c', 'src/cc1', 'src/cpp2', 'src/ucc'], [('umalloc/urealloc/ustrdup', 'src/util/alloc.c')],
 DF, 'Every allocation result is followed through phis and hand-on returns; each use must be dominated by the non-null edge of a test. Heap-stored untested results are reported as uses.')
prop('C27', 'Runaway #include recursion is stopped with an error',
 'A file that includes itself without end, directly or through others, is stopped with an error and a failing exit status before any table overflows; nesting up to 60 deep and any number of inclusions in sequence are accepted; each opened header is closed exactly once when its end is reached and not read afterwards.',
 ['inputs'], 'every include graph', 'one test at most',
 ['src/cpp2/preproc.c', 'src/cpp2/include.c'], [('preproc_push/preproc_pop/read_line', 'src/cpp2/preproc.c')],
 AI, 'The line loop interpreted on endless, deep, wide and guarded include graphs with file opening modelled; writes past any global array, double closes and unclosed files are read off the path.')
prop('C28', 'Line numbers and file names name the source line',
 'Each piece of text in the preprocessor output is, by the line markers and the lines between them, at the file and line it is on in the source; __LINE__, __FILE__, #warning and the inclusion trace name the same; this holds across spliced lines, comments over lines, skipped groups, definitions, pragmas, #line, markers and inclusions, which are marked on start and return (and as system headers) so that the includer resumes at its next line. The compiler gives each token the file, line, column, system-header flag and inclusion trace that the markers and lines give it.',
 ['inputs'], 'every arrangement of line-affecting constructs', 'tests sample a few positions; an off-by-one after a rare arrangement misplaces diagnostics and debug lines only',
 ['src/cpp2/preproc.c', 'src/cpp2/directive.c', 'src/cpp2/eval.c', 'src/cc1/tokenise.c', 'src/util/where.c'], [('splice_lines/preproc_push/preproc_pop', 'src/cpp2/preproc.c'), ('handle_line_directive', 'src/cpp2/directive.c'), ('tokenise_read_line/handle_line_file_directive', 'src/cc1/tokenise.c')],
 AI, 'Every pair of line-affecting source pieces goes through the interpreted line loop with macro expansion, and every pair of marker arrangements through the interpreted tokeniser; all reported positions are compared with the true ones. A token of a spliced line counts as on its first line; text after an inclusion inside a spliced line and multi-line string tokens are outside.')
prop('C30', 'The driver passes each option to the stage it is for, in order',
 'Each command-line option reaches exactly the stages it is for (preprocessor, compiler, assembler, linker) with its argument, in the order given and for every input alike; each takes effect together with any other; link options select the libraries, start files and link flags they name; a warning option goes to the program that knows it; -### runs nothing, -wrapper prefixes every command; an unknown option or one without its argument makes the driver fail.',
 ['configurations'], 'every option, pair of options and order', 'tests use a handful of options',
 ['src/ucc/ucc.c', 'src/ucc/warning.c', 'src/ucc/ucc_ext.c'], [('parse_argv', 'src/ucc/ucc.c'), ('state_from_triple', 'src/ucc/ucc.c'), ('warning_owner', 'src/ucc/warning.c')],
 AI, 'main() of the driver is interpreted on every option, every pair and every warning name with fork/exec modelled; each argument vector is compared with a hand-written table of what options are for. x86_64 Linux target only; -target for other systems is outside.')
prop('C31', 'Each input goes through its own stages and its result lands where asked',
 'The driver runs on each input exactly the stages its kind (by extension or -x) and the mode (-E, -S, -c, -fsyntax-only, -emit, link) call for, feeding each the result of the one before; the result goes to the file named by -o, to the standard output, or to the input\'s name with the right extension; inputs are processed independently; an unused input is reported; no input file is ever overwritten.',
 ['configurations', 'inputs'], 'every kind of input, mode and output', 'tests run the driver mostly on one .c file',
 ['src/ucc/ucc.c', 'src/ucc/ucc_ext.c'], [('create_file / gen_obj_file / rename_files', 'src/ucc/ucc.c'), ('rename_or_move / cat_fnames', 'src/ucc/ucc_ext.c')],
 AI, 'main() of the driver is interpreted on each combination of input kind, mode, language and output; file contents are followed symbolically through the commands. Fork/exec/file system are modelled, every stage succeeding (failures: C02).')
prop('C40', 'Compiled programs behave as C defines',
 'Every valid program compiles to code whose observable behaviour is one the C standard allows.', ['programs', 'inputs'], 'every program and input', 'tests sample programs',
 ['src/cc1'], [('whole compiler', 'src/cc1')], na='Quantifies over run-time values and whole programs; the structural clauses that static analysis can decide are claimed separately (C07, C09, C10, C12, C21).')
prop('C41', 'Live values survive register pressure and calls',
 'Register allocation never overwrites a value that is still needed, however many values are live.', ['programs'], 'every expression shape', 'tests sample shapes',
 ['src/cc1/out/virt.c', 'src/cc1/out/val.c', 'src/cc1/out/x86_64.c'], [('v_unused_reg/v_freeup_reg', 'src/cc1/out/virt.c')], na='Depends on run-time reference counts of values across unbounded call histories of the code generator; no sound ownership typing of the out_val graph is in reach.')
prop('C42', 'Macro expansion follows the C algorithm',
 'Object-like, function-like and variadic macros, # and ##, rescanning and self-reference suppression produce the token sequence C defines.', ['inputs'], 'every macro set and text', 'tests sample expansions',
 ['src/cpp2/eval.c', 'src/cpp2/macro.c'], [('eval_expand_macros', 'src/cpp2/eval.c')], na='A property of unbounded string rewriting at run time; no structural clause of it could be decided without modelling the rewriting itself.')
prop('C43', 'Invalid programs are rejected and valid ones accepted',
 'Every constraint violation is diagnosed and no valid program is rejected.', ['programs'], 'every program', 'tests sample programs',
 ['src/cc1/fold.c', 'src/cc1/ops'], [('fold', 'src/cc1/fold.c')], na='Quantifies over all programs against the whole C constraint set; only "a reported error fails" (C01) is decidable from structure.')
prop('C44', 'The compiler terminates on every input',
 'Every program of the tool chain terminates on every finite input.', ['inputs'], 'every input', 'tests sample inputs',
 ['src/cc1/tokenise.c', 'src/cpp2/preproc.c'], [('EOF handling', 'src/cc1/tokenise.c')], na='Termination of a recursive-descent compiler over runtime-linked structures has no ranking argument in reach of static analysis here; include recursion is claimed as C27.')
prop('C45', 'The compiler reproduces itself', 'Compiling the compiler with itself twice gives identical object code.', ['programs', 'histories'], 'every revision', 'tested for one configuration only',
 ['Bootstrap.mk'], [('bootstrap-compare', 'Bootstrap.mk')], na='A fixpoint of running the compiler on itself; inherently dynamic. The determinism clause is claimed as C06.')

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
    for p in P:
        if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')):
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 run.py %s' % p['id'], 'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
                'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na'] or 'check not built yet'})
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
main()
