#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that titles/anchors stay editable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
LEX="lexer.go"; EXP="expressions.go"; ST="parser_stmt.go"; DE="parser_decls.go"; IR="irbuilder.go"; DR="driver.go"; MA="main.go"
p("C01","Integer literals denote their positional value everywhere",
 "Every integer literal compiles to the 64-bit word equal to its digits read in base 10, or in base 8 when it starts with 0 (a digit 8 or 9 in an octal literal counts as 8 or 9), modulo 2^64. This is the same in expressions, scalar and vector initialisers (where a leading '-' negates), case labels and vector sizes.",
 ["inputs"],"all digit strings of every length, in every syntactic position",
 "Tests use a few dozen small literals; a wrong carry, base switch or narrowing only shows for particular digit strings.",
 [LEX,EXP,DE,ST],[("Number",LEX),("parseIvalConst",DE),("parseCase",ST)],["compiled IR constants"])
p("C02","Character constants pack their bytes big-endian with escapes decoded",
 "A character constant of up to eight characters compiles to the word obtained by packing its bytes most-significant first, each escape *0 *e *( *) *t ** *' *\" *n *r standing for one byte (0, 0, {, }, tab, *, ', \", newline, CR). Unknown escapes, unterminated constants and constants longer than eight characters are rejected with an error.",
 ["inputs"],"all byte sequences between quotes",
 "Tests cover a few ASCII constants; the byte values, lengths and escape positions form a space of 256^8.",
 [LEX,EXP,DE,ST],[("Character",LEX),("Escape",LEX)],["compiled IR constants","compile errors"])
p("C03","String literals are stored byte for byte and NUL-terminated",
 "A string literal compiles to a pointer to a constant byte array holding exactly its source bytes with escapes decoded, in order, followed by one zero byte, and a reference to one literal never yields another. Unterminated strings and unknown escapes are rejected with an error.",
 ["inputs"],"all strings over all 256 byte values, any number of literals per file, in expressions and initialisers",
 "Tests use printable ASCII text only; arbitrary bytes, escapes in arbitrary positions and many literals are not reachable by samples.",
 [LEX,EXP,DE,IR],[("String",LEX),("CreateStringConstant",IR)],["module globals","printed output"])
p("C04","White space and comments between tokens never change the program",
 "Inserting any mix of blanks, tabs, newlines and /*...*/ comments (with any text inside) between two adjacent tokens of a valid program leaves its meaning unchanged (as long as the operator before it cannot absorb the separator's first character, as in =/*), and separators between two words keep them separate words. An unclosed comment is rejected with an error.",
 ["inputs","programs"],"all separator sequences at every token boundary of every construct",
 "Tests fix one layout per program; the property ranges over every token boundary of every construct and every comment text.",
 [LEX,EXP,ST,DE],[("Whitespace",LEX),("Comment",LEX)],["compiled module"])
p("C05","Malformed source is rejected with an error, never a crash or a hang",
 "For every byte sequence given as source, compilation terminates without panicking and either produces a module or returns an error. Every proper prefix of a program that ends inside a declaration, and every program containing a character that cannot start or continue the construct it appears in, is rejected.",
 ["inputs"],"all byte sequences, in particular all truncations and single-byte corruptions",
 "Tests try about twenty hand-written errors; panics and silent acceptance hide in byte combinations nobody wrote down.",
 [LEX,EXP,ST,DE],[("error returns of every parse function","parser_stmt.go, parser_decls.go, expressions.go")],["ParseDeclarations result"])
p("C06","Every accepted program becomes a well-formed LLVM module",
 "Whenever a program is accepted, the emitted LLVM IR is valid: every block ends in exactly one terminator, names of globals, blocks and values are unique and resolve to definitions, operand types agree, and every used value is defined before use. So clang never rejects what the front end accepted.",
 ["programs"],"all accepted programs, including all placements of control flow, labels and identifiers",
 "Tests compile a fixed set of programs; name clashes and missing terminators arise only for particular combinations of statements and identifiers.",
 [IR,ST,EXP,DE],[("NewBlock/GetOrCreateLabel",IR),("EndFunction",IR)],["module printed by --emit-llvm"])
p("C07","Operators group by B's precedence and associativity",
 "Expressions group as documented: postfix, then unary, then * / %, + -, << >>, < <= > >=, == !=, &, |, ?:, assignment, from tightest to loosest, with binary operators left-associative and ?: and assignment right-associative; parentheses override.",
 ["programs","inputs"],"all sequences of operators, for all operand values",
 "Tests try a handful of operator pairs with values for which wrong groupings often give the same number.",
 [EXP],[("parseExpressionWithLevel levels",EXP)],["value of compiled expression"])
p("C08","Operators compute their 64-bit result for all operand values",
 "For all 64-bit operands, + - * wrap modulo 2^64, / and % truncate toward zero, << and >> (arithmetic) shift by 0..63, & | are bitwise, comparisons are signed and yield 0 or 1, unary - negates and ! maps zero to 1 and non-zero to 0. Division by zero, the overflowing quotient and shift counts outside 0..63 are excluded.",
 ["inputs"],"all 64-bit operand values",
 "Tests use a few small operands; signedness, overflow and corner values need all 2^128 operand pairs.",
 [EXP],[("parseExpressionWithLevel",EXP),("parseUnary",EXP)],["value of compiled expression"])
p("C09","Assignments store the right value once and yield it",
 "x = e and every compound assignment (=+ =- =* =/ =% =& =| =<< =>> =< =<= => =>= === =!=) store into the left operand exactly the value of e, respectively of x op e, leave every other object unchanged, and have the stored value as their own value. Assigning to something that is not an lvalue is rejected.",
 ["inputs","programs"],"all operators, lvalue forms and 64-bit values",
 "Tests exercise each operator on one or two values and one lvalue form.",
 [EXP],[("assignment handling in parseExpressionWithLevel",EXP)],["memory after the statement","value of expression"])
p("C10","Increment, address-of, indirection and subscripts hit the right word",
 "x++ x-- ++x --x change their operand by exactly one word unit of 1, prefix forms yielding the new and postfix forms the old value; &x yields the address of x, *p denotes the word p points at, v[i] denotes the word i words after the address held in v, and all of them may be nested, assigned to and incremented. Each use evaluates its operand once and touches no other word.",
 ["inputs","programs"],"all nestings of lvalue operators, all index values and word contents",
 "Tests check single operators on scalars and constant indices.",
 [EXP,IR],[("parseUnary/parsePostfix",EXP),("GetAddress",IR)],["memory after the statement","value of expression"])
p("C11","A conditional expression evaluates exactly the selected arm",
 "c ? a : b evaluates c once, then only a if c is non-zero and only b otherwise, and has the value of the arm evaluated; it may be nested in any arm or operand and used wherever an expression may.",
 ["inputs","programs"],"all condition values, all nestings, arms with side effects",
 "Tests check two or three conditionals with fixed conditions.",
 [EXP],[("ternary handling",EXP)],["trace of calls","value of expression"])
p("C12","if, else and while follow their conditions",
 "An if runs its first statement when the condition is non-zero and its else part (which binds to the nearest if) otherwise; a while tests its condition before each iteration and repeats its body until the condition is zero. This holds for every nesting and for every spelling of the source around the keywords.",
 ["inputs","programs"],"all nestings of statements and all condition values",
 "Tests run fixed programs; interactions of nesting, dangling else and unreachable code need arbitrary shapes.",
 [ST],[("parseIf",ST),("parseWhile",ST)],["trace of calls"])
p("C13","switch jumps to the matching case and falls through",
 "A switch evaluates its expression once, continues at the case whose constant equals the value for every 64-bit value, or after the switch when none matches, and control falls through from one case to the next. Cases may sit anywhere inside the switch body, including nested blocks, and nested switches are independent; a case outside a switch and two equal cases in one switch are rejected.",
 ["inputs","programs"],"all case sets, nestings and switch values",
 "Tests use a few switches on a few values.",
 [ST],[("parseSwitch",ST),("parseCase",ST)],["trace of calls"])
p("C14","goto and labels transfer control as written",
 "goto transfers control to the statement carrying that label in the same function, forward or backward, into or out of nested statements; labels fall through when reached in sequence and are private to their function. A goto to a label that is not defined, and a label defined twice, are rejected.",
 ["programs"],"all placements of labels and gotos",
 "Tests have a few goto programs; label names and placements are unbounded.",
 [ST,IR],[("parseGoto",ST),("GetOrCreateLabel",IR)],["trace of calls"])
p("C15","return ends the function with its value; falling off the end yields 0",
 "return(e) ends the current invocation with the value of e and return; or reaching the end of the function ends it with 0; no statement after an executed return runs, wherever the return stands, and statements that follow a return in the text do not alter what it does.",
 ["inputs","programs"],"all positions of return among other statements",
 "Tests put return at the end of functions or branches.",
 [ST,IR],[("parseReturn",ST),("EndFunction",IR)],["trace of calls","function result"])
p("C16","Calls pass every argument in order and return the callee's value",
 "A call passes the values of its arguments, in order and for any number of them, to the callee's parameters; parameters and automatic variables are private to each invocation, recursion included, and the call has the callee's result as its value. Calls work through any name or expression holding a function's address as well as directly, and to functions defined earlier, later or in another file.",
 ["inputs","programs"],"all argument counts and values, all call shapes",
 "Tests call functions with up to a few arguments.",
 [EXP,IR,DE],[("call handling in parsePostfix",EXP),("StartFunction va_arg prologue",IR)],["trace of calls","parameter values"])
p("C17","Names resolve by B's scope rules",
 "Inside a function a name means its auto or parameter if it has one, otherwise the global made visible by extrn in that function, otherwise, when called or used as a value, a function; declarations of one function are invisible in the next. Assigning to an undeclared name, declaring a name twice in a function and using one name both as a function and as a variable of the file are rejected; letters, digits and underscores may form a name of any length, and distinct spellings are distinct names.",
 ["programs"],"all combinations of declarations and uses, all identifier spellings",
 "Tests check a few of the combinations, each with one spelling.",
 [IR,EXP,ST,DE],[("GetAddress",IR),("ClearTopLevelContext",IR),("parseExtrn",ST),("parseAuto",ST)],["memory and trace of calls","compile errors"])
p("C18","Global definitions lay out and initialise storage as written",
 "name ival, ...; defines consecutive words holding the initialisers starting at the address of name (one zero word when there is none); name[n] ival, ...; defines a word holding the address of a vector of max(n, number of initialisers) words, initialised in order and zero-filled, at least one. Every definition has its own storage and a later definition of a name replaces an earlier one.",
 ["inputs","programs"],"all sizes, initialiser lists and combinations of definitions",
 "Tests check a few sizes with fewer initialisers than elements.",
 [DE,IR],[("parseGlobal/parseVector",DE),("DeclareGlobalArray",IR)],["module globals","memory"])
p("C19","Automatic storage is fresh, zeroed and private",
 "An auto scalar starts at 0; auto v[n] provides a pointer word to n private words (one when n is 0) addressed as v[0]..v[n-1]; all automatic objects of an invocation are disjoint from each other and from the globals, whatever the order of declarations. A declaration executed again (in a loop) does not consume additional stack.",
 ["inputs","programs"],"all declaration lists, sizes and access patterns",
 "Tests declare small fixed sets of variables.",
 [IR,ST],[("DeclareLocal/DeclareLocalArray",IR),("parseAuto",ST)],["memory"])
p("C20","Compilation is deterministic and files are independent",
 "Compiling the same source with the same options always emits the same IR, regardless of hash-map iteration order, of what the process compiled before and of which other files are on the command line.",
 ["schedules","histories"],"all map iteration orders and all preceding compilations",
 "Go randomises map order per run, so a test sees one order; tests compile one program per compiler.",
 [IR,DR],[("fresh Compiler per file",DR),("function name lookup in StartFunction",IR)],["emitted module"])
p("C21","The driver produces the documented outputs with the documented clang commands",
 "For every combination of output type, -o, inputs, -O, -g, -L and -l, the driver writes each result under the documented name (-o, or the base name with .ll/.s/.o, or without extension for executables) and hands clang the options for that mode, every input exactly once and in command-line order, for executables the -L directories, then libb, then the -l libraries in order. Input extensions a mode does not accept, and -o with several inputs in a non-linking mode, are rejected.",
 ["configurations"],"all combinations of options and input lists",
 "Tests run about forty command lines; the cross product of modes, extensions and flags is not sampled.",
 [DR],[("compileToIR/Assembly/Object/Executable",DR)],["clang argument vectors","file operations"])
p("C22","Driver failures are reported and intermediates cleaned up",
 "If reading an input, creating or writing an output, or clang fails at any step, the driver returns an error and does not report success; whatever happens, without --save-temps no intermediate IR file is left behind and nothing else is removed, while with --save-temps every intermediate that was written is kept.",
 ["fault_sequences","configurations"],"every failure point in every mode and input list",
 "Tests can provoke few I/O failures; failures of each individual step are not injectable.",
 [DR],[("error paths in compileTo*",DR)],["file operations","error result"])
p("C23","The command line selects mode and options as documented",
 "-S, -c and --emit-llvm select assembly, object and IR output (in that order of precedence) and otherwise an executable is made; -O accepts exactly 0..3; -o, -g, -v, --save-temps, -L and -l reach the driver unchanged and in order wherever they stand. Missing inputs, unknown extensions, unreadable files and failed compilations exit with status 1 and a message, without invoking the compiler further, and successful ones with 0; an unknown option or one whose value is missing ends with a nonzero status and a message; -h and -V print and end with 0. Without -v a successful run prints nothing; with -v it does.",
 ["configurations"],"all combinations of flags and operands",
 "Tests run a sample of command lines through the binary.",
 [MA,"options.go"],[("main",MA)],["options passed to Compile","exit status"])
p("C24","printd and printo print every word's exact numeral",
 "printd(n) writes the decimal numeral of the signed word n, with a leading '-' only if it is negative, and printo(n) the octal numeral of the word read as unsigned, without leading zeros, for all 2^64 words, and nothing else.",
 ["inputs"],"all 64-bit words",
 "Tests print a few numbers.",
 ["runtime/printd.c","runtime/printo.c"],[("b_printd","runtime/printd.c"),("b_printo","runtime/printo.c")],["bytes written"])
p("C25","printf expands its format exactly",
 "printf writes its format with %d %o %c %s replaced by the decimal, octal (with '-' and magnitude if negative), character and string form of successive arguments, %% by one '%', and an unknown %x unchanged; all other bytes are written verbatim, in order, once.",
 ["inputs"],"all formats and arguments",
 "Tests use a few formats and small arguments.",
 ["runtime/printf.c","runtime/char.c"],[("b_printf","runtime/printf.c")],["bytes written"])
p("C26","write and writeb emit exactly the bytes of their argument on the selected stream",
 "write(c) writes the bytes of the word c most-significant first without leading zero bytes (a single zero byte for 0), writeb(c) exactly its low byte, both to standard output or, when fout is 1, standard error; flush() writes nothing and fout is 0 when the program starts.",
 ["inputs"],"all 64-bit words and both streams",
 "Tests write a few ASCII constants.",
 ["runtime/write.c","runtime/writeb.c"],[("b_write","runtime/write.c"),("b_writeb","runtime/writeb.c")],["write system calls"])
p("C27","char, lchar, read, nread and nwrite access exactly the named bytes",
 "char(s,i) yields byte i of s as stored (0..255), lchar(s,i,c) replaces exactly that byte by the low byte of c; nread and nwrite issue one system call with exactly the given descriptor, buffer and count and return its result; read() returns the next input byte if it is a non-zero ASCII character, 4 at end of input or on error, and 0 otherwise.",
 ["inputs","fault_sequences"],"all strings, indices, byte values and system call results",
 "Tests read and write short ASCII text and see no errors.",
 ["runtime/char.c","runtime/lchar.c","runtime/read.c","runtime/nread.c","runtime/nwrite.c"],[("system call wrapper","runtime/x86_64.h")],["system calls","memory"])
p("C28","A program exits with main's value, exit() ends it with status 0",
 "A linked program runs main exactly once and terminates through the exit system call with main's result as its status, and exit() terminates with status 0; the system call wrapper passes number and arguments in the registers of the platform ABI and returns the kernel's result.",
 ["inputs"],"all results of main, all system call arguments",
 "Tests check a few exit codes.",
 ["runtime/start.c","runtime/exit.c","runtime/x86_64.h"],[("_start","runtime/start.c"),("syscall","runtime/x86_64.h")],["system calls"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
