#!/usr/bin/env python3
"""Regenerates harness/meta.json: per property the bounds and assumptions that the evidence states."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIV="divisors non-zero, no INT64_MIN/-1, shift counts 0..63 (undefined in B)"
ASC="identifiers and punctuation are ASCII outside literals and comments"
ORD="the order in which operands and arguments are evaluated is not asserted"
M={}
def m(i,b,*a): M[i]=dict(bounds=b,assumptions=list(a))
m("C01","literals of 1 to 20 digits with every digit symbolic, in expressions, as operands, in scalar and vector initialisers; case labels with one (thorough: two) symbolic digits after fixed prefixes; vector sizes up to two (thorough: three) symbolic digits; literals of up to 67 (thorough: 259) digits")
m("C02","constants of up to 8 plain bytes with every byte symbolic; up to 4 (thorough: 5) wholly arbitrary bytes after the quote; one escape with symbolic letter at every position of up to 10 characters; case labels, vector sizes and initialisers with one symbolic byte")
m("C03","strings of up to 4 (thorough: 5) wholly arbitrary bytes; up to 12 plain bytes of any value; one symbolic escape at every position; up to 12 literals in one file; strings of up to 4099 bytes with symbolic bytes inside, up to 257 literals in one file")
m("C04","one arbitrary byte, or one comment with arbitrary text, at each token boundary of a set of programs covering every construct; blanks and comments at all boundaries at once; thorough: two arbitrary bytes per boundary; gaps of up to 4097 (thorough: 65537) bytes before every token; programs preceded by up to 1 KB of other declarations; texts of 8, 16, 32, 64 and 128 KB with a program across the boundary",ASC,"a separator is needed after an operator that is a prefix of a longer one (maximal munch, as in classical B): '= /*', '= -', '+ +'")
m("C05","every byte sequence of length up to 3 (thorough: 4) as a file, as a statement and as an expression; every prefix, every replaced byte, every inserted byte, every deletion of 1..3 bytes of a program containing every construct; every nesting form at depths of up to 257","termination: a path that exceeds 3 million interpreted instructions is reported")
m("C06","statement templates nested 2 (thorough: 3) deep and sequences of 2; pairs (thorough: triples) of top-level definitions; identifiers with symbolic characters and names the code generator uses itself; every byte replaced by an arbitrary byte in a program with every construct; large counts of each construct; up to 257 of each","well-formedness is decided by harness/zvwf.go on the llir module and its printed text (types, dominance, terminators, unique names)")
m("C07","every pair of binary operators (thorough: every triple, and four of two levels) with unary, postfix, conditional and assignment operators around them; operands arbitrary 64-bit words; chains of up to 1024 operators and 257 parentheses",DIV,ORD)
m("C08","every operator on every kind of operand; operands arbitrary 64-bit words; literal operands with symbolic digits; operator trees of depth 2 (thorough: 3)",DIV,"products, quotients and remainders of two symbolic words are compared as the same bit-vector operation of provably equal operands")
m("C09","every assignment operator on every lvalue form and every kind of right operand, chained twice; values arbitrary 64-bit words; the operator's characters symbolic; chains and runs of up to 257 assignments",DIV,"subscripts within the vector")
m("C10","++ -- (both forms) & * [] on every lvalue form of a frame with scalars, vectors, pointers and globals, nested two deep; contents arbitrary; subscripts arbitrary within the object; runs of up to 129 of each operator","every access lies within an object")
m("C11","conditions and arms of every expression form, nested up to 2 (thorough: all pairs of arm forms); all condition values arbitrary words; chains and nests of up to 65",ORD)
m("C12","if/else/while templates nested 2 (thorough: 3) deep, up to 3 iterations per loop (longer runs end the path); all condition values arbitrary words; bytes around keywords symbolic; if chains, loop counts and nests of up to 65, loops nested 12 deep")
m("C13","switches with up to 3 parts out of case/default-less statements, blocks, labels, loops, nested switches; selector an arbitrary word; case constants with symbolic digits; up to 40 cases; up to 129 cases and parts","case labels stand in the switch body or in blocks, not under if or while inside it")
m("C14","one label and one goto at any two of the marked places of a program with every statement form; forms of label names with symbolic characters; loops by goto up to 3 iterations; up to 257 labels, label names of up to 257 characters, labels of up to 65 functions")
m("C15","returns of every form at every marked place, any statement after them; returned values arbitrary words; up to 65 returns")
m("C16","0..8 arguments and parameters with arbitrary values; every expression form as an argument and as the called object; up to 129 parameters, arguments, calls and nested calls; recursion 64 deep",ORD,"missing and surplus arguments are outside the language")
m("C17","two declarations out of all kinds, names of one to three symbolic letters coinciding in every way, long names, then every kind of use; names of up to 129 characters, up to 129 globals, functions, locals and externals","a name declared both extrn and auto in one function is outside the language")
m("C18","scalars, lists and vectors with up to 4 initialisers of every kind, sizes and values with symbolic digits, up to 3 definitions, redefinitions, tables of up to 300 words; up to 1025 initialisers, up to 257 globals")
m("C19","lists of up to 3 declarations of scalars and vectors, sizes with symbolic digits and large sizes, every word written and read back with arbitrary values; loops up to 3 iterations; up to 129 scalars and as many vectors","subscripts within the vector")
m("C20","10 sources with several functions, globals, labels, locals and literals (names symbolic in one harness) under every iteration order of every map the compiler ranges over; after 1 (thorough: 2) other compilations, including failing ones; 2 (thorough: 3) files on one command line in all four modes; every option; after 12 other compilations","the module of a source is compared as printed text")
m("C21","all four modes; 1 to 3 inputs out of the five extensions (thorough: 3 in every mode), file names with 2 and extensions with 2 to 4 arbitrary bytes, -o with 3 arbitrary bytes, every combination of -O, -g, -v, --save-temps, up to 2 directories and 2 libraries with arbitrary bytes, one of 3 to 8 arbitrary bytes; up to 65 inputs; a second run over what a run on other contents left behind","files and clang are models: clang reads its inputs, writes its output and looks at its options in order","names are not empty before the extension, and no input is named like an intermediate file")
m("C22","all four modes, 1 to 3 inputs of every kind, with up to 2 (thorough: 3) failing steps at any point: opening or reading (from any byte on) an input, creating, writing (partially) or closing a file, running clang (with or without a partial output); sources that are missing or malformed; a source with every construct whose reading fails at any byte; 11 inputs with one failing step anywhere","a read error persists; removing a file does not fail")
m("C23","main() with 2 (thorough: 3) options in every spelling, position and order around the inputs, -O with an arbitrary byte, two or three arbitrary bytes, up to 5 mode flags, 4 libraries and directories with arbitrary bytes interleaved with inputs, every subset of the default directories, missing, foreign, malformed inputs and failing clang; up to 40 inputs, libraries and directories each","pflag itself is executed; -L and -l values without commas and quotes")
IR="the IR that clang emits at -O0 stands for the C source; the order in which clang would reorder undefined behaviour is not modelled"
FULLW="the write system call writes everything it is asked to (short writes and EINTR are outside)"
m("C24","all 2^64 words, both values of fout; two calls in a row with arguments below 1000",IR,FULLW,"descriptors are compared in their low 32 bits")
m("C25","one directive of any kind over all 64-bit words, strings of up to 6 arbitrary bytes, any other character after %, a % at the end; two directives with numbers of up to two digits; nine directives of one kind (registers and stack); thorough: three and four directives, eight directives of mixed kinds, two numbers of up to eight digits",IR,FULLW)
m("C26","all 2^64 words, both values of fout; two calls in a row with arguments below 1000; flush; the initial value of fout",IR,FULLW)
m("C27","every position of a string of 8 (thorough: 64) arbitrary bytes through every pair of address and index; all descriptors, buffers and counts; all results of the system call; read: every byte, end of input, every error",IR)
m("C28","all 2^64 results of main; all system call numbers, arguments and results through the wrapper of x86-64, aarch64 and riscv64",IR,"the status is the low 8 bits; exit and exit_group are both accepted","the system call instruction changes only the registers the kernel ABI names")
json.dump(M,open(here+'/harness/meta.json','w'),indent=1,ensure_ascii=False)
