#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are edited in one readable place)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
                  why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=m.strip(),where=files[0]) for m in mech.split(',')])))
p("C01","Statements execute in the order C prescribes",
  "A compiled function performs its observable actions (calls, reads of its inputs, updates of its variables) in exactly the order the C abstract machine prescribes for if/else, while, do, for, switch with fall-through and case labels at any depth, break, continue, goto and return. This holds for any nesting of these statements and for every sequence of condition outcomes, with controlling expressions of any scalar type.",
  ["programs","inputs"],"every structured or goto-using function body, and every sequence of outcomes of its controlling expressions",
  "The tests execute a dozen fixed bodies with one input each; nestings, jumps into and out of nested constructs and their join points are unbounded.",
  ["src/parser/function_parser.c","src/ir/ir.c","src/optimize/mem2reg.c","src/optimize/peephole.c","src/ir/global_code_motion.c","src/ir/dominator_tree.c","src/codegen/codegen.c"],
  "statement parsing straight to IR blocks with at most two predecessors, jump_blocks, label table, phi insertion, code motion and phi copies")
p("C02","Integer expressions have the type and value C gives them",
  "Every expression over operands of integer type, evaluated at run time, has the type given by the integer promotions and usual arithmetic conversions and the value C and the x86-64 implementation-defined choices give it. This covers all unary, binary, shift, comparison, logical, conditional, comma, cast, assignment, compound-assignment and increment/decrement operators, at every width and signedness, including the stored value of assigned objects.",
  ["programs","inputs"],"every well-defined expression tree over the integer types, and every value of its operands",
  "Tests check single operators at a few values; type and width combinations multiply with nesting and boundary values.",
  ["src/parser/expression.c","src/parser/expression_to_ir.c","src/ir/operators.c","src/codegen/codegen.c","src/codegen/binary_operators.h","src/types.c"],
  "conversion insertion in the expression constructors, IR operator selection per size/sign, instruction templates")
p("C03","Floating expressions and conversions have the value C gives them",
  "Arithmetic, comparison, logical use, assignment and conversion of float and double values, mixed with every integer type, give the exact IEEE-754 result whenever that result is exactly representable, and conversions to integer types truncate toward zero. Comparisons involving NaN, infinities and negative zero give the results IEEE-754 and C prescribe.",
  ["programs","inputs"],"every expression mixing floating and integer operands whose exact value is representable, plus the special values",
  "Tests use a handful of constants; conversions are separate code paths per (source, destination) pair.",
  ["src/parser/expression.c","src/parser/expression_to_ir.c","src/codegen/codegen.c","src/codegen/binary_operators.h","src/ir/operators.c"],
  "int/float cast node selection, SSE instruction templates, comparison flag use")
p("C04","Constant expressions equal their run-time evaluation",
  "Wherever C requires or permits translation-time evaluation (static initializers, enumerators, case labels, array bounds, bit-field widths, static assertions, folded subexpressions) the value is the one the same expression has when evaluated at run time. An address constant designates the object and offset that the same expression designates at run time.",
  ["programs"],"every constant expression accepted by the compiler in each constant context",
  "The folder is a second evaluator of the whole expression language; tests compare it with run time for a few operators only.",
  ["src/ir/operators.c","src/parser/expression.c","src/parser/expression_to_ir.c","src/types.c","src/codegen/rodata.c"],
  "operators_constant, expression_to_constant, cast of constants, static initializer emission")
p("C05","Loads and stores behave as accesses to C objects",
  "A read of any lvalue (variable, array element, structure or union member, dereferenced pointer, compound literal, variable-length array element) yields the value last stored to those bytes by any lvalue that overlaps them, and a store changes no other byte of any object. Structure and union assignment, passing and returning copies the whole value, and pointer arithmetic and differences scale by the element size.",
  ["programs","inputs"],"every sequence of loads, stores, aggregate copies and pointer computations over any set of objects, with control flow in between",
  "Promotion of objects to SSA values, load/store code and address folding depend on which lvalues alias; tests have few aliasing patterns.",
  ["src/optimize/mem2reg.c","src/parser/expression_to_ir.c","src/parser/expression.c","src/ir/ir.c","src/codegen/codegen.c"],
  "memory state chain, mem2reg escape analysis, load/store lowering, address arithmetic")
p("C06","Object layout follows the x86-64 ABI",
  "sizeof, _Alignof and the offset of every member of every structure, union, array, enumeration and bit-field-containing type equal those the platform ABI (and #pragma pack, __attribute__((packed)) and _Alignas) prescribes, so that code built by another ABI-conforming compiler sees the same members. Bit-fields of packed structures aside, and under -fabi=ms bit-fields are placed as under System V, which the project's tests pin.",
  ["programs"],"every structure/union type built from scalars, arrays, nested and anonymous aggregates, bit-fields and packing annotations",
  "Layout is a function of the member sequence; tests check a few types.",
  ["src/types.c","src/parser/declaration.c","src/abi/sysv.c"],
  "calculate_offsets, packing, alignment and bit-field allocation")
p("C07","Bit-field accesses touch exactly their bits",
  "Reading a bit-field yields its stored bits with the sign or zero extension of its declared type; assigning, compound-assigning, incrementing or initializing it truncates to the width, changes no bit outside the field, and the expression has the value of the stored field.",
  ["programs","histories"],"every structure with bit-fields and every sequence of accesses to its members",
  "Shift/mask sequences depend on offset, width, type, signedness and storage; a test samples few combinations.",
  ["src/parser/expression_to_ir.c","src/types.c","src/parser/declaration.c"],
  "bit-field load/store lowering")
p("C08","Initialization gives every member its specified value",
  "After initialization of an automatic, static or compound-literal object of any aggregate type, each subobject holds the value of the last initializer that designates it under C's designator, brace-elision and string rules, and every other subobject is zero. The size of an array of unknown bound is the largest initialized index plus one, and automatic and static initialization agree.",
  ["programs"],"every initializer (nested braces, elided braces, designators, overrides, strings) for every aggregate type",
  "The current-object cursor is a state machine over nested types; tests sample a few paths.",
  ["src/parser/declaration.c","src/parser/expression.c","src/parser/expression_to_ir.c","src/types.c","src/codegen/rodata.c"],
  "initializer parsing, designator handling, static data emission")
p("C09","Calls follow the System V calling convention",
  "Any function call or definition, with any number and mix of integer, floating, pointer, structure and union parameters and any return type, named or variadic (va_start, va_arg, va_copy), exchanges all values correctly (long double, bit-field and packed structures aside) with code compiled by another conforming System V x86-64 compiler in both directions, and preserves callee-saved registers and stack alignment.",
  ["programs","inputs"],"every function signature and argument value list, in both call directions",
  "The classification state (registers left, class of each eightbyte, stack area) ranges over all signatures; self-compiled tests agree with themselves even when the convention is wrong.",
  ["src/abi/sysv.c","src/arch/calling.c","src/abi/abi.c","src/codegen/codegen.c"],
  "SysV eightbyte classification, register assignment, va_list handling")
p("C10","Calls follow the Microsoft x64 convention under -fabi=ms",
  "With the Microsoft ABI selected, any function call or definition with any mix of integer, floating, pointer and structure parameters and any return type, named or variadic, exchanges all values correctly in both directions with code compiled by another compiler for the Microsoft x64 convention.",
  ["programs","configurations"],"every function signature and argument value list, in both call directions, with -fabi=ms",
  "As for System V; the wine tests only call into functions compiled by the same compiler or libc.",
  ["src/abi/microsoft.c","src/arch/calling.c","src/abi/abi.c"],
  "argument slot assignment, by-reference aggregates, shadow space")
p("C11","Identifiers resolve to the visible declaration",
  "Every use of an ordinary identifier, typedef name, enumeration constant or structure/union/enum tag denotes the innermost declaration visible at that point in its own name space, from the end of its declarator to the end of its block, prototype or file scope. A use with no visible declaration, and a conflicting redeclaration in the same scope, is rejected.",
  ["programs"],"every nesting of scopes and sequence of declarations and uses across the name spaces",
  "Scope handling is a stack discipline over hash tables; tests never leave and re-enter scopes in unusual orders.",
  ["src/parser/symbols.c","src/parser/declaration.c","src/parser/expression.c","src/parser/function_parser.c"],
  "scoped symbol tables, typedef-name disambiguation")
p("C12","Linkage and tentative definitions decide what a unit defines",
  "After compiling a translation unit, the emitted symbols are exactly those C's linkage rules give: functions and objects with external linkage that the unit defines are global definitions, internal linkage ones are local, referenced but undefined ones are undefined, and a tentative definition yields one zero-initialized object. All declarations of one identifier with linkage refer to the same object, and static objects inside functions are distinct, persistent and initialized once.",
  ["programs"],"every sequence of file-scope and block-scope declarations and definitions with any storage class",
  "The outcome depends on the history of declarations of a name; tests have a few fixed histories.",
  ["src/parser/symbols.c","src/parser/declaration.c","src/codegen/rodata.c","src/assembler/assembler.c","src/linker/elf.c","src/parser/parser.c"],
  "identifier entries with linkage, tentative list, static variable emission, ELF symbol table")
p("C13","Declarations and expressions have the type C gives them",
  "Every declarator (pointers, arrays, functions, parentheses, qualifiers, typedefs, parameter adjustments, type names) and every specifier combination denotes the type the C grammar prescribes. This is visible through sizeof, _Generic selection, and acceptance of redeclarations exactly when the types are compatible. (The compiler does not track volatile and restrict, and an enumerated type is int.)",
  ["programs"],"every specifier combination and declarator nesting, and every pair of types",
  "Declarators compose recursively; tests try a few.",
  ["src/parser/declaration.c","src/types.c","src/parser/expression.c"],
  "declaration specifiers and declarator parsing, type interning, _Generic matching, type compatibility")
p("C14","Macro replacement follows the C algorithm",
  "Expanding any sequence of object-like, function-like and variadic macro definitions, undefinitions, push/pop operations and uses yields the token sequence C's replacement algorithm prescribes: argument pre-expansion, # and ## operators, rescanning with the rest of the file, and no re-expansion of a macro inside its own replacement. Expansion always terminates.",
  ["programs","histories"],"every set of macro definitions (including mutually recursive) and every invocation text",
  "Rescanning and hide sets interact through nesting; tests contain a handful of classic examples.",
  ["src/preprocessor/macro_expander.c","src/preprocessor/string_set.c","src/preprocessor/token_list.c","src/preprocessor/directives.c","src/preprocessor/preprocessor.c"],
  "macro expander with hide sets, paste table, stringification")
p("C15","Conditional inclusion keeps exactly the selected groups",
  "For any nesting of #if, #ifdef, #ifndef, #elif, #elifdef, #elifndef, #else and #endif, exactly the groups C selects are processed, and directives and text in skipped groups have no effect. Controlling expressions are evaluated in 64-bit signed/unsigned arithmetic after macro replacement and defined, undefined names count as 0; an unbalanced conditional is rejected.",
  ["programs"],"every nesting of conditional directives and every controlling expression",
  "The conditional stack is a pushdown automaton and the evaluator a third arithmetic; tests exercise shallow nests.",
  ["src/preprocessor/directives.c","src/precedence.c","src/ir/operators.c"],
  "cond_stack, directive dispatch while skipping, evaluate_expression")
p("C16","Inclusion and line bookkeeping track the source",
  "For any tree of source files, #include replaces the directive by the file found by C's quote/angle search order, a file with #pragma once contributes at most once, and __FILE__, __LINE__ and #line report the presumed position at every point. The dependency output lists exactly the files read.",
  ["programs","histories"],"every include graph, search path configuration, and placement of #line, splices and multi-line invocations",
  "Position and include state are a stack across files; tests include a couple of files.",
  ["src/preprocessor/input.c","src/preprocessor/tokenizer.c","src/preprocessor/directives.c","src/preprocessor/preprocessor.c","src/main.c"],
  "input stack, search paths, line counters, disable_file, dependency writer")
p("C17","Source text is split and decoded into the tokens C prescribes",
  "For any character sequence without digraphs and trigraphs, line splices and comments are removed, tokens are formed by maximal munch, and every integer, character and string literal has the type and value C gives it, including prefixes, suffixes, escape sequences, universal character names and adjacent-literal concatenation (long double constants, which the compiler does not support, aside).",
  ["inputs"],"every source character sequence",
  "The tokenizer is a character-level automaton; tests cover common spellings only.",
  ["src/preprocessor/tokenizer.c","src/preprocessor/string_concat.c","src/escape_sequence.c","src/utf8.c","src/parser/expression.c"],
  "next_char/splice handling, tokenizer_next, escape decoding, literal typing")
p("C18","Linking binds each reference to its definition",
  "Linking any set of object files without a -c or -S flag yields an executable in which every reference, in any relocatable form the compiler emits, resolves to the definition of that symbol (local symbols to the same object file's), data keeps its contents and alignment, and execution starts at the entry symbol. An undefined or multiply defined symbol is reported as an error.",
  ["programs","configurations"],"every set of object files, order on the command line and reference graph",
  "No test uses the built-in linker with more than trivial input.",
  ["src/linker/linker.c","src/linker/elf.c","src/linker/object.c","src/main.c"],
  "object combination, symbol resolution, relocation application, executable writer")
p("C19","Output depends only on the inputs and options",
  "The output for a source file is the same whatever other source files are compiled in the same invocation, before or after it, and repeated runs give identical bytes. Options given on the command line act the same whichever way they may be spelled or ordered.",
  ["histories","configurations"],"every list of input files and options in one invocation",
  "Tests compile one file per process, so state surviving from one file to the next is never observed.",
  ["src/main.c","src/parser/parser.c","src/parser/symbols.c","src/preprocessor/preprocessor.c","src/codegen/rodata.c","src/ir/ir.c","src/arguments.c"],
  "module-level static state and the reset functions")
p("C20","Invalid programs are diagnosed, never miscompiled",
  "A translation unit that violates a syntax rule or one of the constraints the compiler implements (undeclared or redeclared names, wrong argument counts or types, assignment to non-lvalues or const objects, misplaced labels and jumps, bad members, malformed directives and tokens) makes the compiler print an error and exit with status 1, wherever the violation occurs. A valid unit is never rejected.",
  ["programs"],"every valid program context and every single violation placed in it",
  "should_fail has nine files.",
  ["src/parser/expression.c","src/parser/declaration.c","src/parser/function_parser.c","src/preprocessor/directives.c","src/common.c"],
  "ERROR diagnostics throughout")
p("C21","Assembly output and object output are the same program",
  "For every translation unit, assembling the text written with -S gives the same sections, symbols and instructions as the object written with -c: each instruction is encoded with exactly the operation, operand sizes, registers, addresses and immediates printed, and each datum and relocation denotes the same bytes.",
  ["programs"],"every instruction form with every register, displacement and immediate the code generator emits",
  "Encoding boundaries (REX, disp8/disp32, imm8/imm32, special base registers) are hit only by particular operands.",
  ["src/assembler/encode.c","src/assembler/assembler.c","src/assembler/instructions.h","src/linker/elf.c"],
  "table-driven x86-64 encoder, text printer, relocation emission")
if __name__=="__main__":
    import os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
        for x in P:
            assert len(x["title"])<=80,x["id"]
            f.write(json.dumps(x)+"\n")
