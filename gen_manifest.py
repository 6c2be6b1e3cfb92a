#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of built checks and properties.jsonl."""
import json
B = {
 "C01": ("TLA+ statement machine (CFlow.tla): exhaustive small bodies and seeded random bodies generated by TLC, replayed in compiled code",
         "all bodies up to 6 (8) tokens of three vocabularies with all input sequences; random bodies up to 26 tokens"),
 "C02": ("TLA+ denotational machine over 64-bit words (IntExpr.tla, Bits.tla): TLC builds expressions with their types, values and effects; replayed in compiled code",
         "all one-operator expressions over boundary values of all types; random trees up to 9 operators in every operand form and context"),
 "C03": ("TLA+ machine over exact binary fractions, infinities and NaN (FloatExpr.tla): TLC builds mixed expressions with their values; replayed in compiled code",
         "random trees up to 6 operators, one-operator and one-conversion expressions over every pair of types; results limited to 30-bit significands"),
 "C04": ("TLA+ denotational machine over 64-bit words restricted to constant expressions (IntExpr.tla): values compared in every constant context of compiled code",
         "random constant expressions up to 8 operators in static initializers, enumerators, case labels, array bounds, bit-field widths, static assertions"),
 "C14": ("TLA+ machine of macro replacement one token at a time with hide sets (MacroExp.tla) and of the macro table (MacroMap.tla): seeded histories by TLC replayed through the preprocessor",
         "random histories of up to 6 definitions, push/pop/undef and 3 uses; populations of 2500 names under 4000 operations"),
 "C15": ("TLA+ pushdown machine over source lines (CondIncl.tla, exhaustive for short files) and denotational machine of controlling expressions (PPExpr.tla): behaviours replayed through the preprocessor",
         "all files up to 5 (6) lines over a small vocabulary, random files up to 40 lines and depth 8; random controlling expressions up to 9 operators; unbalanced files must be refused"),
 "C17": ("TLA+ character transducer of phases 2 to 4 (LexText.tla), maximal-munch scanner (Munch.tla), literal and constant decoders (Literal.tla, NumConst.tla): behaviours generated by TLC replayed in compiled code",
         "random texts up to 26 characters, random literals of up to 3 parts and 7 elements, random constants of every base and suffix, random expressions whose separators are left out wherever the scanner allows"),
 "C09": ("TLA+ machine of the System V classification and of the hand-out of registers and stack space (SysV.tla): signatures and locations generated by TLC, replayed with assembler stand-ins for caller and callee",
         "random signatures of up to 12 parameters over scalars and random nested structures, unions and arrays, named and variadic, both call directions; callee-saved registers, stack alignment and balance observed"),
 "C06": ("TLA+ placement machine over the bits of a structure (Layout.tla): declarations and layouts generated by TLC, sizes, alignments, offsets and bit positions observed in compiled code",
         "random pools of up to 4 structures and unions of up to 14 members, nested, in arrays, anonymous, with bit-fields, #pragma pack stacks, packed attributes and _Alignas; both ABIs"),
 "C07": ("TLA+ machine over the bits of a structure and the values of accesses (BitField.tla): histories generated by TLC replayed in compiled code",
         "random structures of up to 8 bit-fields and plain members, histories of up to 12 reads, assignments, compound assignments and increments, whole storage compared"),
 "C08": ("TLA+ cursor machine of initializer lists (InitList.tla): types, token sequences and contents generated by TLC, replayed as automatic, static and compound-literal objects",
         "random aggregates of up to 40 leaves, initializers of up to 12 items with braces, elided braces, designators, strings, overrides and unknown bounds"),
 "C05": ("TLA+ byte-level machine of objects and pointers (Objects.tla): histories of stores, copies, pointer moves and reads under control flow generated by TLC, replayed over every storage duration in compiled code",
         "random pools of structures and unions, up to 4 objects, histories of up to 24 statements, values, pointers and representation bytes read back"),
 "C11": ("TLA+ scope machine with its four name spaces (Scopes.tla): declarations, uses and block structure generated by TLC; valid programs replayed, programs with one forbidden declaration or use must be refused",
         "random programs of up to 40 declarations and uses over 3 to 5 names, nested blocks, statements as scopes, prototypes, typedefs, tags, members, labels, enumerators"),
 "C12": ("TLA+ machine of linkage over two translation units (Linkage.tla): declaration histories generated by TLC; symbol tables of the objects and the linked run compared",
         "random histories of file-scope and block-scope declarations of up to 5 names, static, extern, inline, tentative and initialized, two units"),
 "C13": ("TLA+ machine of declarators, declaration specifiers, composite types and expression types (Types.tla, Specifiers.tla): types generated by TLC observed with _Generic, sizeof and redeclarations in compiled code",
         "all specifier multisets up to 5 words in random order; random declarators of up to 7 derivations, redeclarations with composite types, random expressions; conflicting declarations must be refused"),
 "C20": ("TLA+ recursive-descent judges of token sequences (Syntax.tla, SyntaxMut.tla) and of instances of constraints (Rules.tla): sequences judged by TLC, valid ones must be accepted, invalid ones refused with a message and status 1",
         "all expressions of 3 tokens of 18 and of 4 of 9, all bodies of 2 and 4 statement heads; random sequences around valid ones up to 8 and 12 tokens; constraint instances"),
 "C21": ("TLA+ machine that reads the assembly text line by line and decodes the bytes of the object (X86.tla): recorded text and object of generated units checked by TLC, both the object of -c and the text assembled by as",
         "generated units of the other specifications and of Operands.tla (frames and constants at encoding boundaries); every instruction, datum, relocation, symbol, section size and alignment"),
}
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in B:
        t, n = B[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % i,
                           technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=na), open("MANIFEST.json", "w"), indent=1)
