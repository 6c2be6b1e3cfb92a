-------------------------------- MODULE LexText --------------------------------
(* Translation phases 2 to 4 seen through the # operator: a transducer over source characters.  Each step appends one
   source character (or a splice) to the argument of a stringizing macro and carries the scanner forward: splices
   vanish, comments and runs of white space become one space, literals are kept as they are spelled.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, MinLen, Chars, Pick(_)
PickAll(S) == S
PickOne(S) == {RandomElement(S)}
VARIABLES ph, src, mode, out, sp, tok, lines
vars == <<ph, src, mode, out, sp, tok, lines>>
(* mode: code, slash (a / was read), line, block, star (a * was read in a comment), str, stresc, chr, chresc
   sp: white space is pending.  tok: what the current token may still become: "id", "num", "pre" (an encoding prefix), "" *)
CharsAll == {"a", "x", "L", "u", "e", "8", "0", ".", "+", "-", "*", "/", "=", "<", "|", "&", "?", "\"", "'", " ", "\t", "\n"}
CharsFew == {"/", "*", "\"", "'", "\n", "a", " "}
White == {" ", "\t", "\n"}
Digits == {"0", "8", "1"}
Letters == {"a", "x", "e", "E", "L", "u", "U", "_"}
Emit1(c) == out' = (IF sp /\ out # <<>> THEN out \o <<" ", c>> ELSE Append(out, c)) /\ sp' = FALSE
Emit2(c, d) == out' = (IF sp /\ out # <<>> THEN out \o <<" ", c, d>> ELSE out \o <<c, d>>) /\ sp' = FALSE
NextTok(c, t) ==
  LET num == t \in {"num", "nume"} IN
  CASE num /\ c \in {"e", "E"} -> "nume"
    [] num /\ (c \in Digits \cup Letters \cup {"."} \/ (t = "nume" /\ c \in {"+", "-"})) -> "num"
    [] c \in Digits -> IF t = "" THEN "num" ELSE IF t = "u" /\ c = "8" THEN "pre8" ELSE "id"
    [] c \in Letters -> IF t # "" THEN "id" ELSE IF c = "u" THEN "u" ELSE IF c \in {"L", "U"} THEN "pre" ELSE "id"
    [] OTHER -> ""
(* one logical character in mode code, after any pending slash was written *)
Code(c, t) ==
  CASE c = "/" -> mode' = "slash" /\ UNCHANGED <<out, sp>> /\ tok' = ""
    [] c \in White -> sp' = TRUE /\ tok' = "" /\ UNCHANGED <<mode, out>>
    [] c = "\"" -> Emit1(c) /\ mode' = "str" /\ tok' = ""
    \* a ' directly after a number, or after what is no prefix, is left alone (digit separators)
    [] c = "'" -> t \notin {"num", "nume", "pre8"} /\ Emit1(c) /\ mode' = "chr0" /\ tok' = ""
    [] OTHER -> Emit1(c) /\ mode' = "code" /\ tok' = NextTok(c, t)
Read(c) ==
  CASE mode = "code" -> Code(c, tok)
    [] mode = "slash" -> IF c = "/" THEN mode' = "line" /\ sp' = TRUE /\ UNCHANGED <<out, tok>>
                         ELSE IF c = "*" THEN mode' = "block" /\ sp' = TRUE /\ UNCHANGED <<out, tok>>
                         ELSE IF c \in White THEN Emit1("/") /\ FALSE
                         ELSE IF c \in {"\"", "'"} THEN FALSE
                         ELSE Emit2("/", c) /\ mode' = "code" /\ tok' = NextTok(c, "")
    [] mode = "line" -> mode' = (IF c = "\n" THEN "code" ELSE "line") /\ UNCHANGED <<out, sp, tok>>
    [] mode = "block" -> mode' = (IF c = "*" THEN "star" ELSE "block") /\ UNCHANGED <<out, sp, tok>>
    [] mode = "star" -> mode' = (IF c = "/" THEN "code" ELSE IF c = "*" THEN "star" ELSE "block") /\ UNCHANGED <<out, sp, tok>>
    [] mode = "str" -> c # "\n" /\ c # "\t" /\ out' = Append(out, c) /\ mode' = (IF c = "\"" THEN "code" ELSE "str") /\ UNCHANGED <<sp, tok>>
    \* a character constant holds at least one character, at most four here
    [] mode \in {"chr0", "chr", "chr2", "chr3"} ->
         /\ c # "\n" /\ c # "\t" /\ (c = "'" => mode # "chr0") /\ (mode = "chr3" => c = "'")
         /\ out' = Append(out, c)
         /\ mode' = (IF c = "'" THEN "code" ELSE CASE mode = "chr0" -> "chr" [] mode = "chr" -> "chr2" [] OTHER -> "chr3")
         /\ UNCHANGED <<sp, tok>>
Escapes == {"n", "\\", "\"", "'", "0", "?", "a"}
Bodies == {"str", "chr0", "chr", "chr2"}
Init == ph = "run" /\ src = <<>> /\ mode = "code" /\ out = <<>> /\ sp = FALSE /\ tok = "" /\ lines = 0
Char == /\ ph = "run" /\ Len(src) < MaxLen
        /\ \E c \in Pick(IF mode \in {"line"} THEN Chars \cup {"\n", "\""} ELSE IF mode \in {"block", "star"} THEN Chars \cup {"*", "/", "\\"} ELSE Chars) :
           Read(c) /\ src' = Append(src, c) /\ lines' = lines + (IF c = "\n" THEN 1 ELSE 0)
        /\ UNCHANGED ph
Escape == /\ ph = "run" /\ Len(src) < MaxLen /\ mode \in Bodies
          /\ \E e \in Pick(Escapes) : src' = src \o <<"\\", e>> /\ out' = out \o <<"\\", e>>
          /\ mode' = (CASE mode = "str" -> "str" [] mode = "chr0" -> "chr" [] mode = "chr" -> "chr2" [] OTHER -> "chr3")
          /\ UNCHANGED <<ph, sp, tok, lines>>
\* in the comment modes a backslash is like any other character
Splice == /\ ph = "run" /\ Len(src) < MaxLen /\ (\E g \in Pick({1, 2, 3}) : g = 1)
          /\ src' = src \o <<"\\", "\n">> /\ lines' = lines + 1 /\ UNCHANGED <<ph, mode, out, sp, tok>>
(* back to mode code by the shortest way *)
Close == /\ ph = "run" /\ Len(src) >= MinLen
         /\ LET t == CASE mode = "code" -> <<>> [] mode = "slash" -> <<"+">> [] mode = "line" -> <<"\n">> [] mode = "block" -> <<"*", "/">> [] mode = "star" -> <<"/">>
                       [] mode = "str" -> <<"\"">> [] mode = "chr0" -> <<"a", "'">> [] OTHER -> <<"'">>
            IN /\ src' = src \o t
               /\ out' = CASE mode = "slash" -> (IF sp /\ out # <<>> THEN out \o <<" ", "/", "+">> ELSE out \o <<"/", "+">>) [] mode = "str" \/ mode \in {"chr0", "chr", "chr2", "chr3"} -> out \o t [] OTHER -> out
               /\ lines' = lines + (IF mode = "line" THEN 1 ELSE 0)
         /\ mode' = "code" /\ ph' = "emit" /\ UNCHANGED <<sp, tok>>
Done == ph = "emit" /\ ph' = "done" /\ UNCHANGED <<src, mode, out, sp, tok, lines>>
Next == Char \/ Escape \/ Splice \/ Close \/ Done
Spec == Init /\ [][Next]_vars
(* outside literals no two spaces follow one another *)
Collapsed == mode \in {"code", "slash", "line", "block", "star"} /\ Len(out) > 0 => out[1] # " "
Emit == ph = "emit" => PrintT(ToJson([s |-> src, o |-> out, n |-> lines]))
=============================================================================
