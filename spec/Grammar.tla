------------------------------ MODULE Grammar -------------------------------
(* The schema language, as an automaton over characters which builds the     *)
(* declarations. The language has no nesting, so that a fixed set of modes   *)
(* is enough; every mode says which characters may come next.                *)
(*                                                                           *)
(*   schema   comment, export and declaration in any order and number        *)
(*   export   "export" name                                                  *)
(*   decl     ident ":" "enum" "{" variant* "}"                              *)
(*          | ident ":" "struct" "{" (field | comment)* "}"                  *)
(*   variant  ident ","?                                                     *)
(*   field    ident "?"? ":" name "[]"? ","?                                 *)
(*   comment  "#" up to the end of the line                                  *)
(*                                                                           *)
(* Blanks and tabs may stand between any two tokens except before "[]" and   *)
(* after "?"; line ends also between declarations, fields and variants.      *)
EXTENDS Schema, SequencesExt

Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
          "n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M",
          "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digit == {"0","1","2","3","4","5","6","7","8","9"}
IdStart == Lower \cup Upper \cup {"_"}
IdChar  == IdStart \cup Digit
Blank   == {" ", "\t"}
White   == Blank \cup {"\n", "\r"}

(* m     mode                                                                *)
(* pos   number of characters read                                           *)
(* from  where the current word starts                                       *)
(* w     the word read so far                                                *)
(* name  the declaration being read, kw its kind, items its members so far   *)
(* fld   name of the field being read, opt whether it was marked optional    *)
(* ast   the complete declarations                                           *)
(* lo    when dead: the earliest position which may be blamed                *)
Start == [m |-> "top", pos |-> 0, from |-> 0, w |-> "", name |-> "", kw |-> "",
          items |-> <<>>, fld |-> "", opt |-> FALSE, ast |-> <<>>, lo |-> 0]

Die(s, lo) == [s EXCEPT !.m = "dead", !.lo = lo]
Word(s, m, c) == [s EXCEPT !.m = m, !.w = c, !.from = s.pos]
Go(s, m) == [s EXCEPT !.m = m]

TopChar(s, c) ==
  CASE c \in White   -> Go(s, "top")
    [] c = "#"       -> Go(s, "tcomment")
    [] c \in IdStart -> Word(s, "tword", c)
    [] OTHER         -> Die(s, s.pos)

Export(s, n) == [s EXCEPT !.ast = Append(@, [n |-> "export", name |-> n]), !.w = ""]

(* The name of a declaration is complete and c follows.                      *)
AfterName(s, c) ==
  LET t == [s EXCEPT !.name = s.w, !.w = ""]
  IN  CASE c \in Blank -> Go(t, "name")
        [] c = ":"     -> Go(t, "colon")
        [] OTHER       -> Die(s, s.from)

IsPrefix2(w, k) == Len(w) <= Len(k) /\ SubSeq(k, 1, Len(w)) = w

Keyword(s, c) ==
  LET w == s.w \o c
  IN  IF IsPrefix2(w, "enum") \/ IsPrefix2(w, "struct") THEN [s EXCEPT !.w = w, !.m = "kw"]
      ELSE Die(s, s.from)

OpenBody(s, kind) == [s EXCEPT !.m = IF kind = "enum" THEN "e0" ELSE "s0",
                              !.kw = kind, !.w = "", !.items = <<>>]

Close(s) ==
  [s EXCEPT !.m = "top", !.items = <<>>, !.name = "", !.kw = "",
     !.ast = Append(@, IF s.kw = "enum"
                       THEN [n |-> "enum", name |-> s.name, variants |-> s.items]
                       ELSE [n |-> "struct", name |-> s.name, fields |-> s.items])]

EnumChar(s, c, comma) ==
  CASE c \in White        -> s
    [] c = "," /\ comma   -> Go(s, "e0")
    [] c = "}"            -> Close(s)
    [] c \in IdStart      -> Word(s, "evar", c)
    [] OTHER              -> Die(s, s.pos)

StructChar(s, c, comma) ==
  CASE c \in White        -> s
    [] c = "," /\ comma   -> Go(s, "s0")
    [] c = "}"            -> Close(s)
    [] c = "#"            -> Go(s, "scomment")
    [] c \in IdStart      -> Word(s, "fname", c)
    [] OTHER              -> Die(s, s.pos)

AfterField(s, c) ==
  CASE c \in Blank -> Go(s, "fblank")
    [] c = "?"     -> [s EXCEPT !.m = "fopt", !.opt = TRUE]
    [] c = ":"     -> [s EXCEPT !.m = "ftype0", !.w = ""]
    [] OTHER       -> Die(s, IF s.m = "fname" THEN s.from ELSE s.pos)

AddField(s, arr) ==
  [s EXCEPT !.m = "s1", !.w = "", !.fld = "", !.opt = FALSE,
     !.items = Append(@, [name |-> s.fld, ty |-> s.w, arr |-> arr, opt |-> s.opt])]

(* The type of a field is complete (it may be empty) and c follows.          *)
AfterType(s, c) ==
  IF c = "[" THEN Go(s, "bracket")
  ELSE LET t == StructChar(AddField(s, FALSE), c, TRUE)
       IN  IF t.m = "dead" THEN Die(t, IF s.m = "ftype" THEN s.from ELSE s.pos) ELSE t

Char(s, c) ==
  CASE s.m = "dead"     -> s
    [] s.m = "top"      -> TopChar(s, c)
    [] s.m = "tcomment" -> IF c = "\n" THEN Go(s, "top") ELSE s
    [] s.m = "tword"    ->
         IF c \in IdChar THEN [s EXCEPT !.w = @ \o c]
         ELSE IF s.w = "export"
              THEN IF c \in Blank THEN Go([s EXCEPT !.w = ""], "exp")
                   ELSE TopChar(Export(s, ""), c)
         ELSE IF s.w \in Reserved THEN Die(s, s.from)
         ELSE AfterName(s, c)
    [] s.m = "exp"      ->
         IF c \in Blank THEN s
         ELSE IF c \in IdChar THEN Word(s, "expname", c)
         ELSE TopChar(Export(s, ""), c)
    [] s.m = "expname"  ->
         IF c \in IdChar THEN [s EXCEPT !.w = @ \o c]
         ELSE LET t == TopChar(Export(s, s.w), c)
              IN  IF t.m = "dead" THEN Die(t, s.from) ELSE t
    [] s.m = "name"     ->
         CASE c \in Blank -> s
           [] c = ":"     -> Go(s, "colon")
           [] OTHER       -> Die(s, s.pos)
    [] s.m = "colon"    ->
         IF c \in Blank THEN s ELSE Keyword([s EXCEPT !.w = "", !.from = s.pos], c)
    [] s.m = "kw"       ->
         CASE c \in Blank /\ s.w \in {"enum", "struct"} -> Go(s, "kwend")
           [] c = "{" /\ s.w \in {"enum", "struct"}     -> OpenBody(s, s.w)
           [] c \notin Blank \cup {"{"}                 -> Keyword(s, c)
           [] OTHER                                     -> Die(s, s.from)
    [] s.m = "kwend"    ->
         CASE c \in Blank -> s
           [] c = "{"     -> OpenBody(s, s.w)
           [] OTHER       -> Die(s, s.pos)
    [] s.m = "e0"       -> EnumChar(s, c, FALSE)
    [] s.m = "e1"       -> EnumChar(s, c, TRUE)
    [] s.m = "evar"     ->
         IF c \in IdChar THEN [s EXCEPT !.w = @ \o c]
         ELSE IF s.w \in Reserved THEN Die(s, s.from)
         ELSE LET t == EnumChar([s EXCEPT !.m = "e1", !.items = Append(@, s.w), !.w = ""], c, TRUE)
              IN  IF t.m = "dead" THEN Die(t, s.from) ELSE t
    [] s.m = "s0"       -> StructChar(s, c, FALSE)
    [] s.m = "s1"       -> StructChar(s, c, TRUE)
    [] s.m = "scomment" -> IF c = "\n" THEN Go(s, "s0") ELSE s
    [] s.m = "fname"    ->
         IF c \in IdChar THEN [s EXCEPT !.w = @ \o c]
         ELSE IF s.w \in Reserved THEN Die(s, s.from)
         ELSE LET t == AfterField([s EXCEPT !.fld = s.w, !.opt = FALSE], c)
              IN  IF t.m = "dead" THEN t ELSE [t EXCEPT !.w = ""]
    [] s.m = "fblank"   -> AfterField(s, c)
    [] s.m = "fopt"     -> IF c = ":" THEN Go(s, "ftype0") ELSE Die(s, s.pos)
    [] s.m = "ftype0"   ->
         CASE c \in Blank  -> s
           [] c \in IdChar -> Word(s, "ftype", c)
           [] OTHER        -> AfterType(s, c)
    [] s.m = "ftype"    ->
         IF c \in IdChar THEN [s EXCEPT !.w = @ \o c] ELSE AfterType(s, c)
    [] s.m = "bracket"  ->
         IF c = "]" THEN AddField(s, TRUE) ELSE Die(s, s.pos - 1)

(* Reading one character. A dead state keeps the position it died at.        *)
Step(s, c) ==
  IF s.m = "dead" THEN s
  ELSE LET t == Char(s, c) IN IF t.m = "dead" THEN t ELSE [t EXCEPT !.pos = @ + 1]

(* The end of the text. The result is in mode "accept" or "dead".            *)
End(s) ==
  CASE s.m = "dead"                         -> s
    [] s.m \in {"top", "tcomment"}          -> Go(s, "accept")
    [] s.m = "exp"                          -> Go(Export(s, ""), "accept")
    [] s.m = "expname"                      -> Go(Export(s, s.w), "accept")
    [] s.m = "tword" /\ s.w = "export"      -> Go(Export(s, ""), "accept")
    [] s.m = "bracket"                      -> Die(s, s.pos - 1)
    [] s.m \in {"kw", "tword", "evar", "fname", "ftype"} /\ s.w # "" /\ ~(s.m = "tword" /\ s.w = "export")
                                            -> Die(s, s.from)
    [] OTHER                                -> Die(s, s.pos)

Run(chars) == FoldLeft(Step, Start, chars)
Parse(chars) == End(Run(chars))

InLanguage(chars) == Parse(chars).m = "accept"

(* --- helpers to state properties of the language ------------------------ *)

Chars(str) == [i \in 1..Len(str) |-> SubSeq(str, i, i)]
Feed(s, str) == FoldLeft(Step, s, Chars(str))

(* A text which completes whatever was read so far to a schema.              *)
Completion(s) ==
  CASE s.m \in {"top", "tcomment", "exp", "expname"} -> ""
    [] s.m = "tword" /\ s.w = "export" -> ""
    [] s.m = "tword"    -> "z:enum{}"
    [] s.m = "name"     -> ":enum{}"
    [] s.m = "colon"    -> "enum{}"
    [] s.m = "kw"       -> (IF IsPrefix2(s.w, "enum") THEN SubSeq("enum", Len(s.w) + 1, 4)
                            ELSE SubSeq("struct", Len(s.w) + 1, 6)) \o "{}"
    [] s.m = "kwend"    -> "{}"
    [] s.m \in {"e0", "e1", "s0", "s1"} -> "}"
    [] s.m = "evar"     -> "z}"
    [] s.m = "scomment" -> "\n}"
    [] s.m = "fname"    -> "z:}"
    [] s.m = "fblank"   -> ":}"
    [] s.m = "fopt"     -> ":}"
    [] s.m \in {"ftype0", "ftype"} -> "}"
    [] s.m = "bracket"  -> "]}"

FieldText(f) == f.name \o (IF f.opt THEN "?" ELSE "") \o ":" \o f.ty \o (IF f.arr THEN "[]" ELSE "")
Join(parts, sep) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o sep \o b, "", parts)
NodeText(d) ==
  CASE d.n = "export" -> "export " \o d.name
    [] d.n = "enum"   -> d.name \o ":enum{" \o Join(d.variants, ",") \o "}"
    [] d.n = "struct" -> d.name \o ":struct{"
                            \o Join([i \in DOMAIN d.fields |-> FieldText(d.fields[i])], ",") \o "}"
Text(ast) == Join([i \in DOMAIN ast |-> NodeText(ast[i])], "\n")
=============================================================================
