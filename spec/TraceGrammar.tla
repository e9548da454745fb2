--------------------------- MODULE TraceGrammar -----------------------------
(* Judges what the parser and the compiler made of arbitrary texts.          *)
(* A record is                                                               *)
(*   chars   the text, one string per character                              *)
(*   want    declarations the text was rendered from (for texts which were), *)
(*           a check of this specification, not of the code                  *)
(*   parse   [r, ast]: answer of the parser                                  *)
(*   out     [r, kind, tok, line, col, shown, marks, form]: answer of the    *)
(*           compiler; for syntax errors the pieces of the message           *)
EXTENDS Grammar, Trace

Count(seq, x, k) == Cardinality({j \in 1..k : seq[j] = x})
LastNl(chars, p) ==   \* number of characters up to the last line end before p
  LET S == {j \in 1..p : chars[j] = "\n"}
  IN  IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in (j + 1)..p : chars[k] # "\n"
NextNl(chars, p) ==
  LET S == {j \in (p + 1)..Len(chars) : chars[j] = "\n"}
  IN  IF S = {} THEN Len(chars) + 1 ELSE CHOOSE j \in S : \A k \in S : j <= k

(* a line may be shown with or without its carriage return, and one with     *)
(* nothing in it in any way                                                  *)
Shown(line) ==
  {line} \cup (IF line # <<>> /\ line[Len(line)] = "\r" THEN {SubSeq(line, 1, Len(line) - 1)} ELSE {})
         \cup (IF line = <<>> THEN {<<"<0>">>} ELSE {})

(* C07 *)
FidelityWhy(rec, e) ==
  IF rec.hasWant /\ (e.m # "accept" \/ e.ast # rec.want)
  THEN "SPECIFICATION disagrees with the generator: " \o ToString(e.ast)
  ELSE IF e.m # "accept" THEN ""
  ELSE IF rec.parse.r # "ok" THEN "text of the language was refused (" \o rec.parse.r \o ")"
  ELSE IF rec.parse.ast # e.ast
       THEN "declares " \o ToString(e.ast) \o " but was parsed as " \o ToString(rec.parse.ast)
  ELSE IF rec.out.r = "err" /\ rec.out.kind = "parse" THEN "text of the language gave a syntax error"
  ELSE ""

(* C08 *)
ErrorWhy(rec, e) ==
  IF e.m # "dead" THEN ""
  ELSE IF ~(rec.out.r = "err" /\ rec.out.kind = "parse")
       THEN "text outside the language was not refused as such but: " \o rec.out.r \o " " \o rec.out.kind
  ELSE IF rec.parse.r = "ok" THEN "text outside the language was parsed"
  ELSE IF ~rec.out.form THEN "the syntax error has no position, line and marker"
  ELSE LET o == rec.out
           ok(p) == /\ o.line = 1 + Count(rec.chars, "\n", p)
                    /\ o.col = p - LastNl(rec.chars, p) + 1
           good == {p \in e.lo..e.pos : ok(p)}
       IN  IF good = {}
           THEN "the error is at character " \o ToString(e.lo) \o ".." \o ToString(e.pos)
                  \o " but was reported at line " \o ToString(o.line) \o " column " \o ToString(o.col)
           ELSE LET p == CHOOSE x \in good : TRUE
                    line == SubSeq(rec.chars, LastNl(rec.chars, p) + 1, NextNl(rec.chars, p) - 1)
                IN  IF p < Len(rec.chars) /\ o.tok # rec.chars[p + 1]
                    THEN "reported character " \o o.tok \o " instead of " \o rec.chars[p + 1]
                    ELSE IF o.shown \notin Shown(line) THEN "showed another line: " \o ToString(o.shown)
                    ELSE IF o.marks # o.col - 1 THEN "the marker is not under the column"
                    ELSE ""

(* C09 *)
AnswerWhy(rec, e) ==
  LET o == rec.out
  IN  IF rec.parse.r \notin {"ok", "err"} THEN "the parser did not answer: " \o rec.parse.r
      ELSE IF o.r \notin {"ok", "err"} THEN "no proper answer: " \o o.r
      ELSE IF o.r = "ok" /\ e.m = "dead" THEN "compiled a text outside the language"
      ELSE IF o.r = "err" /\ o.kind = "check" /\ e.m = "dead"
           THEN "a syntax error was reported as a schema error"
      ELSE IF o.r = "err" /\ o.kind = "parse" /\ e.m = "accept"
           THEN "a syntax error for a text of the language"
      ELSE ""

Why(rec) ==
  LET e == TLCEval(Parse(rec.chars))
  IN  CASE Prop = "C07" -> FidelityWhy(rec, e)
        [] Prop = "C08" -> ErrorWhy(rec, e)
        [] Prop = "C09" -> AnswerWhy(rec, e)

VARIABLES i, good, inside

Init == i = 1 /\ good = 0 /\ inside = 0

Judge == /\ i <= Len(Log)
         /\ i' = i + 1
         /\ LET w == Why(Log[i])
            IN  IF w = "" THEN good' = good + 1
                ELSE good' = good /\ Report(Log[i], w)
         /\ inside' = inside + (IF InLanguage(Log[i].chars) THEN 1 ELSE 0)

Finish == /\ i = Len(Log) + 1
          /\ i' = i + 1 /\ UNCHANGED <<good, inside>>
          /\ PrintT("INSIDE " \o ToString(inside))
          /\ Summary(good)

Next == Judge \/ Finish
Spec == Init /\ [][Next]_<<i, good, inside>>
=============================================================================
