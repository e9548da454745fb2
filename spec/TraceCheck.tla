---------------------------- MODULE TraceCheck ------------------------------
(* Judges what the compiler answered to schemas which parse.                 *)
(* A record is [id, ast, outs]: the declarations as written and the distinct *)
(* outcomes of repeated compilations, each [r, kind, lines] with             *)
(*   r     "ok", "err", or "panic", "abort", "hang"                          *)
(*   kind  "parse" or "check" for errors                                     *)
(*   lines the lines of the error message                                    *)
EXTENDS Schema, Trace

(* C04 *)
VerdictWhy(rec) ==
  LET valid == Valid(rec.ast)
      \* a syntax error is no verdict on the declarations (see C07)
      given == {o \in Rng(rec.outs) : ~(o.r = "err" /\ o.kind = "parse")}
      wrong == {o \in given : IF valid THEN o.r # "ok" ELSE o.r # "err"}
  IN  IF rec.outs = <<>> THEN "no outcome recorded"
      ELSE IF wrong = {} THEN ""
      ELSE LET o == CHOOSE x \in wrong : TRUE
           IN  IF valid THEN "a well-formed schema was refused: " \o ToString(o.lines)
               ELSE "an ill-formed schema was not refused (" \o o.r \o "); defects: "
                      \o ToString(Messages(rec.ast))

(* C05 *)
DiagnosisWhy(rec) ==
  LET errs  == {o \in Rng(rec.outs) : o.r = "err" /\ o.kind = "check"}
      msgs  == TLCEval(Messages(rec.ast))
      \* everything the message says below its heading is a defect
      said(o) == Rng(o.lines) \ {"One or more type errors:"}
      wrong == {o \in errs : said(o) = {} \/ ~(said(o) \subseteq msgs)}
  IN  IF wrong = {} THEN ""
      ELSE LET o == CHOOSE x \in wrong : TRUE
           IN  "reported " \o ToString(o.lines) \o " but the schema's defects are "
                 \o ToString(msgs)

(* C09 *)
AnswerWhy(rec) ==
  LET wrong == {o \in Rng(rec.outs) : o.r \notin {"ok", "err"}}
  IN  IF rec.outs = <<>> THEN "no outcome recorded"
      ELSE IF wrong = {} THEN ""
      ELSE "no proper answer: " \o ToString(CHOOSE x \in wrong : TRUE)

Why(rec) == CASE Prop = "C04" -> VerdictWhy(rec)
              [] Prop = "C05" -> DiagnosisWhy(rec)
              [] Prop = "C09" -> AnswerWhy(rec)

VARIABLES i, good

Init == i = 1 /\ good = 0

Judge == /\ i <= Len(Log)
         /\ i' = i + 1
         /\ LET w == Why(Log[i])
            IN  IF w = "" THEN good' = good + 1
                ELSE good' = good /\ Report(Log[i], w)

Finish == /\ i = Len(Log) + 1
          /\ i' = i + 1 /\ good' = good
          /\ Summary(good)

Next == Judge \/ Finish
Spec == Init /\ [][Next]_<<i, good>>
=============================================================================
