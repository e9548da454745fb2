---------------------------- MODULE TraceResolve ----------------------------
(* Judges what the type checker resolved well-formed schemas to (C18). A     *)
(* record is [id, ast, outs], outs being the distinct outcomes of repeated   *)
(* runs: graphs with r = "ok" or [r |-> "err"].                              *)
EXTENDS Resolve, Trace

Why(rec) ==
  IF ~Valid(rec.ast) THEN ""      \* verdicts are the subject of C04
  ELSE LET graphs == {k \in DOMAIN rec.outs : rec.outs[k].r = "ok"}
           wrong == {k \in graphs : ResolveWhy(rec.ast, rec.outs[k]) # ""}
       IN  IF \E k \in DOMAIN rec.outs : rec.outs[k].r \notin {"ok", "err", "noparse"} THEN "no answer"
           ELSE IF wrong = {} THEN "" ELSE ResolveWhy(rec.ast, rec.outs[CHOOSE k \in wrong : TRUE])

VARIABLES i, good
Init == i = 1 /\ good = 0
Judge == /\ i <= Len(Log) /\ i' = i + 1
         /\ LET w == Why(Log[i])
            IN  IF w = "" THEN good' = good + 1 ELSE good' = good /\ Report(Log[i], w)
Finish == i = Len(Log) + 1 /\ i' = i + 1 /\ good' = good /\ Summary(good)
Next == Judge \/ Finish
Spec == Init /\ [][Next]_<<i, good>>
=============================================================================
