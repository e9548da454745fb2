----------------------------- MODULE TraceDecls -----------------------------
(* Judges what generated modules declare (C10). A record is [id, ast, m].    *)
EXTENDS Decls, Trace

VARIABLES i, good
Init == i = 1 /\ good = 0
Judge == /\ i <= Len(Log) /\ i' = i + 1
         /\ LET w == DeclWhy(Log[i].ast, Log[i].m)
            IN  IF w = "" THEN good' = good + 1 ELSE good' = good /\ Report(Log[i], w)
Finish == i = Len(Log) + 1 /\ i' = i + 1 /\ good' = good /\ Summary(good)
Next == Judge \/ Finish
Spec == Init /\ [][Next]_<<i, good>>
=============================================================================
