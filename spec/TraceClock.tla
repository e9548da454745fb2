----------------------------- MODULE TraceClock -----------------------------
(* Judges the first lines of generated modules (C21). A record is            *)
(* [id, version, runs], the runs being compilations one after another in one *)
(* process: [r, reads |-> <<[d, s], ...>>, line, heads] with the times the   *)
(* clock gave while it ran (or all the seconds it took, where the clock is   *)
(* the real one), the first line and the number of comments in the module.   *)
EXTENDS Clock, Trace

VARIABLES i, j, good
vars == <<i, j, good>>
Init == i = 1 /\ j = 1 /\ good = 0

Run == Log[i].runs[j]
Times == {Run.reads[k] : k \in DOMAIN Run.reads}
Why == IF Run.r # "ok" THEN "the schema is valid, but gave " \o Run.r
       ELSE IF Run.heads # 1 THEN ToString(Run.heads) \o " comments instead of one"
       ELSE IF \E t \in Times : Run.line \in Headers(Log[i].version, t) THEN ""
       ELSE "starts with '" \o Run.line \o "' instead of one of "
              \o ToString(UNION {Headers(Log[i].version, t) : t \in Times})

Compile == /\ i <= Len(Log) /\ j <= Len(Log[i].runs)
           /\ LET w == Why
              IN  IF w = "" THEN j' = j + 1 /\ UNCHANGED <<i, good>>
                  ELSE Report(Log[i], "run " \o ToString(j) \o ": " \o w) /\ i' = i + 1 /\ j' = 1 /\ good' = good
Passed == /\ i <= Len(Log) /\ j > Len(Log[i].runs) /\ i' = i + 1 /\ j' = 1 /\ good' = good + 1
Finish == i = Len(Log) + 1 /\ Summary(good) /\ i' = i + 1 /\ UNCHANGED <<j, good>>
Next == Compile \/ Passed \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
