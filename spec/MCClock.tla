------------------------------ MODULE MCClock -------------------------------
(* The calendar as a machine which goes from one day to the next, and        *)
(* compilations while it does. Checked: the date computed from the number of *)
(* the day is that of the machine, and what a module says about its time is  *)
(* a moment of its own compilation. The fault "once" takes the time of the   *)
(* first compilation for all, "load" that of the start of the program.       *)
EXTENDS Clock, FiniteSets

CONSTANTS Starts,    \* days to start at: <<day, year>>, a first of January
          Span,      \* days explored from there
          Fault      \* "none", "once" or "load"

VARIABLES day, cal, wd, from, pc, began, stamp, kept
vars == <<day, cal, wd, from, pc, began, stamp, kept>>
None == -1

(* a first of January is found by counting whole years *)
RECURSIVE YearDay(_)
YearDay(y) == IF y = 1970 THEN 0 ELSE YearDay(y - 1) + (IF Leap(y - 1) THEN 366 ELSE 365)

Init == /\ \E y \in Starts : /\ day = YearDay(y) /\ cal = [y |-> y, m |-> 1, d |-> 1]
                             /\ wd = (YearDay(y) + 4) % 7
        /\ from = day /\ pc = "idle" /\ began = None /\ stamp = None
        /\ kept = (IF Fault = "load" THEN day ELSE None)

Tick == /\ day < from + Span
        /\ pc = "idle" \/ day < began + 2
        /\ day' = day + 1 /\ wd' = (wd + 1) % 7
        /\ cal' = (IF cal.d < MonthDays(cal.y, cal.m) THEN [cal EXCEPT !.d = @ + 1]
                   ELSE IF cal.m < 12 THEN [y |-> cal.y, m |-> cal.m + 1, d |-> 1]
                   ELSE [y |-> cal.y + 1, m |-> 1, d |-> 1])
        /\ UNCHANGED <<from, pc, began, stamp, kept>>
Start == /\ pc = "idle" /\ pc' = "on" /\ began' = day /\ stamp' = None
         /\ UNCHANGED <<day, cal, wd, from, kept>>
Look == /\ pc = "on" /\ pc' = "done"
        /\ stamp' = (IF Fault # "none" /\ kept # None THEN kept ELSE day)
        /\ kept' = (IF Fault = "once" /\ kept = None THEN day ELSE kept)
        /\ UNCHANGED <<day, cal, wd, from, began>>
End == /\ pc = "done" /\ pc' = "idle" /\ began' = None /\ stamp' = None
       /\ UNCHANGED <<day, cal, wd, from, kept>>
Next == Tick \/ Start \/ Look \/ End
Spec == Init /\ [][Next]_vars

DateExact == Civil(day) = cal /\ WeekDay(day) = wd
Fresh == pc = "done" => began <= stamp /\ stamp <= day
(* no two days are written alike *)
Distinct == Stamps([d |-> day, s |-> 0]) \cap Stamps([d |-> day + 1, s |-> 0]) = {}
=============================================================================
