---------------------------- MODULE TraceSession ----------------------------
(* Judges compilations which ran one after another and side by side in one   *)
(* process (C16). A record is [id, texts, events] with                       *)
(*   texts  <<[parsed, ast, alone]>>, parsed saying whether the text is one  *)
(*          of the language, ast what it declares then and alone the outcome *)
(*          [r, kind, sum, lines] of a process which compiled nothing else   *)
(*   events [e |-> "start", th, i] or [e |-> "end", th, i, out], in the      *)
(*          order in which they happened; th is a thread, i a text           *)
(* An outcome depends on the text alone, except that of several defects any  *)
(* one may be reported.                                                      *)
EXTENDS Schema, Trace

VARIABLES t, k, busy, good
vars == <<t, k, busy, good>>
Init == t = 1 /\ k = 1 /\ busy = <<>> /\ good = 0

Tr == Log[t]
Ev == Tr.events[k]
More == t <= Len(Log) /\ k <= Len(Tr.events)
Reject(why) == /\ Report(Tr, "event " \o ToString(k) \o ": " \o why)
               /\ t' = t + 1 /\ k' = 1 /\ busy' = <<>> /\ good' = good

Running(th) == {j \in DOMAIN busy : busy[j].th = th}

Start == /\ More /\ Ev.e = "start"
         /\ IF Running(Ev.th) # {} THEN Reject("a thread started twice")
            ELSE /\ busy' = Append(busy, [th |-> Ev.th, i |-> Ev.i])
                 /\ k' = k + 1 /\ UNCHANGED <<t, good>>

(* Whether an outcome is that of a text.                                     *)
Why(x, out) ==
  IF out.r # x.alone.r \/ out.kind # x.alone.kind
  THEN "ended with " \o out.r \o " " \o out.kind \o " " \o ToString(out.lines) \o ", alone with "
         \o x.alone.r \o " " \o x.alone.kind \o " " \o ToString(x.alone.lines)
  ELSE IF out.sum # x.alone.sum THEN "other code than the text alone gives"
  ELSE IF out.lines = x.alone.lines THEN ""
  ELSE IF /\ x.parsed
          /\ Rng(out.lines) \ {"One or more type errors:"} # {}
          /\ Rng(out.lines) \ {"One or more type errors:"} \subseteq Messages(x.ast) THEN ""
  ELSE "reported " \o ToString(out.lines) \o ", alone " \o ToString(x.alone.lines)

End == /\ More /\ Ev.e = "end"
       /\ LET S == {j \in Running(Ev.th) : busy[j].i = Ev.i}
              w == Why(Tr.texts[Ev.i], Ev.out)
          IN  IF S = {} THEN Reject("an end without a start")
              ELSE IF w # "" THEN Reject("text " \o ToString(Ev.i) \o " " \o w)
              ELSE /\ busy' = SelectSeq(busy, LAMBDA b : b.th # Ev.th)
                   /\ k' = k + 1 /\ UNCHANGED <<t, good>>

Passed == /\ t <= Len(Log) /\ k > Len(Tr.events)
          /\ IF busy # <<>> THEN Reject("never ended")
             ELSE t' = t + 1 /\ k' = 1 /\ busy' = <<>> /\ good' = good + 1
Finish == /\ t = Len(Log) + 1 /\ Summary(good) /\ t' = t + 1 /\ UNCHANGED <<k, busy, good>>
Next == Start \/ End \/ Passed \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
