----------------------------- MODULE TraceSame ------------------------------
(* Judges whether the same schema gives the same result (C06). A record is   *)
(* [id, runs], runs being compilations in the order in which they happened:  *)
(*   [ast, outs |-> <<[r, kind, sum], ...>>]                                 *)
(* a schema and the distinct outcomes of compiling it several times, sum     *)
(* standing for the generated code without the leading comment. The runs of  *)
(* a record may be reorderings or extensions of one another, which is for    *)
(* the specification to find out: it remembers what each exported type and   *)
(* everything it uses was compiled to.                                       *)
EXTENDS Schema, Trace

(* All that may influence the generated code of a well-formed schema.        *)
Core(ast) == LET env == TLCEval(Env(ast))
                 e == ExportName(ast)
             IN  [export |-> e, types |-> [x \in {e} \cup Used(ast) |-> env[x]]]

(* The declarations of an ill-formed one, in any order.                      *)
Bag(ast) == LET S == Rng(ast) IN [d \in S |-> Cardinality({i \in DOMAIN ast : ast[i] = d})]

VARIABLES i, j, seen, good
vars == <<i, j, seen, good>>
Init == i = 1 /\ j = 1 /\ seen = <<>> /\ good = 0

Run == Log[i].runs[j]
Key(ast) == IF Valid(ast) THEN [core |-> Core(ast)] ELSE [bag |-> Bag(ast)]
Seen(key) == {k \in DOMAIN seen : seen[k].key = key}

Reject(why) == /\ Report(Log[i], "run " \o ToString(j) \o ": " \o why)
               /\ i' = i + 1 /\ j' = 1 /\ seen' = <<>> /\ good' = good

(* One schema was compiled, several times: the outcomes must agree with one  *)
(* another and with those of every equivalent schema before.                 *)
Compile ==
  /\ i <= Len(Log) /\ j <= Len(Log[i].runs)
  /\ LET outs == Rng(Run.outs)
         verdicts == {o.r \o o.kind : o \in outs}
         sums == {o.sum : o \in {x \in outs : x.r = "ok"}}
         key == TLCEval(Key(Run.ast))
         old == Seen(key)
     IN  IF Cardinality(verdicts) # 1 THEN Reject("different verdicts: " \o ToString(verdicts))
         ELSE IF Cardinality(sums) > 1 THEN Reject("different code from one schema")
         ELSE IF \E k \in old : seen[k].verdicts # verdicts
         THEN Reject("another verdict than for an equivalent schema: " \o ToString(verdicts))
         ELSE IF \E k \in old : seen[k].sums # sums
         THEN Reject("other code than for an equivalent schema")
         ELSE /\ seen' = IF old # {} THEN seen
                         ELSE Append(seen, [key |-> key, verdicts |-> verdicts, sums |-> sums])
              /\ j' = j + 1 /\ UNCHANGED <<i, good>>

Passed == /\ i <= Len(Log) /\ j > Len(Log[i].runs)
          /\ i' = i + 1 /\ j' = 1 /\ seen' = <<>> /\ good' = good + 1
Finish == /\ i = Len(Log) + 1 /\ Summary(good) /\ i' = i + 1 /\ UNCHANGED <<j, seen, good>>

Next == Compile \/ Passed \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
