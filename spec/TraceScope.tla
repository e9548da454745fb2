----------------------------- MODULE TraceScope -----------------------------
(* Judges generated modules as TypeScript (C11). A record is                 *)
(*   [id, diags, top, fns]                                                   *)
(* the diagnostics of the TypeScript compiler, the names declared at module  *)
(* level and, per method, what each block declares and uses (see Scope.tla), *)
(* which is followed one event at a time.                                    *)
EXTENDS Scope, Trace

Globals == {"undefined", "NaN", "Infinity", "Object", "Array", "ArrayBuffer", "Number", "String", "Boolean",
            "Math", "JSON", "Error", "TypeError", "RangeError", "Symbol", "Map", "Set", "DataView",
            "Uint8Array", "Reflect", "BigInt", "Date", "isNaN", "parseInt"}

VARIABLES t, f, k, s, good
vars == <<t, f, k, s, good>>

Init == t = 1 /\ f = 0 /\ k = 1 /\ s = ScopeStart({}) /\ good = 0

Start == ScopeStart(Globals \cup Rng(Log[t].top))
Rec == Log[t]

Reject(why) == /\ Report(Rec, why)
               /\ t' = t + 1 /\ f' = 0 /\ k' = 1 /\ s' = ScopeStart({}) /\ good' = good

Diagnostics == /\ t <= Len(Log) /\ f = 0
               /\ IF Rec.diags # <<>> THEN Reject("TypeScript says " \o Rec.diags[1])
                  ELSE f' = 1 /\ k' = 1 /\ s' = Start /\ UNCHANGED <<t, good>>

Event == /\ t <= Len(Log) /\ f > 0 /\ f <= Len(Rec.fns) /\ k <= Len(Rec.fns[f].events)
         /\ LET r == ScopeStep(s, Rec.fns[f].events[k])
            IN  IF r.why # "" THEN Reject(Rec.fns[f].name \o " " \o r.why)
                ELSE s' = r /\ k' = k + 1 /\ UNCHANGED <<t, f, good>>

Return == /\ t <= Len(Log) /\ f > 0 /\ f <= Len(Rec.fns) /\ k > Len(Rec.fns[f].events)
          /\ IF Len(s.stack) # 1 THEN Reject(Rec.fns[f].name \o " leaves a block open")
             ELSE f' = f + 1 /\ k' = 1 /\ s' = Start /\ UNCHANGED <<t, good>>

Passed == /\ t <= Len(Log) /\ f > Len(Rec.fns) /\ f > 0
          /\ t' = t + 1 /\ f' = 0 /\ k' = 1 /\ s' = ScopeStart({}) /\ good' = good + 1

Finish == /\ t = Len(Log) + 1 /\ Summary(good)
          /\ t' = t + 1 /\ UNCHANGED <<f, k, s, good>>

Next == Diagnostics \/ Event \/ Return \/ Passed \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
