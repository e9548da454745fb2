----------------------------- MODULE GenSchemas -----------------------------
(* Writes the schemas of the bounded families of MCChecker to a file, so     *)
(* that exactly the schemas which were model checked are also compiled.      *)
EXTENDS MCChecker, Json, IOUtils

EnvFamily == IOEnv.FAMILY

(* Every Stride-th schema of the family, starting with the Phase-th.         *)
Num(s) == CHOOSE n \in 0..100000 : ToString(n) = s
Written ==
  LET all == SetToSeq(TheSchemas)
      st  == Num(IOEnv.STRIDE)
      ph  == Num(IOEnv.PHASE)
      n   == (Len(all) + st - 1 - ph) \div st
  IN  ndJsonSerialize(IOEnv.OUT, [k \in 1..n |-> [ast |-> all[(k - 1) * st + ph + 1]]])

ASSUME Written
GenInit == phase = "generated" /\ ast = <<>> /\ pos = 0 /\ cache = <<>> /\ open = {} /\ todo = {}
           /\ visited = {} /\ stack = <<>> /\ result = NoError
GenNext == UNCHANGED vars
=============================================================================
