------------------------------- MODULE GenWire ------------------------------
(* Writes the schemas and values of MCWire to a file, so that exactly what   *)
(* was model checked is also encoded and decoded by generated code.          *)
EXTENDS MCWire, Json, IOUtils, SequencesExt

Num(s) == CHOOSE n \in 0..100000 : ToString(n) = s
Written ==
  LET all == SetToSeq(TheSchemas)
      st  == Num(IOEnv.STRIDE)
      ph  == Num(IOEnv.PHASE)
      n   == (Len(all) + st - 1 - ph) \div st
      pick(k) == all[(k - 1) * st + ph + 1]
  IN  ndJsonSerialize(IOEnv.OUT, [k \in 1..n |->
         [ast |-> pick(k), vals |-> SetToSeq(Vals(Env(pick(k)), "T", 0))]])

ASSUME Written
GenInit == ast = <<>> /\ val = <<>> /\ phase = "generated" /\ enc = <<>> /\ bytes = <<>> /\ sent = <<>>
           /\ dec = <<>> /\ at = 0 /\ fault = "" /\ answer = <<>>
GenNext == UNCHANGED vars
=============================================================================
