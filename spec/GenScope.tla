------------------------------ MODULE GenScope ------------------------------
(* Writes out the schemas of MCScope on which naming variables after their   *)
(* path alone gives two of a method the same name (in the same block, where  *)
(* it is an error, or in different ones, where one may hide the other).      *)
EXTENDS MCScope

EnvFamily == IOEnv.FAMILY
NumOf(t) == CHOOSE n \in 0..100000 : ToString(n) = t
Lets(evs_) == SelectSeq(evs_, LAMBDA e : e.e = "let")
Twins(evs_) == Dups([i \in DOMAIN Lets(evs_) |-> Lets(evs_)[i].x]) # {}
Written ==
  LET all == SetToSeq(TheSchemas(0))
      st  == NumOf(IOEnv.STRIDE)
      ph  == NumOf(IOEnv.PHASE)
      n   == (Len(all) + st - 1 - ph) \div st
      some == [k \in 1..n |-> all[(k - 1) * st + ph + 1]]
      hit == SelectSeq(some, LAMBDA a : Twins(ReadEvents(a, FALSE)) \/ Twins(WriteEvents(a, FALSE)))
  IN  /\ ndJsonSerialize(IOEnv.OUT, [k \in DOMAIN hit |-> [ast |-> hit[k]]])
      /\ PrintT("LOOKED AT " \o ToString(n) \o " COLLIDING " \o ToString(Len(hit)))

ASSUME Written
GenInit == ast = <<>> /\ fn = "" /\ evs = <<>> /\ pos = 0 /\ s = <<>>
GenNext == UNCHANGED vars
=============================================================================
