------------------------------ MODULE GenCodec ------------------------------
(* Writes out sequences of operations: all of a length which are possible    *)
(* after a packet was made, encoded and decoded again. Values are 1 and 2.   *)
EXTENDS Codec, Json, IOUtils, SequencesExt

Num(t) == CHOOSE n \in 0..100000 : ToString(n) = t
Op(o, p, b, v) == [op |-> o, p |-> p, b |-> b, v |-> v]
Ops == {Op("new", p, 0, v) : p \in {1, 3}, v \in {1, 2}} \cup {Op("set", p, 0, v) : p \in 1..3, v \in {1, 2}}
       \cup {Op("write", p, b, 0) : p \in 1..3, b \in 1..2} \cup {Op("read", p, b, 0) : p \in 2..3, b \in 1..2}
       \cup {Op("damage", 0, b, 0) : b \in 1..2} \cup {Op("trip", 0, 0, 0)}

Start == <<Op("new", 1, 0, 1), Op("write", 1, 1, 0), Op("read", 2, 1, 0)>>
(* what exists then *)
Packets(h) == {h[i].p : i \in {j \in DOMAIN h : h[j].op \in {"new", "read"}}}
Buffers(h) == {h[i].b : i \in {j \in DOMAIN h : h[j].op = "write"}}
Can(h, o) == /\ o.op \in {"write", "set"} => o.p \in Packets(h)
             /\ o.op \in {"read", "damage"} => o.b \in Buffers(h)

RECURSIVE Longer(_, _)
Longer(S, n) == IF n = 0 THEN S
                ELSE Longer(UNION {{Append(h, o) : o \in {x \in Ops : Can(h, x)}} : h \in S}, n - 1)

Written ==
  LET all == SetToSeq(Longer({Start}, Num(IOEnv.MORE)))
      st == Num(IOEnv.STRIDE)
      ph == Num(IOEnv.PHASE)
      n  == (Len(all) + st - 1 - ph) \div st
  IN  ndJsonSerialize(IOEnv.OUT, [k \in 1..n |-> [ops |-> all[(k - 1) * st + ph + 1]]])

ASSUME Written
VARIABLE x
GenInit == x = 0
GenNext == UNCHANGED x
=============================================================================
