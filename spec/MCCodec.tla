------------------------------- MODULE MCCodec ------------------------------
(* Codecs with objects and buffers in memory, referring to each other, below *)
(* the packets and buffers of Codec.tla. A packet has a number of its own    *)
(* and refers to an object with another one. Checked: after any sequence of  *)
(* operations, following the references gives what Codec.tla says. Fault     *)
(* selects codecs which break this, each of which must be found out.         *)
EXTENDS Codec

CONSTANTS MaxOps, Fault
Faults == {"none", "one item", "one buffer", "write clears", "lazy", "sticky"}
ASSUME Fault \in Faults

Packets == 1..3
Buffers == 1..2
Values  == {<<0, 0>>, <<0, 1>>, <<2, 1>>}
Bad     == <<9, 9>>
Enc(v)  == v
Dec(b)  == [ok |-> b # Bad, v |-> b]

Ops == {[op |-> "new", p |-> p, b |-> 0, v |-> v] : p \in Packets, v \in Values}
       \cup {[op |-> "set", p |-> p, b |-> 0, v |-> v] : p \in Packets, v \in Values}
       \cup {[op |-> "write", p |-> p, b |-> b, v |-> <<>>] : p \in Packets, b \in Buffers}
       \cup {[op |-> "read", p |-> p, b |-> b, v |-> <<>>] : p \in Packets, b \in Buffers}
       \cup {[op |-> "damage", p |-> 0, b |-> b, v |-> v] : b \in Buffers, v \in {<<0, 1>>, Bad}}
       \cup {[op |-> "trip", p |-> 0, b |-> 0, v |-> <<>>]}

VARIABLES
  pk, bf,   \* as in Codec.tla
  mem,      \* cells: an object [y] or the bytes [x, y] of a buffer
  obj,      \* packet -> [x, ref]
  arr,      \* buffer -> ref
  stuck,    \* what a sticky reader remembers
  ops
vars == <<pk, bf, mem, obj, arr, stuck, ops>>

Cells == 1..7
Blank == [x |-> 0, y |-> 0]
Item == 6      \* used again and again by "one item"
Back == 7      \* used again and again by "one buffer"

Init == /\ pk = Empty /\ bf = Empty
        /\ mem = [c \in Cells |-> Blank] /\ obj = Empty /\ arr = Empty
        /\ stuck = FALSE /\ ops = 0

InUse == {obj[p].ref : p \in DOMAIN obj} \cup {arr[b] : b \in DOMAIN arr}
(* a cell nobody refers to *)
Fresh == CHOOSE c \in Cells \ {Item, Back} : c \notin InUse
Room(o) == Cardinality(InUse \ {Item, Back}) < 5 \/ o.op \in {"set", "damage"}

New(o) == LET c == Fresh
          IN  /\ mem' = [mem EXCEPT ![c] = [x |-> 0, y |-> o.v[2]]]
              /\ obj' = Put(obj, o.p, [x |-> o.v[1], ref |-> c])
              /\ UNCHANGED <<arr, stuck>>

Set(o) == /\ mem' = [mem EXCEPT ![obj[o.p].ref].y = o.v[2]]
          /\ obj' = [obj EXCEPT ![o.p].x = o.v[1]]
          /\ UNCHANGED <<arr, stuck>>

Write(o) == LET c == IF Fault = "one buffer" THEN Back ELSE Fresh
                r == obj[o.p]
                bytes == [x |-> r.x, y |-> mem[r.ref].y]
            IN  /\ mem' = [mem EXCEPT ![c] = bytes]
                /\ arr' = Put(arr, o.b, c)
                /\ obj' = IF Fault = "write clears" THEN [obj EXCEPT ![o.p].x = 0] ELSE obj
                /\ UNCHANGED stuck

Read(o) == LET bytes == mem[arr[o.b]]
               c == IF Fault = "one item" THEN Item ELSE IF Fault = "lazy" THEN arr[o.b] ELSE Fresh
               bad == bytes.x = 9 \/ stuck
           IN  /\ IF bad THEN obj' = Without(obj, o.p) /\ mem' = mem
                  ELSE /\ obj' = Put(obj, o.p, [x |-> bytes.x, ref |-> c])
                       /\ mem' = IF c = arr[o.b] THEN mem ELSE [mem EXCEPT ![c] = [x |-> 0, y |-> bytes.y]]
               /\ stuck' = (Fault = "sticky" /\ bad)
               /\ UNCHANGED arr

Damage(o) == /\ mem' = [mem EXCEPT ![arr[o.b]] = [x |-> o.v[1], y |-> o.v[2]]]
             /\ UNCHANGED <<obj, arr, stuck>>

Do(o) == /\ ops < MaxOps /\ Possible(pk, bf, o) /\ Room(o)
         /\ CASE o.op = "new"    -> New(o)
              [] o.op = "set"    -> o.p \in DOMAIN obj /\ Set(o)
              [] o.op = "write"  -> o.p \in DOMAIN obj /\ Write(o)
              [] o.op = "read"   -> Read(o)
              [] o.op = "damage" -> Damage(o)
              [] o.op = "trip"   -> UNCHANGED <<obj, arr, mem, stuck>>
         /\ pk' = PacketsAfter(pk, bf, o, Dec) /\ bf' = BuffersAfter(pk, bf, o, Enc)
         /\ ops' = ops + 1

Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

(* What a program sees when it follows the references.                       *)
Agree == /\ DOMAIN obj = DOMAIN pk /\ DOMAIN arr = DOMAIN bf
         /\ \A p \in DOMAIN pk : pk[p] = <<obj[p].x, mem[obj[p].ref].y>>
         /\ \A b \in DOMAIN bf : bf[b] = <<mem[arr[b]].x, mem[arr[b]].y>>
(* Nothing is referred to twice.                                             *)
Separate == /\ \A p, q \in DOMAIN obj : p # q => obj[p].ref # obj[q].ref
            /\ \A b, d \in DOMAIN arr : b # d => arr[b] # arr[d]
            /\ \A p \in DOMAIN obj, b \in DOMAIN arr : obj[p].ref # arr[b]
=============================================================================
