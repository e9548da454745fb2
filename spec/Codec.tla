-------------------------------- MODULE Codec -------------------------------
(* Packets and buffers in the hands of a program which uses one generated    *)
(* class: it makes packets, encodes them, decodes buffers, and changes what  *)
(* it holds. A packet is its value and a buffer is its bytes; nothing else   *)
(* is remembered, so an operation changes only what it is applied to.        *)
(*                                                                           *)
(* An operation is a record with op and, as far as they apply, p (packet),   *)
(* b (buffer) and v (value or bytes):                                        *)
(*   new p v      a packet is made                                           *)
(*   write p b    p is encoded, b is what comes out                          *)
(*   read b p     b is decoded, p is what comes out, unless it is refused    *)
(*   set p v      the program changes p, in place, to v                      *)
(*   damage b v   the program changes b, in place, to v                      *)
(*   trip         an unfinished packet is encoded, which may fail            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> ""]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

Possible(pk, bf, o) == CASE o.op \in {"write", "set"}   -> o.p \in DOMAIN pk
                         [] o.op \in {"read", "damage"} -> o.b \in DOMAIN bf
                         [] OTHER                       -> TRUE

(* The packets afterwards; Dec is the decoder as a function of the bytes,    *)
(* giving [ok, v].                                                           *)
PacketsAfter(pk, bf, o, Dec(_)) ==
  CASE o.op \in {"new", "set"} -> Put(pk, o.p, o.v)
    [] o.op = "read"           -> IF Dec(bf[o.b]).ok THEN Put(pk, o.p, Dec(bf[o.b]).v)
                                  ELSE Without(pk, o.p)
    [] OTHER                   -> pk

(* The buffers afterwards; Enc is the encoder as a function of the value.    *)
BuffersAfter(pk, bf, o, Enc(_)) ==
  CASE o.op = "write"  -> Put(bf, o.b, Enc(pk[o.p]))
    [] o.op = "damage" -> Put(bf, o.b, o.v)
    [] OTHER           -> bf
=============================================================================
