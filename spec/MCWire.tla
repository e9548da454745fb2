------------------------------- MODULE MCWire -------------------------------
(* Encoder, a channel which may cut the packet short or change one byte, and *)
(* decoder, down to bytes, over bounded schemas and values.                  *)
EXTENDS Wire

CONSTANTS Pairs,      \* whether structs with two fields are included
          MaxLen,     \* longest arrays and strings
          Corruptions \* values a byte may be changed to

VARIABLES ast, val, phase, enc, bytes, sent, dec, at, fault, answer
vars == <<ast, val, phase, enc, bytes, sent, dec, at, fault, answer>>

env == Env(ast)
Root == ExportName(ast)

-----------------------------------------------------------------------------
(* bytes of calls: little endian numbers, one byte per character             *)
Width(op) == CASE op \in {"uint8", "int8"} -> 1 [] op \in {"uint16", "int16"} -> 2 [] OTHER -> 4

NumOf(v) == CHOOSE k \in 0..70000 : ToString(k) = v
Le(k, w) == [i \in 1..w |-> CASE i = 1 -> k % 256 [] i = 2 -> (k \div 256) % 256
                              [] i = 3 -> (k \div 65536) % 256 [] OTHER -> 0]
BytesOf(c, num) == IF c.op = "string" THEN [i \in 1..Len(c.v) |-> 97] ELSE Le(num, Width(c.op))

RECURSIVE As(_)
As(n) == IF n = 0 THEN "" ELSE "a" \o As(n - 1)
StrOf(bs) == IF \A i \in DOMAIN bs : bs[i] = 97 THEN As(Len(bs)) ELSE "not a's"

(* What a read of op at position p gives: [v, n, bad, len]                   *)
ReadAt(op, p, n) ==
  LET w == IF op = "string" THEN n ELSE Width(op)
  IN  IF p + w > Len(sent) THEN [v |-> "0", n |-> 0, bad |-> TRUE, w |-> 0]
      ELSE LET b == SubSeq(sent, p + 1, p + w)
           IN  IF op = "string" THEN [v |-> StrOf(b), n |-> 0, bad |-> FALSE, w |-> w]
               ELSE LET k == b[1] + (IF w > 1 THEN 256 * b[2] ELSE 0) + (IF w > 2 THEN 65536 * b[3] ELSE 0)
                             + (IF w > 3 /\ b[4] > 0 THEN 16777216 * (b[4] % 50) ELSE 0)
                    IN  [v |-> ToString(k), n |-> k, bad |-> FALSE, w |-> w]

-----------------------------------------------------------------------------
(* bounded schemas *)
Fld(n, t, m) == [name |-> n, ty |-> t, arr |-> m = "arr", opt |-> m = "opt"]
Modes == {"one", "arr", "opt"}
Prims == {"uint8", "uint16", "string", "E"}
E3 == [n |-> "enum", name |-> "E", variants |-> <<"P", "Q", "R">>]
E9 == [n |-> "enum", name |-> "E",
       variants |-> <<"P", "Q", "R", "S", "T", "U", "V", "W", "X">>]
St(n, fs) == [n |-> "struct", name |-> n, fields |-> fs]
Ex(n) == [n |-> "export", name |-> n]

Inner == {<<>>} \cup {<<Fld("i", t, m)>> : t \in Prims, m \in Modes}
Outer1 == {<<Fld("f", t, m)>> : t \in Prims \cup {"S"}, m \in Modes}
Outer2 == {<<Fld("f", t, m), Fld("g", u, k)>> : t \in {"uint8", "E", "S"}, m \in Modes,
                                               u \in {"uint16", "S"}, k \in Modes}
(* Arrays of empty structs are left out: nothing in the packet bounds their  *)
(* length, which is a finding about the format (see DESIGN.md).              *)
TheSchemas ==
  {<< St("T", x[1]), St("S", x[2]), x[3], Ex("T") >> :
      x \in {y \in (IF Pairs THEN Outer2 ELSE Outer1) \X Inner \X {E3, E9} :
               y[2] = <<>> => ~\E k \in DOMAIN y[1] : y[1][k].ty = "S" /\ y[1][k].arr}}

(* bounded values, as sets of leaf sequences *)
RECURSIVE Vals(_, _, _), ValsF(_, _, _), ValsN(_, _, _, _)
Cat(A, B) == {a \o b : a \in A, b \in B}
Vals(en, ty, d) ==
  CASE ty = "uint8"  -> {<<Leaf("0", 0)>>, <<Leaf("255", 0)>>}
    [] ty = "uint16" -> {<<Leaf("513", 0)>>}
    [] ty = "string" -> {<<Leaf(As(k), k)>> : k \in 0..MaxLen}
    [] ty \notin Builtins /\ en[ty].n = "enum" ->
         {<<Leaf(en[ty].variants[1], 0)>>, <<Leaf(en[ty].variants[Len(en[ty].variants)], 0)>>}
    [] OTHER -> ValsF(en, en[ty].fields, d)
ValsN(en, ty, n, d) == IF n = 0 THEN {<<>>} ELSE Cat(Vals(en, ty, d), ValsN(en, ty, n - 1, d))
ValsF(en, fs, d) ==
  IF fs = <<>> THEN {<<>>}
  ELSE LET f == Head(fs)
           here == CASE f.arr -> UNION {Cat({<<Leaf("#", n)>>}, ValsN(en, f.ty, n, d)) : n \in 0..MaxLen}
                     [] ~f.arr /\ f.opt ->
                          UNION {Cat({<<Leaf("?", n)>>}, ValsN(en, f.ty, n, d)) : n \in 0..1}
                     [] OTHER -> Vals(en, f.ty, d)
       IN  Cat(here, ValsF(en, Tail(fs), d))

-----------------------------------------------------------------------------
Init == /\ ast \in TheSchemas
        /\ val \in Vals(Env(ast), "T", 0)
        /\ phase = "encode" /\ enc = Encoder(Env(ast), "T", val)
        /\ bytes = <<>> /\ sent = <<>> /\ dec = Decoder(Env(ast), "T") /\ at = 0
        /\ fault = "none" /\ answer = <<>>

Write == /\ phase = "encode" /\ ~EncoderDone(enc)
         /\ LET c == EncoderCall(env, enc)
            IN  bytes' = bytes \o BytesOf(c, IF c.op = "string" THEN 0 ELSE NumOf(c.v))
         /\ enc' = EncoderStep(env, enc)
         /\ UNCHANGED <<ast, val, phase, sent, dec, at, fault, answer>>

Deliver == /\ phase = "encode" /\ EncoderDone(enc)
           /\ phase' = "decode"
           /\ \/ sent' = bytes /\ fault' = "none"
              \/ \E k \in 0..(Len(bytes) - 1) : sent' = SubSeq(bytes, 1, k) /\ fault' = "cut"
              \/ \E k \in 1..Len(bytes), b \in Corruptions :
                   b # bytes[k] /\ sent' = [bytes EXCEPT ![k] = b] /\ fault' = "changed"
           /\ UNCHANGED <<ast, val, enc, bytes, dec, at, answer>>

Read == /\ phase = "decode" /\ ~DecoderDone(dec) /\ ~dec.failed
        /\ LET op == DecoderOp(env, dec)
               r  == ReadAt(op, at, IF op = "string" THEN DecoderLen(dec) ELSE 0)
           IN  /\ dec' = DecoderStep(env, dec, r.v, r.n, r.bad)
               /\ at' = at + r.w
        /\ UNCHANGED <<ast, val, phase, enc, bytes, sent, fault, answer>>

Return == /\ phase = "decode" /\ (DecoderDone(dec) \/ dec.failed)
          /\ phase' = "done"
          /\ answer' = IF dec.failed THEN <<>> ELSE <<dec.acc>>
          /\ UNCHANGED <<ast, val, enc, bytes, sent, dec, at, fault>>

Done == phase = "done" /\ UNCHANGED vars
Next == Write \/ Deliver \/ Read \/ Return \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
NoN(ls) == [i \in DOMAIN ls |-> ls[i].s]

(* C01: the machine emits the layout defined by recursion over the type.     *)
LayoutExact ==
  phase = "encode" /\ bytes = <<>> =>
    LET e == EncodeAs(env, "T", val)
        RECURSIVE all(_)
        all(m) == IF EncoderDone(m) THEN <<>> ELSE <<EncoderCall(env, m)>> \o all(EncoderStep(env, m))
    IN  e.rest = <<>> /\ (enc.val = val => all(enc) = e.calls)
NothingLeft == phase # "encode" => enc.val = <<>>

(* C02 *)
RoundTrip == phase = "done" /\ fault = "none" =>
               answer = <<val>> /\ at = Len(sent)
(* C03 *)
CutRefused == phase = "done" /\ fault = "cut" => answer = <<>>
(* whatever is returned is exactly one value of the exported type            *)
Proper == phase = "done" /\ answer # <<>> =>
            LET e == EncodeAs(env, "T", answer[1])
            IN  e.rest = <<>>
Terminates == <>(phase = "done")
=============================================================================
