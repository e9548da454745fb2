-------------------------------- MODULE Wire --------------------------------
(* What the generated encoder writes and the generated decoder reads, as a   *)
(* machine which makes one call on the packet writer or reader at a time.    *)
(*                                                                           *)
(* A value is given as its leaves in declaration order, each [s, n]:         *)
(*   number  s is the number as text                                         *)
(*   string  s is the string, n its length                                   *)
(*   enum    s is the name of the variant                                    *)
(*   array   s is "#", n the number of elements; the elements follow         *)
(*   option  s is "?", n is 1 or 0; the value follows if n is 1              *)
(* A struct is the leaves of its fields. A call is [op, v, n, len]: the      *)
(* primitive type, the value written or read as text and, if it is a small   *)
(* integer, as a number, and for strings the length asked for.               *)
EXTENDS Schema

Leaf(s, n) == [s |-> s, n |-> n]
Small == 1000000000      \* n is only meaningful in 0..Small, otherwise -1

Item(k, ty, n) == [k |-> k, ty |-> ty, n |-> n]
One(ty) == Item("one", ty, 0)

FieldItem(f) == IF f.arr THEN Item("arr", f.ty, 0)
                ELSE IF f.opt THEN Item("opt", f.ty, 0)
                ELSE One(f.ty)

(* Brings the next thing to write or read to the front: structs are replaced *)
(* by their fields, repetitions unrolled by one.                             *)
RECURSIVE Norm(_, _)
Norm(env, work) ==
  IF work = <<>> THEN <<>>
  ELSE LET h == Head(work)
       IN  CASE h.k = "one" /\ h.ty \notin Builtins /\ env[h.ty].n = "struct" ->
                  Norm(env, [i \in DOMAIN env[h.ty].fields |-> FieldItem(env[h.ty].fields[i])]
                              \o Tail(work))
             [] h.k = "rep" /\ h.n = 0 -> Norm(env, Tail(work))
             [] h.k = "rep" /\ h.n > 0 ->
                  Norm(env, << One(h.ty), [h EXCEPT !.n = @ - 1] >> \o Tail(work))
             [] OTHER -> work

IsEnum(env, h) == h.k = "one" /\ h.ty \notin Builtins

VariantIndex(e, name) == CHOOSE i \in DOMAIN e.variants : e.variants[i] = name
VariantOf(e, v) ==     \* 0 if v is not the value of a variant
  LET S == {i \in DOMAIN e.variants : Bit(i) = v}
  IN  IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

Call(op, v) == [op |-> op, v |-> v]

-----------------------------------------------------------------------------
(* The encoder: [work, val] with work normalised.                            *)

Encoder(env, ty, val) == [work |-> Norm(env, <<One(ty)>>), val |-> val]

EncoderDone(m) == m.work = <<>>

(* The call it makes next.                                                   *)
EncoderCall(env, m) ==
  LET h == Head(m.work)
      l == Head(m.val)
  IN  CASE h.k = "str"                       -> Call("string", l.s)
        [] h.k = "one" /\ h.ty = "string"    -> Call("uint32", ToString(l.n))
        [] h.k = "one" /\ h.ty \in Builtins \ {"string"} -> Call(h.ty, l.s)
        [] IsEnum(env, h)                    ->
             Call(Repr(Len(env[h.ty].variants)), Bit(VariantIndex(env[h.ty], l.s)))
        [] h.k = "arr"                       -> Call("uint32", ToString(l.n))
        [] h.k = "opt"                       -> Call("uint8", ToString(l.n))

EncoderStep(env, m) ==
  LET h == Head(m.work)
      l == Head(m.val)
      t == Tail(m.work)
      next(front) == Norm(env, front \o t)
  IN  CASE h.k = "one" /\ h.ty = "string" -> [m EXCEPT !.work = <<Item("str", "", 0)>> \o t]
        [] h.k = "arr" -> [work |-> next(<<Item("rep", h.ty, l.n)>>), val |-> Tail(m.val)]
        [] h.k = "opt" -> [work |-> next(IF l.n = 1 THEN <<One(h.ty)>> ELSE <<>>),
                           val |-> Tail(m.val)]
        [] OTHER       -> [work |-> next(<<>>), val |-> Tail(m.val)]

-----------------------------------------------------------------------------
(* The decoder: [work, acc, failed].                                         *)

Decoder(env, ty) == [work |-> Norm(env, <<One(ty)>>), acc |-> <<>>, failed |-> FALSE]

DecoderDone(m) == m.work = <<>>

DecoderOp(env, m) ==
  LET h == Head(m.work)
  IN  CASE h.k = "str"                                   -> "string"
        [] h.k = "one" /\ h.ty = "string"                -> "uint32"
        [] h.k = "one" /\ h.ty \in Builtins \ {"string"} -> h.ty
        [] IsEnum(env, h)                                -> Repr(Len(env[h.ty].variants))
        [] h.k = "arr"                                   -> "uint32"
        [] h.k = "opt"                                   -> "uint8"

(* Length of the string it reads next.                                       *)
DecoderLen(m) == Head(m.work).n

(* The effect of reading v (which is n as a number); bad says that the       *)
(* reader ran out of bytes.                                                  *)
DecoderStep(env, m, v, n, bad) ==
  LET h == Head(m.work)
      t == Tail(m.work)
      next(front) == Norm(env, front \o t)
      put(l) == Append(m.acc, l)
  IN  CASE bad -> [m EXCEPT !.failed = TRUE]
        [] ~bad /\ h.k = "str" -> [m EXCEPT !.work = next(<<>>), !.acc = put(Leaf(v, h.n))]
        [] ~bad /\ h.k = "one" /\ h.ty = "string" ->
             [m EXCEPT !.work = <<Item("str", "", n)>> \o t]
        [] ~bad /\ h.k = "one" /\ h.ty \in Builtins \ {"string"} ->
             [m EXCEPT !.work = next(<<>>), !.acc = put(Leaf(v, 0))]
        [] ~bad /\ IsEnum(env, h) ->
             LET i == VariantOf(env[h.ty], v)
             IN  IF i = 0 THEN [m EXCEPT !.failed = TRUE]
                 ELSE [m EXCEPT !.work = next(<<>>),
                                !.acc = put(Leaf(env[h.ty].variants[i], 0))]
        [] ~bad /\ h.k = "arr" ->
             [m EXCEPT !.work = next(<<Item("rep", h.ty, n)>>), !.acc = put(Leaf("#", n))]
        [] ~bad /\ h.k = "opt" ->
             [m EXCEPT !.work = next(IF n = 0 THEN <<>> ELSE <<One(h.ty)>>),
                       !.acc = put(Leaf("?", IF n = 0 THEN 0 ELSE 1))]

-----------------------------------------------------------------------------
(* The layout as one function, independent of the machines: all calls which  *)
(* encode a value, by structural recursion over the type.                    *)

RECURSIVE EncodeAs(_, _, _), EncodeFields(_, _, _), EncodeN(_, _, _, _)
(* each returns [calls, rest]: what is emitted and the leaves left over      *)
EncodeAs(env, ty, val) ==
  IF ty = "string"
  THEN [calls |-> <<Call("uint32", ToString(Head(val).n)), Call("string", Head(val).s)>>,
        rest |-> Tail(val)]
  ELSE IF ty \in Builtins
  THEN [calls |-> <<Call(ty, Head(val).s)>>, rest |-> Tail(val)]
  ELSE IF env[ty].n = "enum"
  THEN [calls |-> <<Call(Repr(Len(env[ty].variants)), Bit(VariantIndex(env[ty], Head(val).s)))>>,
        rest |-> Tail(val)]
  ELSE EncodeFields(env, env[ty].fields, val)

EncodeFields(env, fs, val) ==
  IF fs = <<>> THEN [calls |-> <<>>, rest |-> val]
  ELSE LET f == Head(fs)
           a == CASE f.arr -> LET e == EncodeN(env, f.ty, Head(val).n, Tail(val))
                              IN  [e EXCEPT !.calls = <<Call("uint32", ToString(Head(val).n))>> \o @]
                  [] ~f.arr /\ f.opt ->
                       LET e == EncodeN(env, f.ty, Head(val).n, Tail(val))
                       IN  [e EXCEPT !.calls = <<Call("uint8", ToString(Head(val).n))>> \o @]
                  [] OTHER -> EncodeAs(env, f.ty, val)
           b == EncodeFields(env, Tail(fs), a.rest)
       IN  [calls |-> a.calls \o b.calls, rest |-> b.rest]

EncodeN(env, ty, n, val) ==
  IF n = 0 THEN [calls |-> <<>>, rest |-> val]
  ELSE LET a == EncodeAs(env, ty, val)
           b == EncodeN(env, ty, n - 1, a.rest)
       IN  [calls |-> a.calls \o b.calls, rest |-> b.rest]
=============================================================================
