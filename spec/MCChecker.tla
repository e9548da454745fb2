----------------------------- MODULE MCChecker ------------------------------
(* Bounded instances of Checker: all reference graphs over three structs and *)
(* all small schemas with one or two arbitrary defects. The families take a  *)
(* dummy argument so that TLC only builds the one which is used.             *)
EXTENDS Checker, SequencesExt

CONSTANT Family

Fld(n, t, a, o) == [name |-> n, ty |-> t, arr |-> a, opt |-> o]
St(n, fs) == [n |-> "struct", name |-> n, fields |-> fs]
En(n, vs) == [n |-> "enum", name |-> n, variants |-> vs]
Ex(n) == [n |-> "export", name |-> n]

N3 == {"A", "B", "C"}
Letter == <<"f", "g", "h", "i", "j">>

(* A struct with one field per referenced type, in the order of TypeOrder.   *)
StructOf(n, S, order) ==
  LET ts == SelectSeq(order, LAMBDA t : t \in S)
  IN  St(n, [i \in DOMAIN ts |-> Fld(Letter[i], ts[i], FALSE, FALSE)])

GraphsOf(types, order) ==
  {<< StructOf("A", a, order), StructOf("B", b, order), StructOf("C", c, order), Ex("A") >> :
     a \in SUBSET types, b \in SUBSET types, c \in SUBSET types}

(* Reference graphs with a missing name and a built-in type.                 *)
Graphs3(_lazy) == GraphsOf({"A", "B", "C", "X"}, <<"A", "uint8", "C", "X", "B">>)
Graphs3U(_lazy) == GraphsOf({"A", "B", "C", "uint8", "X"}, <<"uint8", "C", "A", "X", "B">>)

(* Four structs, references only: long cycles and deep chains.               *)
Graphs4(_lazy) ==
  LET T == {"A", "B", "C", "D"}
      o == <<"C", "B", "D", "A">>
  IN  {<< StructOf("A", a, o), StructOf("B", b, o), StructOf("C", c, o), StructOf("D", d, o),
          Ex("A") >> : a \in SUBSET T, b \in SUBSET T, c \in SUBSET T, d \in SUBSET T}

(* Small schemas with every combination of local defects.                    *)
F1 == {Fld(n, t, a, o) : n \in {"f", "g"}, t \in {"uint8", "E", "A", "X"},
                         a \in BOOLEAN, o \in BOOLEAN}
Bodies(_lazy) == {<<>>} \cup {<<x>> : x \in F1}
             \cup {<<x, y>> : x \in F1, y \in {z \in F1 : ~z.arr}}
EnumsE == {<<>>, <<"P">>, <<"P", "P">>, [i \in 1..32 |-> "V" \o ToString(i)],
           [i \in 1..33 |-> "V" \o ToString(i)]}
Local(_lazy) ==
  {<< St("A", b), En(nm, e) >> \o x :
      b \in Bodies(0), e \in EnumsE, nm \in {"E", "A"},
      x \in {<<>>, <<Ex("A")>>, <<Ex("E")>>, <<Ex("Y")>>, <<Ex("uint8")>>, <<Ex("A"), Ex("A")>>}}

(* A struct which uses types resolved early and late in every position.      *)
F2 == {Fld(n, t, FALSE, FALSE) : n \in {"f"}, t \in {"uint8", "E", "B", "C"}}
Mixed(_lazy) ==
  {<< St("A", << [x EXCEPT !.name = "p"], [y EXCEPT !.name = "q"], [z EXCEPT !.name = "r"] >>),
      St("B", <<b>>), St("C", <<c>>), En("E", <<"P", "Q">>), Ex("A") >> :
      x \in F2, y \in F2, z \in F2,
      b \in {Fld("f", t, FALSE, FALSE) : t \in {"uint8", "E", "C", "A"}},
      c \in {Fld("f", t, FALSE, FALSE) : t \in {"uint8", "E", "B"}}}

TheSchemas ==
  CASE Family = "graphs3" -> Graphs3(0)
    [] Family = "graphs3u" -> Graphs3U(0)
    [] Family = "graphs4" -> Graphs4(0)
    [] Family = "local"   -> Local(0)
    [] Family = "mixed"   -> Mixed(0)
=============================================================================
