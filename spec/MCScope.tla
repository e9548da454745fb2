------------------------------- MODULE MCScope ------------------------------
(* Names of generated variables over a bounded family of schemas whose field *)
(* names are made to collide. Also writes out the colliding ones.            *)
EXTENDS Scope, SequencesExt, Json, IOUtils

CONSTANTS Family, Fresh

Fld(n, t, m) == [name |-> n, ty |-> t, arr |-> m = "arr", opt |-> m = "opt"]
St(n, fs) == [n |-> "struct", name |-> n, fields |-> fs]
EE == [n |-> "enum", name |-> "E", variants |-> <<"P", "Q", "R">>]
Ex(n) == [n |-> "export", name |-> n]
Modes == {"one", "arr", "opt"}

(* flat: two fields; nested: fields beside a struct; twice: two levels       *)
Words == {"a", "a_len", "a_item", "a_index", "a_temp", "a_", "a_b", "a_item_b", "a_b_len", "a_item_len"}
Kinds == ({"string", "E", "S"} \X Modes) \cup {<<"uint8", "arr">>, <<"uint8", "opt">>}

Flat(_lazy) ==
  {<<St("T", <<Fld(n, k[1], k[2]), Fld(o, l[1], l[2])>>), St("S", <<Fld("b", "uint8", "one")>>), EE, Ex("T")>> :
      n \in {"a", "a_", "a_b"}, k \in Kinds, o \in Words, l \in Kinds}
Nested(_lazy) ==
  {<<Ex("T"), St("T", <<Fld("a", "S", m), Fld(o, l[1], l[2])>>), EE,
     St("S", <<Fld(i, j[1], j[2])>>), St("S2", <<>>)>> :
      m \in Modes, o \in Words, l \in {k \in Kinds : k[1] # "S"},
      i \in {"b", "len", "item", "index", "temp", "item_b", "_"}, j \in {k \in Kinds : k[1] # "S"}}
Twice(_lazy) ==
  {<<St("T", <<Fld("a", "S", m), Fld(o, l[1], l[2])>>), EE, St("U", <<Fld("c", j[1], j[2])>>), Ex("T"),
     St("S", <<Fld("b", "U", k), Fld(i, j[1], j[2])>>)>> :
      m \in Modes, o \in {"a_b", "a_b_c", "a_item_b", "a_item_b_c", "a_b_item_c"}, k \in Modes,
      l \in {x \in Kinds : x[1] # "S"}, i \in {"b_c", "b_item", "b_item_c"}, j \in {x \in Kinds : x[1] # "S"}}

(* fields must differ *)
Ok(ast) == \A d \in Rng(Decls(ast)) : d.n = "struct" => Dups(FieldNames(d)) = {}
TheSchemas(_lazy) == {a \in (CASE Family = "flat" -> Flat(0) [] Family = "nested" -> Nested(0)
                               [] Family = "twice" -> Twice(0)) : Ok(a)}

VARIABLES ast, fn, evs, pos, s
vars == <<ast, fn, evs, pos, s>>

Init == /\ ast \in TheSchemas(0) /\ fn \in {"read", "write"}
        /\ evs = (IF fn = "read" THEN ReadEvents(ast, Fresh) ELSE WriteEvents(ast, Fresh))
        /\ pos = 1 /\ s = ScopeStart({})
Next == /\ pos <= Len(evs) /\ s.why = ""
        /\ s' = ScopeStep(s, evs[pos]) /\ pos' = pos + 1
        /\ UNCHANGED <<ast, fn, evs>>
Spec == Init /\ [][Next]_vars

Scoped == s.why = ""
Balanced == pos = Len(evs) + 1 /\ s.why = "" => Len(s.stack) = 1
=============================================================================
