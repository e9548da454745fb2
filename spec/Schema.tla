------------------------------- MODULE Schema -------------------------------
(* The abstract syntax of a schema and what it means for one to be           *)
(* well-formed. Everything here is declarative: no order of resolution, no   *)
(* passes, no early exit. The resolver itself is modelled in Checker.tla.    *)
(*                                                                           *)
(* A schema is a sequence of nodes                                           *)
(*   [n |-> "export", name |-> s]                                            *)
(*   [n |-> "enum",   name |-> s, variants |-> <<s, ...>>]                   *)
(*   [n |-> "struct", name |-> s,                                            *)
(*    fields |-> <<[name |-> s, ty |-> s, arr |-> b, opt |-> b], ...>>]      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Builtins == {"uint8", "uint16", "uint32", "int8", "int16", "int32",
             "float", "string"}
Reserved == Builtins \cup {"enum", "struct"}

MaxVariants == 32

Rng(s) == {s[i] : i \in DOMAIN s}

Exports(ast) == SelectSeq(ast, LAMBDA d : d.n = "export")
Decls(ast)   == SelectSeq(ast, LAMBDA d : d.n # "export")

DeclNames(ast) == {d.name : d \in Rng(Decls(ast))}

(* The declaration of every declared name (the first one if there are more). *)
Env(ast) ==
  LET ds == Decls(ast)
  IN  [x \in DeclNames(ast) |->
         ds[CHOOSE i \in DOMAIN ds :
              ds[i].name = x /\ \A j \in 1..(i-1) : ds[j].name # x]]

(* Elements which occur more than once in a sequence.                        *)
Dups(s) == {s[i] : i \in {j \in DOMAIN s : \E k \in 1..(j-1) : s[k] = s[j]}}

FieldNames(st) == [i \in DOMAIN st.fields |-> st.fields[i].name]
FieldTypes(st) == {st.fields[i].ty : i \in DOMAIN st.fields}

Structs(env) == {x \in DOMAIN env : env[x].n = "struct"}
Enums(env)   == {x \in DOMAIN env : env[x].n = "enum"}

(* The reference graph between structs.                                      *)
Refs(env) == [x \in Structs(env) |-> FieldTypes(env[x]) \cap Structs(env)]

RECURSIVE Closure(_, _, _)
Closure(refs, frontier, seen) ==
  IF frontier = {} THEN seen
  ELSE LET next == (UNION {refs[x] : x \in frontier}) \ seen
       IN  Closure(refs, next, seen \cup next)

(* Everything reachable from x in one step or more.                          *)
Reach(refs, x) == Closure(refs, refs[x], refs[x])

(* Structs all of whose references are settled, found bottom up. Whatever is *)
(* left over lies on a cycle or leads to one.                                *)
RECURSIVE Settle(_, _)
Settle(refs, done) ==
  LET new == {x \in DOMAIN refs \ done : refs[x] \subseteq done}
  IN  IF new = {} THEN done ELSE Settle(refs, done \cup new)

OnCycle(env) ==
  LET refs == TLCEval(Refs(env))
      left == DOMAIN refs \ Settle(refs, {})
  IN  {x \in left : x \in Reach(refs, x)}

Err(k, a, b) == [k |-> k, a |-> a, b |-> b]

(* Every defect a schema has. Accepting means that there is none; rejecting  *)
(* must name one of these.                                                   *)
Errors(ast) ==
  LET env == TLCEval(Env(ast))
      ex  == Exports(ast)
      ds  == Decls(ast)
      st  == {d \in Rng(ds) : d.n = "struct"}
      en  == {d \in Rng(ds) : d.n = "enum"}
  IN  (IF Len(ex) = 0 THEN {Err("noexport", "", "")} ELSE {})
 \cup (IF Len(ex) > 1 THEN {Err("manyexports", "", "")} ELSE {})
 \cup {Err("dupdecl", x, "") : x \in Dups([i \in DOMAIN ds |-> ds[i].name])}
 \cup {Err("exportunknown", e.name, "") :
          e \in {y \in Rng(ex) : y.name \notin DOMAIN env \cup Builtins}}
 \cup {Err("exportkind", e.name, "") :
          e \in {y \in Rng(ex) : \/ y.name \in Builtins
                                 \/ y.name \in Enums(env)}}
 \cup {Err("emptyenum", d.name, "") : d \in {y \in en : Len(y.variants) = 0}}
 \cup {Err("bigenum", d.name, ToString(Len(d.variants))) :
          d \in {y \in en : Len(y.variants) > MaxVariants}}
 \cup UNION {{Err("dupvariant", v, d.name) : v \in Dups(d.variants)} : d \in en}
 \cup UNION {{Err("dupfield", f, d.name) : f \in Dups(FieldNames(d))} : d \in st}
 \cup UNION {{Err("optarray", d.fields[i].name, d.name) :
                 i \in {j \in DOMAIN d.fields : d.fields[j].arr /\ d.fields[j].opt}} :
              d \in st}
 \cup UNION {{Err("missing", t, "") :
                 t \in FieldTypes(d) \ (DOMAIN env \cup Builtins)} : d \in st}
 \cup {Err("cycle", x, "") : x \in OnCycle(env)}

Valid(ast) == Errors(ast) = {}

(* How each defect is worded for the user.                                   *)
Message(e) ==
  CASE e.k = "noexport"      -> "Schema has no export"
    [] e.k = "manyexports"   -> "Schema has more than one export"
    [] e.k = "dupdecl"       -> "Schema has duplicate declaration: " \o e.a
    [] e.k = "exportunknown" -> "Export '" \o e.a \o "' could not be resolved"
    [] e.k = "exportkind"    -> "Attempted to export '" \o e.a
                                   \o "', which is not a struct"
    [] e.k = "emptyenum"     -> "Enum '" \o e.a \o "' must have at least one variant"
    [] e.k = "bigenum"       -> "Enum '" \o e.a \o "' has too many variants ("
                                   \o e.b \o "/32)"
    [] e.k = "dupvariant"    -> "Duplicate variant '" \o e.a \o "' on enum '" \o e.b \o "'"
    [] e.k = "dupfield"      -> "Duplicate field '" \o e.a \o "' on struct '" \o e.b \o "'"
    [] e.k = "optarray"      -> "Field '" \o e.a \o "' in struct '" \o e.b
                                   \o "' cannot be optional and array at once"
    [] e.k = "missing"       -> "Declaration for type '" \o e.a \o "' does not exist"
    [] e.k = "cycle"         -> "Found a cycle between two or more top level "
                                   \o "definitions in type '" \o e.a \o "'"

Messages(ast) == {Message(e) : e \in Errors(ast)}

(* --- meaning of accepted schemas ---------------------------------------- *)

ExportName(ast) == Exports(ast)[1].name

(* Declared types which the exported struct uses, directly or not, without   *)
(* the exported struct itself.                                               *)
Used(ast) ==
  LET env  == TLCEval(Env(ast))
      all  == [x \in DOMAIN env |->
                 IF env[x].n = "struct" THEN FieldTypes(env[x]) \cap DOMAIN env ELSE {}]
  IN  Reach(TLCEval(all), ExportName(ast))

(* Width of an enum on the wire.                                             *)
Repr(n) == IF n <= 8 THEN "uint8" ELSE IF n <= 16 THEN "uint16" ELSE "uint32"

(* 2^i for i in 0..31, as text: TLC's integers have only 32 bits.            *)
Pow2 == << "1", "2", "4", "8", "16", "32", "64", "128", "256", "512", "1024",
   "2048", "4096", "8192", "16384", "32768", "65536", "131072", "262144",
   "524288", "1048576", "2097152", "4194304", "8388608", "16777216",
   "33554432", "67108864", "134217728", "268435456", "536870912",
   "1073741824", "2147483648" >>
Bit(i) == Pow2[i]      \* value of the i-th variant, counting from one
=============================================================================
