------------------------------ MODULE Checker -------------------------------
(* The type checker as it works: exports are counted, declarations collected,*)
(* a first pass settles enums and structs made of built-in types only, and a *)
(* second pass resolves the rest depth first, starting from an arbitrary     *)
(* remaining declaration each time. Schema.tla says what the answer must be; *)
(* the invariants say that every order of visiting arrives at it.            *)
EXTENDS Schema

CONSTANT Schemas           \* the schemas to consider

VARIABLES
  ast,       \* the schema
  phase,     \* "export" "collect" "first" "second" "exportpass" "done"
  pos,       \* next node of the first pass
  cache,     \* resolved declarations: name -> sequence of field names
  open,      \* declarations not resolved and not picked up by the recursion
  todo,      \* declarations the outer loop of the second pass still visits
  visited,   \* structs the second pass has started on
  stack,     \* structs being resolved: [name, left], innermost first
  result     \* "none", "ok" or the error

vars == <<ast, phase, pos, cache, open, todo, visited, stack, result>>

env == Env(ast)
Known == Builtins \cup DOMAIN cache
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
NoError == [k |-> "ok", a |-> "", b |-> ""]

Fail(k, a, b) == /\ phase' = "done"
                 /\ result' = Err(k, a, b)
                 /\ UNCHANGED <<ast, pos, cache, open, todo, visited, stack>>

Init == /\ ast \in Schemas
        /\ phase = "export" /\ pos = 1 /\ cache = <<>> /\ open = {} /\ todo = {}
        /\ visited = {} /\ stack = <<>> /\ result = NoError

CheckExport ==
  /\ phase = "export"
  /\ CASE Len(Exports(ast)) = 0 -> Fail("noexport", "", "")
       [] Len(Exports(ast)) > 1 -> Fail("manyexports", "", "")
       [] OTHER -> /\ phase' = "collect"
                   /\ UNCHANGED <<ast, pos, cache, open, todo, visited, stack, result>>

Collect ==
  /\ phase = "collect"
  /\ LET ds == Decls(ast)
         dup == {i \in DOMAIN ds : \E j \in 1..(i-1) : ds[j].name = ds[i].name}
     IN  IF dup # {}
         THEN Fail("dupdecl", ds[CHOOSE i \in dup : \A j \in dup : i <= j].name, "")
         ELSE /\ phase' = "first" /\ open' = DeclNames(ast)
              /\ UNCHANGED <<ast, pos, cache, todo, visited, stack, result>>

FirstEnum(d) ==
  LET n == Len(d.variants)
      dup == {i \in 1..n : \E j \in 1..(i-1) : d.variants[j] = d.variants[i]}
  IN  CASE n = 0           -> Fail("emptyenum", d.name, "")
        [] n > MaxVariants -> Fail("bigenum", d.name, ToString(n))
        [] dup # {} /\ n \in 1..MaxVariants ->
             Fail("dupvariant", d.variants[CHOOSE i \in dup : \A j \in dup : i <= j], d.name)
        [] OTHER -> /\ cache' = Put(cache, d.name, d.variants)
                    /\ open' = open \ {d.name} /\ pos' = pos + 1
                    /\ UNCHANGED <<ast, phase, todo, visited, stack, result>>

FirstStruct(d) ==
  LET fs == d.fields
      bad == {i \in DOMAIN fs : \/ \E j \in 1..(i-1) : fs[j].name = fs[i].name
                                \/ fs[i].ty \in Builtins /\ fs[i].arr /\ fs[i].opt}
      i == CHOOSE x \in bad : \A j \in bad : x <= j
  IN  IF bad # {}
      THEN IF \E j \in 1..(i-1) : fs[j].name = fs[i].name
           THEN Fail("dupfield", fs[i].name, d.name)
           ELSE Fail("optarray", fs[i].name, d.name)
      ELSE /\ pos' = pos + 1
           /\ IF FieldTypes(d) \subseteq Builtins
              THEN cache' = Put(cache, d.name, FieldNames(d)) /\ open' = open \ {d.name}
              ELSE UNCHANGED <<cache, open>>
           /\ UNCHANGED <<ast, phase, todo, visited, stack, result>>

First ==
  /\ phase = "first"
  /\ LET ds == Decls(ast)
     IN  IF pos > Len(ds)
         THEN /\ phase' = "second" /\ todo' = open
              /\ UNCHANGED <<ast, pos, cache, open, visited, stack, result>>
         ELSE IF ds[pos].n = "enum" THEN FirstEnum(ds[pos]) ELSE FirstStruct(ds[pos])

(* What starting on a struct does before any recursion: a field of a known   *)
(* type which is optional and an array is an error at once.                  *)
BadOptArray(d) == {i \in DOMAIN d.fields : /\ d.fields[i].ty \in Known
                                           /\ d.fields[i].arr /\ d.fields[i].opt}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j

Enter(x, opn, tod, stk) ==
  LET d == env[x]
      bad == BadOptArray(d)
  IN  IF x \in visited THEN Fail("cycle", x, "")
      ELSE IF bad # {} THEN Fail("optarray", d.fields[Least(bad)].name, x)
      ELSE /\ visited' = visited \cup {x}
           /\ stack' = << [name |-> x,
                           left |-> SelectSeq([i \in DOMAIN d.fields |-> d.fields[i].ty],
                                              LAMBDA t : t \notin Known)] >> \o stk
           /\ open' = opn /\ todo' = tod
           /\ UNCHANGED <<ast, phase, pos, cache, result>>

(* The outer loop visits the remaining declarations in any order.            *)
Visit ==
  /\ phase = "second" /\ stack = <<>>
  /\ \E x \in todo :
       IF x \in DOMAIN cache
       THEN /\ todo' = todo \ {x}
            /\ UNCHANGED <<ast, phase, pos, cache, open, visited, stack, result>>
       ELSE Enter(x, open, todo \ {x}, <<>>)

(* The innermost struct looks at its next unresolved field type.             *)
Descend ==
  /\ phase = "second" /\ stack # <<>> /\ Head(stack).left # <<>>
  /\ LET t    == Head(Head(stack).left)
         rest == << [Head(stack) EXCEPT !.left = Tail(@)] >> \o Tail(stack)
     IN  CASE t \in open ->
                IF t \in DOMAIN cache
                THEN /\ stack' = rest /\ open' = open \ {t}
                     /\ UNCHANGED <<ast, phase, pos, cache, todo, visited, result>>
                ELSE Enter(t, open \ {t}, todo, rest)
           [] t \notin open /\ t \in visited /\ t \notin DOMAIN cache -> Fail("cycle", t, "")
           [] t \notin open /\ t \notin visited /\ t \notin Known -> Fail("missing", t, "")
           [] OTHER -> /\ stack' = rest
                       /\ UNCHANGED <<ast, phase, pos, cache, open, todo, visited, result>>

(* All field types are known: the struct is complete.                        *)
Complete ==
  /\ phase = "second" /\ stack # <<>> /\ Head(stack).left = <<>>
  /\ LET x == Head(stack).name
         bad == BadOptArray(env[x])
     IN  IF bad # {} THEN Fail("optarray", env[x].fields[Least(bad)].name, x)
         ELSE /\ cache' = Put(cache, x, FieldNames(env[x]))
              /\ stack' = Tail(stack)
              /\ UNCHANGED <<ast, phase, pos, open, todo, visited, result>>

SecondDone ==
  /\ phase = "second" /\ stack = <<>> /\ todo = {}
  /\ phase' = "exportpass"
  /\ UNCHANGED <<ast, pos, cache, open, todo, visited, stack, result>>

ExportPass ==
  /\ phase = "exportpass"
  /\ LET x == ExportName(ast)
     IN  CASE x \notin Known -> Fail("exportunknown", x, "")
           [] x \in Known /\ (x \in Builtins \/ x \in Enums(env)) -> Fail("exportkind", x, "")
           [] OTHER -> /\ phase' = "done" /\ result' = NoError
                       /\ cache' = [y \in {x} \cup (Used(ast) \cap DOMAIN cache) |-> cache[y]]
                       /\ UNCHANGED <<ast, pos, open, todo, visited, stack>>

Done == phase = "done" /\ UNCHANGED vars

Next == \/ CheckExport \/ Collect \/ First \/ Visit \/ Descend \/ Complete
        \/ SecondDone \/ ExportPass \/ Done

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* C04: whatever the order, the verdict is the declarative one.              *)
VerdictExact == phase = "done" => ((result = NoError) <=> Valid(ast))

(* C05: an error is always one the schema has.                               *)
ErrorTrue == phase = "done" /\ result # NoError => result \in Errors(ast)

(* C01/C06: whatever the order, the resolved types are the used ones, with   *)
(* their members in declared order.                                          *)
ResolvedExact ==
  phase = "done" /\ result = NoError =>
    /\ DOMAIN cache = {ExportName(ast)} \cup Used(ast)
    /\ \A x \in DOMAIN cache :
         cache[x] = IF env[x].n = "enum" THEN env[x].variants ELSE FieldNames(env[x])

(* Only finished declarations are in the cache, and the recursion is simple. *)
CacheSound ==
  phase = "second" =>
    /\ \A x \in DOMAIN cache \cap Structs(env) : FieldTypes(env[x]) \subseteq Known
    /\ \A i, j \in DOMAIN stack : i # j => stack[i].name # stack[j].name
    /\ \A i \in DOMAIN stack : stack[i].name \notin DOMAIN cache

Terminates == <>(phase = "done")
=============================================================================
