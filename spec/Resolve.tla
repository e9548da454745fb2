------------------------------ MODULE Resolve -------------------------------
(* What the type checker hands to the generators. A resolved schema is a     *)
(* graph [export, types, nodes]:                                             *)
(*   nodes   <<[name, kind, repr, variants, fields], ...>>                   *)
(*           kind is "builtin", "enum" or "struct"; variants are             *)
(*           [name, value]; fields [name, arr, opt, to], to being a node     *)
(*   types   <<[name, to], ...>>, the table of types                         *)
(*   export  [name, fields], the exported struct                             *)
(* Nodes may be shared or not: only what they say matters.                   *)
EXTENDS Schema

(* Names of the built-in types as the checker spells them.                   *)
Spelled == [uint8 |-> "Uint8", uint16 |-> "Uint16", uint32 |-> "Uint32", int8 |-> "Int8", int16 |-> "Int16",
            int32 |-> "Int32", float |-> "Float", string |-> "String"]
Width(n) == IF n <= 8 THEN "u8" ELSE IF n <= 16 THEN "u16" ELSE "u32"

(* Everything the exported struct uses, built-in types included.             *)
Reached(ast) ==
  LET env == TLCEval(Env(ast))
      decl == {ExportName(ast)} \cup Used(ast)
  IN  decl \cup UNION {FieldTypes(env[x]) : x \in {y \in decl : env[y].n = "struct"}}

(* Fields as declared and as resolved, the latter through the nodes.         *)
Declared(st) == [i \in DOMAIN st.fields |-> [name |-> st.fields[i].name, ty |-> st.fields[i].ty,
                                             arr |-> st.fields[i].arr, opt |-> st.fields[i].opt]]
Through(nodes, fs) == [i \in DOMAIN fs |-> [name |-> fs[i].name, ty |-> nodes[fs[i].to].name,
                                           arr |-> fs[i].arr, opt |-> fs[i].opt]]

(* What a node of a given name must say.                                     *)
NodeWhy(env, nodes, n) ==
  IF n.name \in Builtins
  THEN IF n.kind = "builtin" /\ n.repr = Spelled[n.name] THEN ""
       ELSE n.name \o " became " \o n.kind \o " " \o n.repr
  ELSE IF n.name \notin DOMAIN env THEN n.name \o " is not declared"
  ELSE IF n.kind # env[n.name].n THEN n.name \o " became " \o n.kind
  ELSE IF n.kind = "enum"
  THEN LET vs == env[n.name].variants
       IN  IF n.repr # Width(Len(vs)) THEN n.name \o " is stored as " \o n.repr
           ELSE IF n.variants # [i \in DOMAIN vs |-> [name |-> vs[i], value |-> i - 1]]
                THEN n.name \o " has the variants " \o ToString(n.variants)
           ELSE ""
  ELSE IF Through(nodes, n.fields) # Declared(env[n.name])
       THEN n.name \o " has the fields " \o ToString(Through(nodes, n.fields)) \o ", declared were "
              \o ToString(Declared(env[n.name]))
  ELSE ""

ResolveWhy(ast, g) ==
  LET env   == TLCEval(Env(ast))
      want  == TLCEval(Reached(ast))
      names == [i \in DOMAIN g.types |-> g.types[i].name]
      bad   == {i \in DOMAIN g.nodes : NodeWhy(env, g.nodes, g.nodes[i]) # ""}
      other == {i \in DOMAIN g.types : g.nodes[g.types[i].to].name # g.types[i].name}
  IN  IF g.export.name # ExportName(ast) THEN "exports " \o g.export.name
      ELSE IF Through(g.nodes, g.export.fields) # Declared(env[ExportName(ast)])
           THEN "the exported struct has the fields " \o ToString(Through(g.nodes, g.export.fields))
      ELSE IF bad # {} THEN NodeWhy(env, g.nodes, g.nodes[CHOOSE i \in bad : TRUE])
      ELSE IF other # {} THEN LET i == CHOOSE x \in other : TRUE
                              IN  "under " \o g.types[i].name \o " stands " \o g.nodes[g.types[i].to].name
      ELSE IF want \ Rng(names) # {} THEN "lacks " \o ToString(want \ Rng(names))
      ELSE IF Rng(names) \ want # {} THEN "keeps " \o ToString(Rng(names) \ want) \o ", which is not used"
      ELSE ""
=============================================================================
