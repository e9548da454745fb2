-------------------------------- MODULE Decls -------------------------------
(* What a generated module declares. A module is                             *)
(*   [ns, cls, ifaces, enums, ctor]                                          *)
(* names of namespaces and classes, interfaces [ns, name, members], enums    *)
(* [ns, name, members] and the parameters of the constructor. Members are    *)
(* [name, base, arr, opt] where base is number, string or the qualified name *)
(* of the declaration which is meant, and names for enums.                   *)
EXTENDS Schema

BaseOf(export, f) == IF f.ty = "string" THEN "string"
                     ELSE IF f.ty \in Builtins THEN "number"
                     ELSE export \o "." \o f.ty
Members(export, st) ==
  [i \in DOMAIN st.fields |-> [name |-> st.fields[i].name, base |-> BaseOf(export, st.fields[i]),
                               arr |-> st.fields[i].arr, opt |-> st.fields[i].opt]]

(* The declarations a schema calls for.                                      *)
Module(ast) ==
  LET env == TLCEval(Env(ast))
      e == ExportName(ast)
      used == TLCEval(Used(ast))
  IN  [cls    |-> e,
       ctor   |-> Members(e, env[e]),
       ifaces |-> {[ns |-> e, name |-> x, members |-> Members(e, env[x])] : x \in {y \in used : env[y].n = "struct"}},
       enums  |-> {[ns |-> e, name |-> x, members |-> env[x].variants] : x \in {y \in used : env[y].n = "enum"}}]

DeclWhy(ast, m) ==
  LET w == TLCEval(Module(ast))
      names == [i \in 1..(Len(m.ifaces) + Len(m.enums)) |->
                  IF i <= Len(m.ifaces) THEN m.ifaces[i].name ELSE m.enums[i - Len(m.ifaces)].name]
      wantNames == {x.name : x \in w.ifaces \cup w.enums}
      gotI == Rng(m.ifaces)
      gotE == Rng(m.enums)
  IN  IF Dups(names) # {} THEN "declares twice: " \o ToString(Dups(names))
      ELSE IF wantNames \ Rng(names) # {} THEN "lacks the types " \o ToString(wantNames \ Rng(names))
      ELSE IF Rng(names) \ wantNames # {} THEN "declares types which are not used: " \o ToString(Rng(names) \ wantNames)
      ELSE IF gotI # w.ifaces THEN "declares " \o ToString(gotI \ w.ifaces) \o ", must be " \o ToString(w.ifaces \ gotI)
      ELSE IF gotE # w.enums THEN "declares " \o ToString(gotE \ w.enums) \o ", must be " \o ToString(w.enums \ gotE)
      ELSE IF \E n \in Rng(m.ns) : n # w.cls THEN "has the namespaces " \o ToString(m.ns)
      ELSE IF m.cls # <<w.cls>> THEN "exports the classes " \o ToString(m.cls) \o ", must be " \o w.cls
      ELSE IF m.ctor # w.ctor THEN "constructs from " \o ToString(m.ctor) \o ", must be " \o ToString(w.ctor)
      ELSE ""
=============================================================================
