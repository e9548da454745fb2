----------------------------- MODULE MCSession ------------------------------
(* Compilations which run at the same time and one after another in one      *)
(* process, step by step: a compilation declares its types one at a time,    *)
(* resolves what the export refers to along a path, and emits code. Checked: *)
(* whatever else runs or ran before, each ends with what its text alone      *)
(* gives. Shared selects compilers which keep one of their tables outside    *)
(* the compilation, each of which must be found out.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, MaxRuns,
          Shared     \* "none", "types", "path", "names"
ASSUME Shared \in {"none", "types", "path", "names"}

(* Texts: declared names in order, each with the name it refers to ("" for   *)
(* none); the first one is exported.                                         *)
Texts == {"pair", "lone", "gap", "ring"}
Body(t) == CASE t = "pair" -> << <<"A", "B">>, <<"B", "">> >>
             [] t = "lone" -> << <<"A", "">> >>
             [] t = "gap"  -> << <<"A", "B">> >>               \* B is missing
             [] t = "ring" -> << <<"A", "B">>, <<"B", "A">> >>
Ref(t, x) == LET b == Body(t)
                 S == {i \in DOMAIN b : b[i][1] = x}
             IN  IF S = {} THEN "?" ELSE b[CHOOSE i \in S : TRUE][2]

(* What a text alone gives.                                                  *)
RECURSIVE Walk(_, _, _)
Walk(t, x, seen) == IF x = "" THEN [r |-> "ok", out |-> seen]
                    ELSE IF x \in {seen[i] : i \in DOMAIN seen} THEN [r |-> "cycle", out |-> <<>>]
                    ELSE IF Ref(t, x) = "?" THEN [r |-> "missing", out |-> <<>>]
                    ELSE Walk(t, Ref(t, x), Append(seen, x))
Alone(t) == Walk(t, Body(t)[1][1], <<>>)

VARIABLES
  text, pc, types, path, at, emitted, result,   \* per thread
  gtypes, gpath, gnames,                        \* what a faulty compiler shares
  runs
vars == <<text, pc, types, path, at, emitted, result, gtypes, gpath, gnames, runs>>

Init == /\ text = [h \in Threads |-> ""] /\ pc = [h \in Threads |-> "idle"]
        /\ types = [h \in Threads |-> <<>>] /\ path = [h \in Threads |-> {}]
        /\ at = [h \in Threads |-> ""] /\ emitted = [h \in Threads |-> <<>>]
        /\ result = [h \in Threads |-> [r |-> "", out |-> <<>>]]
        /\ gtypes = <<>> /\ gpath = {} /\ gnames = {} /\ runs = 0

globals == <<gtypes, gpath, gnames>>
(* tables are functions from names to references *)
Add(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Table(h) == IF Shared = "types" THEN gtypes ELSE types[h]
Path(h) == IF Shared = "path" THEN gpath ELSE path[h]

Start(h) == /\ pc[h] = "idle" /\ runs < MaxRuns /\ runs' = runs + 1
            /\ \E t \in Texts : text' = [text EXCEPT ![h] = t]
            /\ pc' = [pc EXCEPT ![h] = "declare"]
            /\ types' = [types EXCEPT ![h] = <<>>] /\ path' = [path EXCEPT ![h] = {}]
            /\ at' = [at EXCEPT ![h] = ""] /\ emitted' = [emitted EXCEPT ![h] = <<>>]
            /\ result' = [result EXCEPT ![h] = [r |-> "", out |-> <<>>]]
            /\ UNCHANGED globals

Declare(h) ==
  /\ pc[h] = "declare"
  /\ LET b == Body(text[h])
         mine == {i \in DOMAIN b : b[i][1] \notin DOMAIN types[h]}
     IN  IF mine = {} THEN /\ pc' = [pc EXCEPT ![h] = "resolve"] /\ at' = [at EXCEPT ![h] = b[1][1]]
                           /\ UNCHANGED <<types, gtypes>>
         ELSE \E i \in mine :
                /\ types' = [types EXCEPT ![h] = Add(@, b[i][1], b[i][2])]
                /\ gtypes' = IF Shared = "types" THEN Add(gtypes, b[i][1], b[i][2]) ELSE gtypes
                /\ UNCHANGED <<pc, at>>
  /\ UNCHANGED <<text, path, emitted, result, gpath, gnames, runs>>

End(h, r, out) == /\ pc' = [pc EXCEPT ![h] = "idle"]
                  /\ result' = [result EXCEPT ![h] = [r |-> r, out |-> out]]

(* one reference is followed; an error leaves the path as it is *)
Resolve(h) ==
  /\ pc[h] = "resolve"
  /\ LET x == at[h]
     IN  IF x = "" THEN /\ End(h, "ok", emitted[h])
                        /\ gpath' = (IF Shared = "path" THEN gpath \ {emitted[h][i] : i \in DOMAIN emitted[h]} ELSE gpath)
                        /\ UNCHANGED <<path, at, emitted, gnames>>
         ELSE IF x \in Path(h) THEN End(h, "cycle", <<>>) /\ UNCHANGED <<path, at, emitted, gpath, gnames>>
         ELSE IF x \notin DOMAIN Table(h) THEN End(h, "missing", <<>>) /\ UNCHANGED <<path, at, emitted, gpath, gnames>>
         ELSE /\ path' = [path EXCEPT ![h] = @ \cup {x}]
              /\ gpath' = IF Shared = "path" THEN gpath \cup {x} ELSE gpath
              \* a compiler which emits each name only once
              /\ emitted' = [emitted EXCEPT ![h] = IF Shared = "names" /\ x \in gnames THEN @ ELSE Append(@, x)]
              /\ gnames' = IF Shared = "names" THEN gnames \cup {x} ELSE gnames
              /\ at' = [at EXCEPT ![h] = Table(h)[x]]
              /\ UNCHANGED <<pc, result>>
  /\ UNCHANGED <<text, types, gtypes, runs>>

Next == \E h \in Threads : Start(h) \/ Declare(h) \/ Resolve(h)
Spec == Init /\ [][Next]_vars /\ \A h \in Threads : WF_vars(Declare(h) \/ Resolve(h))

Independent == \A h \in Threads : result[h].r # "" => result[h] = Alone(text[h])
Ends == \A h \in Threads : pc[h] # "idle" ~> pc[h] = "idle"
=============================================================================
