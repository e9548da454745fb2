-------------------------------- MODULE Args --------------------------------
(* Command lines of the tool. An argument is a string; bytes which are no    *)
(* text are written as in the records of the other modules.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Begins(s, b) == Len(s) >= Len(b) /\ SubSeq(s, 1, Len(b)) = b
Option(a) == Len(a) > 1 /\ Begins(a, "-") /\ a # "--"

Help    == {"-h", "--help"}
Version == {"-V", "--version"}
(* spellings of the requests which a tool may know or not                    *)
Murky(a) == /\ a \notin Help \cup Version
            /\ \E b \in {"-h", "-V", "--help=", "--version=", "---"} : Begins(a, b)

Ts == {"ts", "tS", "Ts", "TS"}

(* What stands before the first -- may be an option, what stands behind it   *)
(* is taken as it is.                                                        *)
Cut(args) == LET D == {k \in DOMAIN args : args[k] = "--"}
             IN  IF D = {} THEN Len(args) + 1 ELSE CHOOSE k \in D : \A l \in D : k <= l
RECURSIVE PlacesFrom(_, _, _)
PlacesFrom(args, cut, k) ==
  IF k > Len(args) THEN <<>>
  ELSE IF k = cut \/ (k < cut /\ Option(args[k])) THEN PlacesFrom(args, cut, k + 1)
  ELSE <<k>> \o PlacesFrom(args, cut, k + 1)
(* where the arguments stand which are no options, and these themselves      *)
Places(args) == PlacesFrom(args, Cut(args), 1)
Plain(args) == LET at == Places(args) IN [k \in DOMAIN at |-> args[at[k]]]
Options(args) == {args[k] : k \in {n \in DOMAIN args : n < Cut(args) /\ Option(args[n])}}

(* What a command line means: "run", "help", "version", "refuse", or "idle"  *)
(* if it asks for something and has something wrong: then it is either       *)
(* answered or refused.                                                      *)
Meanings(args) ==
  LET p    == Plain(args)
      opts == Options(args)
      asks == (IF opts \cap Help # {} THEN {"help"} ELSE {}) \cup (IF opts \cap Version # {} THEN {"version"} ELSE {})
      murky == {o \in opts : Murky(o)}
      odd  == opts \ (Help \cup Version \cup murky)
      off  == odd # {} \/ Len(p) > 3 \/ \E k \in DOMAIN p : p[k] = ""
  IN  IF murky # {} THEN {"help", "version", "refuse"}
      ELSE IF asks # {} THEN asks \cup (IF off THEN {"refuse"} ELSE {})
      ELSE IF off \/ Len(p) < 3 THEN {"refuse"}
      ELSE IF p[1] \notin Ts THEN {"refuse"}
      ELSE {"run"}
=============================================================================
