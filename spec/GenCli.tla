------------------------------- MODULE GenCli -------------------------------
(* Writes out histories of MCCli: files, a run, an edit, another run.        *)
EXTENDS MCCli, Json, IOUtils, SequencesExt

Num(t) == CHOOSE n \in 0..100000 : ToString(n) = t
Edits == {[e |-> "put", path |-> p, tok |-> c] : p \in Inner, c \in Contents}
         \cup {[e |-> "del", path |-> p, tok |-> ""] : p \in Inner}
         \cup {[e |-> "lock", path |-> "in/s", tok |-> ""], [e |-> "seal", path |-> "out", tok |-> ""],
               [e |-> "seal", path |-> "out/a.ts", tok |-> ""]}
Pairs(f) == [k \in 1..Cardinality(DOMAIN f) |->
               LET s == SetToSeq(DOMAIN f) IN [p |-> s[k], t |-> f[s[k]]]]
Trees == UNION {[D -> Contents] : D \in SUBSET Inner}

Written ==
  LET ts == SetToSeq(Trees)
      rs == SetToSeq(Runs)
      es == SetToSeq(Edits)
      total == Len(ts) * Len(rs) * Len(es) * Len(rs)
      st == Num(IOEnv.STRIDE)
      ph == Num(IOEnv.PHASE)
      n  == (total + st - 1 - ph) \div st
      nth(m) == [files |-> Pairs(ts[(m % Len(ts)) + 1]),
                 first |-> rs[((m \div Len(ts)) % Len(rs)) + 1],
                 edit  |-> es[((m \div (Len(ts) * Len(rs))) % Len(es)) + 1],
                 then  |-> rs[((m \div (Len(ts) * Len(rs) * Len(es))) % Len(rs)) + 1]]
  IN  ndJsonSerialize(IOEnv.OUT, [k \in 1..n |-> nth((k - 1) * st + ph)])

ASSUME Written
GenInit == /\ files = <<>> /\ locked = {} /\ sealed = {} /\ pc = "generated" /\ run = NoRun /\ todo = {} /\ done = <<>> /\ before = <<>>
           /\ status = "" /\ ops = 0 /\ last = <<>>
GenNext == UNCHANGED vars
=============================================================================
