------------------------------ MODULE MCCrash -------------------------------
(* Runs of the tool which may be interrupted anywhere, also in the middle of *)
(* writing a file, with edits between them. Checked: an interrupted run does *)
(* no harm to anything but its outputs, and the next one which is not        *)
(* interrupted leaves what it would have left without it. Faults are tools   *)
(* which get over an interruption badly.                                     *)
EXTENDS Cli

CONSTANTS MaxEdits, MaxCuts, MaxRuns,
          Fault      \* "none", "append", "skip", "marker" or "clean"

Inner == {"in/a.pkt", "in/s/a.pkt"}
Contents == {"g1", "g2", "bad"}
Res(c) == CASE c = "g1" -> "G1" [] c = "g2" -> "G2" [] OTHER -> Fails
Jobs == {[kind |-> "dir", input |-> "in", out |-> "out"],
         [kind |-> "file", input |-> "in/s/a.pkt", out |-> "out"]}
Part(c) == "begin of " \o c
Marker == "out/.busy"

VARIABLES files,
          pc,       \* "idle", "read", "write", "zero" or "nonzero"
          job, todo, done,
          open,     \* the output being written, or ""
          before,   \* the files when the run began
          ideal,    \* the files there would be if no run had been interrupted
          touched,  \* outputs of interrupted runs
          edits, cuts, runs
vars == <<files, pc, job, todo, done, open, before, ideal, touched, edits, cuts, runs>>
counts == <<edits, cuts, runs>>

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
NoJob == [kind |-> "bad", input |-> "", out |-> ""]

Init == /\ \E D \in SUBSET Inner : files \in [D -> Contents]
        /\ pc = "idle" /\ job = NoJob /\ todo = {} /\ done = <<>> /\ open = ""
        /\ before = files /\ ideal = files /\ touched = {}
        /\ edits = 0 /\ cuts = 0 /\ runs = 0

Rest == pc \in {"idle", "zero", "nonzero"}

Edit == /\ Rest /\ edits < MaxEdits /\ edits' = edits + 1
        /\ \/ \E p \in Inner, c \in Contents : files' = Overlay(files, p :> c) /\ ideal' = Overlay(ideal, p :> c)
           \/ \E p \in Inner \cap DOMAIN files : files' = Without(files, {p}) /\ ideal' = Without(ideal, {p})
        /\ pc' = "idle"
        /\ UNCHANGED <<job, todo, done, open, before, touched, cuts, runs>>

Start == /\ Rest /\ runs < MaxRuns /\ runs' = runs + 1
         /\ \E x \in Jobs :
              /\ job' = x /\ todo' = Inputs(files, x)
              /\ pc' = (IF x.kind = "file" /\ Inputs(files, x) = {} THEN "nonzero"
                        ELSE IF Fault = "marker" /\ Marker \in DOMAIN files THEN "nonzero" ELSE "read")
              /\ files' = (IF Fault = "clean" THEN Without(files, {OutputOf(x, p) : p \in Inputs(files, x)}) ELSE files)
         /\ done' = <<>> /\ open' = "" /\ before' = files
         /\ UNCHANGED <<ideal, touched, edits, cuts>>

Read == /\ pc = "read" /\ todo # {}
        /\ \E p \in todo :
             IF Res(files[p]) = Fails THEN pc' = "nonzero" /\ UNCHANGED <<todo, done>>
             ELSE /\ todo' = todo \ {p} /\ done' = Overlay(done, OutputOf(job, p) :> Res(files[p]))
                  /\ UNCHANGED pc
        /\ UNCHANGED <<files, job, open, before, ideal, touched, counts>>

ToWrite == /\ pc = "read" /\ todo = {} /\ pc' = "write" /\ todo' = DOMAIN done
           /\ files' = (IF Fault = "marker" THEN Overlay(files, Marker :> "x") ELSE files)
           /\ UNCHANGED <<job, done, open, before, ideal, touched, counts>>

(* A file is opened and holds a beginning, then all of it.                   *)
Open == /\ pc = "write" /\ open = "" /\ todo # {}
        /\ \E q \in todo :
             IF Fault = "skip" /\ q \in DOMAIN files THEN todo' = todo \ {q} /\ UNCHANGED <<files, open>>
             ELSE /\ files' = Overlay(files, q :> (IF Fault = "append" /\ q \in DOMAIN files THEN files[q] ELSE Part(done[q])))
                  /\ open' = q /\ UNCHANGED todo
        /\ UNCHANGED <<pc, job, done, before, ideal, touched, counts>>
Fill == /\ pc = "write" /\ open # ""
        /\ files' = Overlay(files, open :> (IF Fault = "append" /\ files[open] # Part(done[open]) THEN files[open] \o done[open]
                                            ELSE done[open]))
        /\ todo' = todo \ {open} /\ open' = ""
        /\ UNCHANGED <<pc, job, done, before, ideal, touched, counts>>
Exit == /\ pc = "write" /\ open = "" /\ todo = {} /\ pc' = "zero"
        /\ files' = Without(files, {Marker})
        /\ ideal' = After(ideal, {}, job, Res)
        /\ UNCHANGED <<job, todo, done, open, before, touched, counts>>

Cut == /\ pc \in {"read", "write"} /\ cuts < MaxCuts /\ cuts' = cuts + 1
       /\ pc' = "idle" /\ open' = ""
       /\ touched' = touched \cup (IF pc = "write" THEN DOMAIN done ELSE {})
       /\ UNCHANGED <<files, job, todo, done, before, ideal, edits, runs>>

Step == Start \/ Read \/ ToWrite \/ Open \/ Fill \/ Exit
Next == Edit \/ Step \/ Cut
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Whenever a run is stopped, this is what there is.                         *)
Harmless ==
  pc \in {"read", "write", "nonzero"} =>
    LET outs == IF Good(before, {}, job, Res) THEN Outputs(before, job, Res) ELSE <<>>
    IN  /\ DOMAIN before \subseteq DOMAIN files
        /\ \A p \in DOMAIN before : \/ files[p] = before[p]
                                    \/ p \in DOMAIN outs /\ files[p] \in {outs[p], Part(outs[p])}
Repaired ==
  pc = "zero" =>
    LET outs == DOMAIN Outputs(before, job, Res)
    IN  /\ \A q \in outs : q \in DOMAIN files /\ q \in DOMAIN ideal /\ files[q] = ideal[q]
        /\ \A p \in DOMAIN ideal \ outs : p \in DOMAIN files /\ (files[p] = ideal[p] \/ p \in touched)
        /\ DOMAIN files \subseteq DOMAIN ideal \cup touched
(* It is the inputs alone which decide how a run ends.                       *)
Decided == /\ pc = "zero" => Good(before, {}, job, Res)
           /\ pc = "nonzero" => ~Good(before, {}, job, Res)
Survives == Harmless /\ Repaired /\ Decided
=============================================================================
