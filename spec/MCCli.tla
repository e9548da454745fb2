-------------------------------- MODULE MCCli -------------------------------
(* The tool step by step, one file read or written at a time, between        *)
(* arbitrary edits of the inputs. Checked: what it leaves behind at the end  *)
(* of each run is what Cli.tla says, runs are all or nothing, and over any   *)
(* history each output is that of the last good run which covered it. A      *)
(* directory of inputs may be locked, the output directory read-only or one  *)
(* of the outputs in it.                                                     *)
EXTENDS Cli

CONSTANTS MaxOps,    \* edits and runs in a history
          Eager,     \* TRUE: writes each output as soon as it is compiled
          Lenient    \* TRUE: passes over outputs which are read-only

Inner == {"in/a.pkt", "in/s/b.c.pkt", "in/n.txt"}
Contents == {"g1", "g2", "bad"}
Res(c) == CASE c = "g1" -> "G1" [] c = "g2" -> "G2" [] OTHER -> Fails

Runs == {[kind |-> "dir", input |-> "in", out |-> "out"],
         [kind |-> "dir", input |-> "in", out |-> "in"],
         [kind |-> "dir", input |-> "in/s", out |-> "out"],
         [kind |-> "file", input |-> "in/s/b.c.pkt", out |-> "out"],
         [kind |-> "file", input |-> "in/a.pkt", out |-> ""],
         [kind |-> "bad", input |-> "none", out |-> "out"]}

VARIABLES files, locked, sealed, pc, run, todo, done, before, status, ops, last
doors == <<locked, sealed>>
vars == <<files, locked, sealed, pc, run, todo, done, before, status, ops, last>>

NoRun == [kind |-> "bad", input |-> "", out |-> ""]
Init == /\ \E D \in SUBSET Inner : files \in [D \cup {"out/other.txt"} -> Contents]
        /\ locked = {} /\ sealed = {}
        /\ pc = "idle" /\ run = NoRun /\ todo = {} /\ done = <<>>
        /\ before = files /\ status = "" /\ ops = 0
        /\ last = <<>>        \* output path -> content of the last good run covering it

Edit == /\ pc = "idle" /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E p \in Inner, c \in Contents : files' = Overlay(files, p :> c)
           \/ \E p \in Inner \cap DOMAIN files : files' = [q \in DOMAIN files \ {p} |-> files[q]]
        /\ status' = "" /\ UNCHANGED <<doors, pc, run, todo, done, before, last>>

Doors == /\ pc = "idle" /\ ops < MaxOps /\ ops' = ops + 1
         /\ \/ locked' = {"in/s"} \ locked /\ UNCHANGED sealed
            \/ \E d \in {"out"} \cup ({"out/a.ts"} \cap DOMAIN files) :
                  /\ sealed' = (IF d \in sealed THEN sealed \ {d} ELSE sealed \cup {d})
                  /\ UNCHANGED locked
         /\ status' = "" /\ UNCHANGED <<files, pc, run, todo, done, before, last>>

Start == /\ pc = "idle" /\ ops < MaxOps /\ ops' = ops + 1
         /\ \E r \in Runs : run' = r
         /\ todo' = {p \in Inputs(files, run') : \A d \in locked : ~Under(d, p)}
         /\ before' = files /\ done' = <<>> /\ status' = ""
         /\ pc' = (IF run'.kind = "bad" \/ (run'.kind = "file" /\ todo' = {}) THEN "fail" ELSE "compile")
         /\ UNCHANGED <<files, doors, last>>

(* inputs are read in no particular order *)
Compile == /\ pc = "compile" /\ todo # {}
           /\ \E p \in todo :
                /\ todo' = todo \ {p}
                /\ IF Res(files[p]) = Fails THEN pc' = "fail" /\ UNCHANGED <<done, files>>
                   ELSE /\ done' = Overlay(done, OutputOf(run, p) :> Res(files[p]))
                        /\ files' = (IF Eager THEN Overlay(files, OutputOf(run, p) :> Res(files[p])) ELSE files)
                        /\ UNCHANGED pc
           /\ UNCHANGED <<doors, run, before, status, ops, last>>

(* a directory which is to be searched turns out to be locked *)
Denied == /\ pc = "compile" /\ run.kind = "dir"
          /\ \E d \in locked : Under(run.input, d) \/ run.input = d
          /\ pc' = "fail" /\ UNCHANGED <<files, doors, run, todo, done, before, status, ops, last>>

ToWrite == /\ pc = "compile" /\ todo = {} /\ ~ENABLED Denied /\ pc' = "write" /\ todo' = DOMAIN done
           /\ UNCHANGED <<files, doors, run, done, before, status, ops, last>>

(* the first output which cannot be written ends the run *)
Write == /\ pc = "write" /\ todo # {}
         /\ \E q \in todo :
              IF Lenient /\ q \in sealed THEN todo' = todo \ {q} /\ UNCHANGED <<files, pc>>
              ELSE IF Obstructed(files, {}, locked \cup sealed, DOMAIN done) \cap {q} # {}
              THEN pc' = "fail" /\ UNCHANGED <<files, todo>>
              ELSE files' = Overlay(files, q :> done[q]) /\ todo' = todo \ {q} /\ UNCHANGED pc
         /\ UNCHANGED <<doors, run, done, before, status, ops, last>>

Exit == /\ \/ pc = "write" /\ todo = {} /\ status' = "zero" /\ last' = Overlay(last, done)
           \/ /\ pc = "fail" /\ status' = "nonzero"
              /\ last' = [q \in {x \in DOMAIN last : x \notin DOMAIN files \/ files[x] = last[x]} |-> last[q]]
        /\ pc' = "idle" /\ todo' = {}
        /\ UNCHANGED <<files, doors, run, done, before, ops>>

Next == Edit \/ Doors \/ Start \/ Compile \/ Denied \/ ToWrite \/ Write \/ Exit
Spec == Init /\ [][Next]_vars /\ WF_vars(Compile \/ Denied \/ ToWrite \/ Write \/ Exit)

Fine == Good(before, locked, run, Res)
Hindered == Fine /\ Obstructed(before, {}, locked \cup sealed, DOMAIN Outputs(before, run, Res)) # {}
(* C12 *)
AllOrNothing == /\ status = "nonzero" /\ ~Hindered => files = before
                /\ status = "zero" => /\ Fine /\ ~Hindered
                                      /\ \A q \in DOMAIN Outputs(before, run, Res) : q \in DOMAIN files
                /\ pc = "idle" /\ status # "" /\ Fine /\ ~Hindered => status = "zero"
(* C13 *)
Mirrored == status # "" /\ ~Hindered => files = After(before, locked, run, Res)
(* C14 *)
OnlyOutputs == {p \in DOMAIN files : p \in Inner} = {p \in DOMAIN before : p \in Inner} \/ status = ""
OldOrNew == status # "" => LET want == After(before, locked, run, Res)
                           IN  \A p \in DOMAIN files : \/ p \in DOMAIN before /\ files[p] = before[p]
                                                       \/ p \in DOMAIN want /\ files[p] = want[p]
History == pc = "idle" => \A q \in DOMAIN last : q \in DOMAIN files /\ files[q] = last[q]
Untouched == files["out/other.txt"] \in Contents
             /\ (pc # "idle" => files["out/other.txt"] = before["out/other.txt"])
(* every run ends *)
Ends == pc # "idle" ~> pc = "idle"
=============================================================================
