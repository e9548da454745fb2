----------------------------- MODULE MCOverlap ------------------------------
(* Two runs of the tool which overlap with each other and with edits of      *)
(* their inputs. Each step reads one input or writes one output. Checked: a  *)
(* run writes nothing before it has read everything, a failing one nothing   *)
(* at all, and whatever it writes is what compiling a content gives which    *)
(* the input really had while it ran, however the steps mix.                 *)
EXTENDS Cli

CONSTANTS MaxEdits,
          Fault      \* "none", "eager", "twice" or "temp": ways to get it wrong

R == {1, 2}
Inner == {"in/a.pkt", "in/s/a.pkt"}
Contents == {"g1", "g2", "bad"}
Res(c) == CASE c = "g1" -> "G1" [] c = "g2" -> "G2" [] OTHER -> Fails
Jobs == {[kind |-> "dir", input |-> "in", out |-> "out"],
         [kind |-> "dir", input |-> "in/s", out |-> "out"],
         [kind |-> "file", input |-> "in/s/a.pkt", out |-> "out"]}
Temp == "out/.tmp"

VARIABLES files,
          job,      \* what each run is to do
          pc,       \* "new", "read", "write", "zero" or "nonzero"
          todo,     \* inputs to read or outputs to write
          done,     \* what was compiled, by output
          held,     \* by input: the contents it had while the run was on
          stayed,   \* inputs which were there all the time
          wrote,    \* what the run has written, by output
          mid,      \* the output on its way through a temporary file
          edits
vars == <<files, job, pc, todo, done, held, stayed, wrote, mid, edits>>

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Add(f, p, c) == [x \in DOMAIN f \cup {p} |-> IF x # p THEN f[x] ELSE IF p \in DOMAIN f THEN f[p] \cup {c} ELSE {c}]
On(r) == pc[r] \in {"read", "write"}

Init == /\ \E D \in SUBSET Inner : files \in [D -> Contents]
        /\ job \in [R -> Jobs]
        /\ pc = [r \in R |-> "new"] /\ todo = [r \in R |-> {}]
        /\ done = [r \in R |-> <<>>] /\ held = [r \in R |-> <<>>] /\ stayed = [r \in R |-> {}]
        /\ wrote = [r \in R |-> <<>>] /\ mid = [r \in R |-> ""] /\ edits = 0

Start(r) ==
  /\ pc[r] = "new"
  /\ LET I == Inputs(files, job[r])
     IN  /\ todo' = [todo EXCEPT ![r] = I]
         /\ held' = [held EXCEPT ![r] = [p \in I |-> {files[p]}]]
         /\ stayed' = [stayed EXCEPT ![r] = I]
         /\ pc' = [pc EXCEPT ![r] = IF job[r].kind = "file" /\ I = {} THEN "nonzero" ELSE "read"]
  /\ UNCHANGED <<files, job, done, wrote, mid, edits>>

Edit ==
  /\ edits < MaxEdits /\ edits' = edits + 1
  /\ \/ \E p \in Inner, c \in Contents :
          /\ files' = Overlay(files, p :> c)
          /\ held' = [r \in R |-> IF On(r) /\ p \in Inputs(files', job[r]) THEN Add(held[r], p, c) ELSE held[r]]
          /\ UNCHANGED stayed
     \/ \E p \in Inner \cap DOMAIN files :
          /\ files' = Without(files, {p}) /\ stayed' = [r \in R |-> IF On(r) THEN stayed[r] \ {p} ELSE stayed[r]]
          /\ UNCHANGED held
  /\ UNCHANGED <<job, pc, todo, done, wrote, mid>>

(* A directory is listed while it changes: what is new may be seen, what is  *)
(* gone may not.                                                             *)
List(r) ==
  /\ pc[r] = "read" /\ job[r].kind = "dir"
  /\ \/ \E p \in Inputs(files, job[r]) \ todo[r] :
          /\ OutputOf(job[r], p) \notin DOMAIN done[r]
          /\ todo' = [todo EXCEPT ![r] = @ \cup {p}]
     \/ \E p \in todo[r] \ DOMAIN files : todo' = [todo EXCEPT ![r] = @ \ {p}]
  /\ UNCHANGED <<files, job, pc, done, held, stayed, wrote, mid, edits>>

Read(r) ==
  /\ pc[r] = "read"
  /\ \E p \in todo[r] :
       IF p \notin DOMAIN files \/ Res(IF p \in DOMAIN files THEN files[p] ELSE "bad") = Fails
       THEN pc' = [pc EXCEPT ![r] = "nonzero"] /\ UNCHANGED <<files, todo, done, wrote>>
       ELSE LET q == OutputOf(job[r], p)
            IN  /\ todo' = [todo EXCEPT ![r] = @ \ {p}]
                /\ done' = [done EXCEPT ![r] = Overlay(@, q :> Res(files[p]))]
                /\ IF Fault = "eager"
                   THEN /\ files' = Overlay(files, q :> Res(files[p]))
                        /\ wrote' = [wrote EXCEPT ![r] = Overlay(@, q :> Res(files[p]))]
                   ELSE UNCHANGED <<files, wrote>>
                /\ UNCHANGED pc
  /\ UNCHANGED <<job, held, stayed, mid, edits>>

ToWrite(r) == /\ pc[r] = "read" /\ todo[r] = {}
              /\ pc' = [pc EXCEPT ![r] = "write"] /\ todo' = [todo EXCEPT ![r] = DOMAIN done[r]]
              /\ UNCHANGED <<files, job, done, held, stayed, wrote, mid, edits>>

Place(r, q, c) == /\ files' = Overlay(Without(files, {Temp}), q :> c)
                  /\ wrote' = [wrote EXCEPT ![r] = Overlay(@, q :> c)]
                  /\ todo' = [todo EXCEPT ![r] = @ \ {q}]

Write(r) ==
  /\ pc[r] = "write" /\ todo[r] # {}
  /\ CASE Fault = "twice" ->
            \E q \in todo[r] :
              LET P == {p \in Inputs(files, job[r]) : OutputOf(job[r], p) = q /\ Res(files[p]) # Fails}
              IN  IF P = {} THEN pc' = [pc EXCEPT ![r] = "nonzero"] /\ UNCHANGED <<files, wrote, todo, mid>>
                  ELSE Place(r, q, Res(files[CHOOSE p \in P : TRUE])) /\ UNCHANGED <<pc, mid>>
       [] Fault = "temp" ->
            IF mid[r] = ""
            THEN \E q \in todo[r] : /\ files' = Overlay(files, Temp :> done[r][q])
                                    /\ mid' = [mid EXCEPT ![r] = q] /\ UNCHANGED <<pc, wrote, todo>>
            ELSE IF Temp \notin DOMAIN files
            THEN pc' = [pc EXCEPT ![r] = "nonzero"] /\ UNCHANGED <<files, wrote, todo, mid>>
            ELSE Place(r, mid[r], files[Temp]) /\ mid' = [mid EXCEPT ![r] = ""] /\ UNCHANGED pc
       [] OTHER -> \E q \in todo[r] : Place(r, q, done[r][q]) /\ UNCHANGED <<pc, mid>>
  /\ UNCHANGED <<job, done, held, stayed, edits>>

Exit(r) == /\ pc[r] = "write" /\ todo[r] = {}
           /\ pc' = [pc EXCEPT ![r] = "zero"]
           /\ UNCHANGED <<files, job, todo, done, held, stayed, wrote, mid, edits>>

Step(r) == Start(r) \/ Read(r) \/ ToWrite(r) \/ Write(r) \/ Exit(r)
Next == Edit \/ \E r \in R : Step(r) \/ List(r)
Spec == Init /\ [][Next]_vars /\ \A r \in R : WF_vars(Step(r))

-----------------------------------------------------------------------------
NotEarly == \A r \in R : pc[r] = "read" => wrote[r] = <<>>
Nothing  == \A r \in R : pc[r] = "nonzero" => wrote[r] = <<>>
Faithful == \A r \in R : \A q \in DOMAIN wrote[r] :
              \E p \in DOMAIN held[r] : OutputOf(job[r], p) = q /\ \E c \in held[r][p] : Res(c) = wrote[r][q]
Complete == \A r \in R : pc[r] = "zero" => \A p \in stayed[r] : OutputOf(job[r], p) \in DOMAIN wrote[r]
(* Every file is an input or an output some run has written.                 *)
Ours == \A p \in DOMAIN files \ Inner : \E r \in R : p \in DOMAIN wrote[r] /\ files[p] \in {wrote[x][p] : x \in {y \in R : p \in DOMAIN wrote[y]}}
Overlapping == NotEarly /\ Nothing /\ Faithful /\ Complete /\ Ours
Ends == <>(\A r \in R : pc[r] \in {"zero", "nonzero"})
=============================================================================
