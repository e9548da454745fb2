----------------------------- MODULE TraceArgs ------------------------------
(* Judges what the tool did with command lines (C23). A record is            *)
(*   [id, args, paths, zero, out, err, put |-> <<[p, t], ...>>,              *)
(*    gone |-> <<p, ...>>, made |-> <<d, ...>>]                              *)
(* with each argument also as the path which it would be, seen from the top, *)
(* the numbers of lines on its output and error output, and the files   *)
(* and directories which are new, different or gone afterwards. Before, the  *)
(* files were those of the table TREE, whose directories are the ones above  *)
(* the files; RESULTS says what each content compiles to.                    *)
EXTENDS Args, Json, IOUtils

Cli == INSTANCE Cli
Trace == INSTANCE Trace
Log == Trace!Log

Tree == ndJsonDeserialize(IOEnv.TREE)
Files == TLCEval([p \in {Tree[k].p : k \in DOMAIN Tree} |-> Tree[CHOOSE k \in DOMAIN Tree : Tree[k].p = p].t])
Dirs == TLCEval(UNION {{SubSeq(p, 1, n - 1) : n \in {m \in 1..Len(p) : SubSeq(p, m, m) = "/"}} : p \in DOMAIN Files})
Table == ndJsonDeserialize(IOEnv.RESULTS)
ResOf == TLCEval([c \in {Table[k].tok : k \in DOMAIN Table} |-> Table[CHOOSE k \in DOMAIN Table : Table[k].tok = c].res])
Res(c) == IF c \in DOMAIN ResOf THEN ResOf[c] ELSE Cli!Fails

VARIABLES i, good
vars == <<i, good>>
Init == i = 1 /\ good = 0

R == Log[i]
Untouched == R.put = <<>> /\ R.gone = <<>> /\ R.made = <<>>
Put == [p \in {R.put[k].p : k \in DOMAIN R.put} |-> R.put[CHOOSE k \in DOMAIN R.put : R.put[k].p = p].t]
Run == LET at == Places(R.args)
           p  == R.paths[at[2]]
       IN  [kind |-> IF p \in Dirs \cup {""} THEN "dir" ELSE IF p \in DOMAIN Files THEN "file" ELSE "bad",
            input |-> p, out |-> R.paths[at[3]]]
Outs == Cli!Outputs(Files, Run, Res)
Able == /\ Cli!Good(Files, {}, Run, Res)
        /\ Cli!Obstructed(Files, Dirs, {}, DOMAIN Outs) = {}
Needed(d) == \/ d = Run.out \/ Cli!Under(d, Run.out)
             \/ \E q \in DOMAIN Outs : Cli!Under(d, q)
(* the outputs which are not as they should be before the run *)
Fresh == {q \in DOMAIN Outs : q \notin DOMAIN Files \/ Files[q] # Outs[q]}

Answered == R.zero /\ Untouched /\ R.err = 0
Ends(m) ==
  CASE m = "help"    -> Answered /\ R.out > 1
    [] m = "version" -> Answered /\ R.out = 1
    [] m = "refuse"  -> ~R.zero /\ R.err > 0 /\ Untouched
    [] m = "run"     -> IF Able THEN /\ R.zero /\ R.gone = <<>>
                                     /\ \A k \in DOMAIN R.made : Needed(R.made[k])
                                     /\ DOMAIN Put = Fresh /\ \A q \in Fresh : Put[q] = Outs[q]
                        ELSE ~R.zero /\ R.err > 0 /\ (Cli!Good(Files, {}, Run, Res) \/ Untouched)
Did == "status " \o (IF R.zero THEN "zero" ELSE "non-zero") \o ", " \o ToString(R.out) \o " and " \o ToString(R.err)
         \o " lines of output and errors, wrote " \o ToString(IF R.put = <<>> THEN {} ELSE DOMAIN Put)
         \o ", removed " \o ToString(R.gone) \o ", made " \o ToString(R.made)

Judge == /\ i <= Len(Log)
         /\ IF \E m \in Meanings(R.args) : Ends(m) THEN good' = good + 1
            ELSE /\ Trace!Report(R, ToString(R.args) \o " means " \o ToString(Meanings(R.args)) \o " but: " \o Did)
                 /\ good' = good
         /\ i' = i + 1
Finish == i = Len(Log) + 1 /\ Trace!Summary(good) /\ i' = i + 1 /\ UNCHANGED good
Next == Judge \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
