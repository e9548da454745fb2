----------------------------- MODULE TraceCrash -----------------------------
(* Judges runs of the tool which are interrupted (C22). A record is          *)
(* [id, events]; events are                                                  *)
(*   [e |-> "put", path, tok], [e |-> "del", path]   edits                   *)
(*   [e |-> "cut", run, how, ended, files]   a run, interrupted; it was      *)
(*       "killed" or ended by itself with status "zero" or "nonzero"; how is *)
(*       "kill", or "limit" if it was kept from writing                      *)
(*   [e |-> "run", run, zero, files]         a run which was let finish      *)
(* A file is [p, t, of]: its content and, if it is none of the known ones,   *)
(* the results of the inputs of which it is a beginning.                     *)
EXTENDS Cli, Json, IOUtils

Trace == INSTANCE Trace
Log == Trace!Log

Table == ndJsonDeserialize(IOEnv.TABLE)
ResOf == TLCEval([c \in {Table[k].tok : k \in DOMAIN Table} |->
                    Table[CHOOSE k \in DOMAIN Table : Table[k].tok = c].res])
Res(c) == IF c \in DOMAIN ResOf THEN ResOf[c] ELSE Fails

VARIABLES i, j, files,
          left,     \* what interrupted runs left lying: later ones may do with it what they like
          good
vars == <<i, j, files, left, good>>
Init == i = 1 /\ j = 1 /\ files = <<>> /\ left = {} /\ good = 0

Ev == Log[i].events[j]
Here == i <= Len(Log) /\ j <= Len(Log[i].events)
At(l, p) == l[CHOOSE k \in DOMAIN l : l[k].p = p]
Tree(l) == [p \in {l[k].p : k \in DOMAIN l} |-> At(l, p).t]
Begins(l, p) == LET b == At(l, p).of IN {b[k] : k \in DOMAIN b}
Reject(why) == /\ Trace!Report(Log[i], "event " \o ToString(j) \o ": " \o why)
               /\ i' = i + 1 /\ j' = 1 /\ files' = <<>> /\ left' = {} /\ good' = good
Next1 == j' = j + 1 /\ UNCHANGED <<i, good>>

Changed(a, b) == {p \in DOMAIN a \cup DOMAIN b :
                    \/ p \notin DOMAIN a \/ p \notin DOMAIN b
                    \/ (p \in DOMAIN a /\ p \in DOMAIN b /\ a[p] # b[p])}

Put == /\ Here /\ Ev.e = "put" /\ files' = Overlay(files, Ev.path :> Ev.tok) /\ left' = left \ {Ev.path} /\ Next1
Del == /\ Here /\ Ev.e = "del" /\ files' = [x \in DOMAIN files \ {Ev.path} |-> files[x]] /\ UNCHANGED left /\ Next1

CutWhy(now) ==
  LET ok   == Good(files, {}, Ev.run, Res)
      outs == IF ok THEN TLCEval(Outputs(files, Ev.run, Res)) ELSE <<>>
      ch   == TLCEval(Changed(files, now) \ left)
      gone == DOMAIN files \ (DOMAIN now \cup left)
      \* new files which are no outputs may be left lying by a run which was stopped
      harm == {p \in ch : p \in DOMAIN files /\ p \notin DOMAIN outs}
      off  == {q \in ch \cap DOMAIN outs : now[q] # outs[q] /\ outs[q] \notin Begins(Ev.files, q)}
      full == \A q \in DOMAIN outs : q \in DOMAIN now /\ now[q] = outs[q]
  IN  IF gone # {} THEN "an interrupted run removed " \o ToString(gone)
      ELSE IF ~ok /\ ch # {} THEN "a run which cannot succeed was interrupted and had changed " \o ToString(ch)
      ELSE IF harm # {} THEN "an interrupted run changed " \o ToString(harm)
      ELSE IF off # {} THEN "an interrupted run left neither the old nor a beginning of the new content: " \o ToString(off)
      ELSE IF Ev.ended = "zero" /\ ~ok THEN "exit status zero although an input is not valid"
      ELSE IF Ev.ended = "zero" /\ ~full THEN "exit status zero although not everything is written"
      ELSE IF Ev.ended = "zero" /\ ch \ DOMAIN outs # {} THEN "created " \o ToString(ch \ DOMAIN outs)
      ELSE IF Ev.ended = "nonzero" /\ ok /\ Ev.how # "limit" THEN "failed although nothing was in its way"
      ELSE ""
Cut == /\ Here /\ Ev.e = "cut"
       /\ LET now == TLCEval(Tree(Ev.files))
              w == CutWhy(now)
              outs == DOMAIN Outputs(files, Ev.run, Res)
          IN  IF w # "" THEN Reject(w)
              ELSE files' = now /\ left' = (left \cup (DOMAIN now \ DOMAIN files)) \ outs /\ Next1

Run == /\ Here /\ Ev.e = "run"
       /\ LET now == TLCEval(Tree(Ev.files))
              ok  == Good(files, {}, Ev.run, Res)
              outs == IF ok THEN DOMAIN Outputs(files, Ev.run, Res) ELSE {}
              ch  == Changed(After(files, {}, Ev.run, Res), now) \ (left \ outs)
          IN  IF ok # Ev.zero THEN Reject(IF ok THEN "failed although every input is valid"
                                          ELSE "exit status zero although an input is not valid")
              ELSE IF ch # {} THEN Reject("after an interruption a whole run leaves something else at " \o ToString(ch))
              ELSE files' = now /\ left' = left \ outs /\ Next1

Passed == /\ i <= Len(Log) /\ j > Len(Log[i].events)
          /\ i' = i + 1 /\ j' = 1 /\ files' = <<>> /\ left' = {} /\ good' = good + 1
Finish == i = Len(Log) + 1 /\ Trace!Summary(good) /\ i' = i + 1 /\ UNCHANGED <<j, files, left, good>>
Next == Put \/ Del \/ Cut \/ Run \/ Passed \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
