------------------------------ MODULE TraceCli ------------------------------
(* Judges recorded histories of edits and runs of the tool. A record is      *)
(* [id, events]; events are                                                  *)
(*   [e |-> "put", path, tok]       a file gets a content                    *)
(*   [e |-> "del", path]            a file is removed                        *)
(*   [e |-> "touch", path]          its time stamp changes, nothing else     *)
(*   [e |-> "lock", path], [e |-> "seal", path], [e |-> "open", path]        *)
(*      a directory becomes locked, read-only or accessible again, or a file *)
(*      read-only or writable again                                          *)
(*   [e |-> "run", run, zero, dirs |-> <<p, ...>>, made |-> <<p, ...>>,      *)
(*    files |-> <<[p, t], ...>>, said, err]                                  *)
(*      the tool ran: whether its exit status was zero, the directories      *)
(*      before and afterwards, all files afterwards, the paths it said it    *)
(*      writes to and the lines of its error output                          *)
(* The table of what each content compiles to was made by the library alone: *)
(* [tok, res, why] with res FAILS if it is refused or no text; for C19 why   *)
(* is [kind, lines, ast]: for texts outside the language the lines of the    *)
(* message, for schemas with defects what they declare.                      *)
EXTENDS Cli, Json, IOUtils

Sch == INSTANCE Schema

Trace == INSTANCE Trace
Log == Trace!Log
Prop == Trace!Prop

Table == ndJsonDeserialize(IOEnv.TABLE)
ResOf == TLCEval([c \in {Table[k].tok : k \in DOMAIN Table} |->
                    Table[CHOOSE k \in DOMAIN Table : Table[k].tok = c].res])
(* whatever is no known input content cannot be compiled                     *)
Res(c) == IF c \in DOMAIN ResOf THEN ResOf[c] ELSE Fails

VARIABLES i, j, files, locked, sealed, good
vars == <<i, j, files, locked, sealed, good>>
Init == i = 1 /\ j = 1 /\ files = <<>> /\ locked = {} /\ sealed = {} /\ good = 0

Ev == Log[i].events[j]
Here == i <= Len(Log) /\ j <= Len(Log[i].events)
Tree(l) == [p \in {l[k].p : k \in DOMAIN l} |-> l[CHOOSE k \in DOMAIN l : l[k].p = p].t]

Reject(why) == /\ Trace!Report(Log[i], "event " \o ToString(j) \o ": " \o why)
               /\ i' = i + 1 /\ j' = 1 /\ files' = <<>> /\ locked' = {} /\ sealed' = {}
               /\ good' = good

Put == /\ Here /\ Ev.e = "put"
       /\ files' = Overlay(files, Ev.path :> Ev.tok) /\ j' = j + 1 /\ UNCHANGED <<i, locked, sealed, good>>
Del == /\ Here /\ Ev.e = "del"
       /\ files' = [p \in DOMAIN files \ {Ev.path} |-> files[p]] /\ sealed' = sealed \ {Ev.path}
       /\ j' = j + 1 /\ UNCHANGED <<i, locked, good>>

Touch == /\ Here /\ Ev.e = "touch"
         /\ j' = j + 1 /\ UNCHANGED <<i, files, locked, sealed, good>>
Doors == /\ Here /\ Ev.e \in {"lock", "seal", "open"}
         /\ locked' = (IF Ev.e = "lock" THEN locked \cup {Ev.path} ELSE locked \ {Ev.path})
         /\ sealed' = (IF Ev.e = "seal" THEN sealed \cup {Ev.path} ELSE sealed \ {Ev.path})
         /\ j' = j + 1 /\ UNCHANGED <<i, files, good>>

(* files which are new, gone or different *)
Changed(a, b) == {p \in DOMAIN a \cup DOMAIN b :
                    \/ p \notin DOMAIN a \/ p \notin DOMAIN b
                    \/ (p \in DOMAIN a /\ p \in DOMAIN b /\ a[p] # b[p])}

Ok   == Good(files, locked, Ev.run, Res)
Want == After(files, locked, Ev.run, Res)
Dirs0 == {Ev.dirs[k] : k \in DOMAIN Ev.dirs}
Dirs1 == {Ev.made[k] : k \in DOMAIN Ev.made}
(* outputs which cannot be written *)
Stuck(outs) == IF Ok THEN Obstructed(files, Dirs0, locked \cup sealed, DOMAIN outs) ELSE {}
Hindered == Stuck(Outputs(files, Ev.run, Res)) # {}

(* directories which outputs need                                            *)
Needed(outs) == {d \in Dirs1 : \/ d = Ev.run.out \/ Under(d, Ev.run.out)
                               \/ \E q \in DOMAIN outs : Under(d, q)}

RunWhy(now) ==
  LET ok   == Ok
      outs == TLCEval(Outputs(files, Ev.run, Res))
      stuck == TLCEval(Stuck(outs))
      hind == stuck # {}
      want == TLCEval(Want)
      ch   == TLCEval(Changed(files, now))
      off  == TLCEval(Changed(want, now))
  IN  CASE Prop = "C12" ->
             (* a file which is as it should be need not be written again,   *)
             (* and a read-only one may be replaced                          *)
             IF hind THEN (IF Ev.zero /\ \E q \in DOMAIN outs : q \notin DOMAIN now \/ now[q] # outs[q] THEN "exit status zero although an output could not be written" ELSE "")
             ELSE IF ok /\ ~Ev.zero THEN "failed although every schema is valid"
             ELSE IF ~ok /\ Ev.zero THEN "exit status zero although it cannot succeed"
             ELSE IF ~ok /\ ch # {} THEN "failed but changed " \o ToString(ch)
             ELSE IF ~ok /\ Dirs0 # Dirs1 THEN "failed but made or removed directories"
             ELSE IF ok /\ DOMAIN outs \ DOMAIN now # {} THEN "did not write " \o ToString(DOMAIN outs \ DOMAIN now)
             ELSE IF ok /\ \E q \in DOMAIN outs : q \notin ch /\ now[q] # outs[q]
                  THEN "left old outputs in place"
             ELSE ""
        [] Prop = "C13" ->
             IF ~ok \/ ~Ev.zero \/ hind THEN ""
             ELSE IF DOMAIN outs \ DOMAIN now # {} THEN "no output at " \o ToString(DOMAIN outs \ DOMAIN now)
             ELSE IF ch \ DOMAIN outs # {} THEN "created or changed " \o ToString(ch \ DOMAIN outs)
             ELSE IF (Dirs1 \ Dirs0) \ Needed(outs) # {}
                  THEN "created directories no output needs: " \o ToString((Dirs1 \ Dirs0) \ Needed(outs))
             ELSE IF \E q \in DOMAIN outs : now[q] # outs[q]
                  THEN "not what compiling alone gives: " \o ToString({q \in DOMAIN outs : now[q] # outs[q]})
             ELSE ""
        [] Prop = "C14" ->
             IF hind THEN (LET bad == ch \cap off \cap (DOMAIN files \cup DOMAIN outs)
                           IN  IF bad # {} THEN "neither old nor new: " \o ToString(bad)
                               ELSE IF Ev.zero /\ off # {} THEN "still old after a run which succeeded: " \o ToString(off)
                               ELSE "")
             ELSE IF Dirs0 \ Dirs1 # {} THEN "removed directories: " \o ToString(Dirs0 \ Dirs1)
             ELSE IF off = {} THEN "" ELSE "wrong after this run: " \o ToString(off)

(* C19: what is reported is what was done.                                   *)
Reason == TLCEval([c \in {Table[k].tok : k \in DOMAIN Table} |->
                     Table[CHOOSE k \in DOMAIN Table : Table[k].tok = c].why])
(* Whether lines stand in a text, one after another.                         *)
Within(ls, text) == \E k \in 0..(Len(text) - Len(ls)) : \A n \in DOMAIN ls : text[k + n] = ls[n]
Explains(err, c) ==
  LET y == Reason[c]
  IN  CASE y.kind = "parse" -> Within(y.lines, err)
        [] y.kind = "check" -> LET msgs == Sch!Messages(y.ast)
                               IN  \E k \in DOMAIN err : err[k] \in msgs
        [] OTHER -> err # <<>>
ReportWhy ==
  LET ok   == Ok
      outs == TLCEval(DOMAIN Outputs(files, Ev.run, Res))
      said == {Ev.said[k] : k \in DOMAIN Ev.said}
      bad  == {p \in Inputs(files, Ev.run) : Res(files[p]) = Fails}
      shut == \E d \in locked : d = Ev.run.input \/ Under(d, Ev.run.input) \/ Under(Ev.run.input, d)
  IN  IF Len(Ev.said) # Cardinality(said) THEN "names an output twice: " \o ToString(Ev.said)
      ELSE IF said \ outs # {} THEN "says it writes to " \o ToString(said \ outs) \o ", which are no outputs"
      ELSE IF ok /\ Ev.zero /\ outs \ said # {} THEN "does not name its outputs " \o ToString(outs \ said)
      ELSE IF ~ok /\ said # {} THEN "says it writes although it cannot succeed"
      ELSE IF ~Ev.zero /\ Ev.err = <<>> THEN "failed without a word"
      ELSE IF ~Ev.zero /\ ~ok /\ bad # {} /\ ~shut /\ Ev.run.kind # "bad"
              /\ \A p \in bad : files[p] \notin DOMAIN Reason \/ ~Explains(Ev.err, files[p])
           THEN "says " \o ToString(Ev.err) \o ", which is wrong with none of " \o ToString(bad)
      ELSE ""

Run == /\ Here /\ Ev.e = "run"
       /\ LET now == TLCEval(Tree(Ev.files))
              w == IF Prop = "C19" THEN ReportWhy ELSE RunWhy(now)
          IN  IF w # "" THEN Reject(w)
              ELSE /\ files' = (IF Prop = "C14" /\ ~Hindered THEN Want ELSE now)
                   /\ j' = j + 1 /\ UNCHANGED <<i, locked, sealed, good>>

Passed == /\ i <= Len(Log) /\ j > Len(Log[i].events)
          /\ i' = i + 1 /\ j' = 1 /\ files' = <<>> /\ locked' = {} /\ sealed' = {}
          /\ good' = good + 1
Finish == i = Len(Log) + 1 /\ Trace!Summary(good) /\ i' = i + 1 /\ UNCHANGED <<j, files, locked, sealed, good>>
Next == Put \/ Del \/ Touch \/ Doors \/ Run \/ Passed \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
