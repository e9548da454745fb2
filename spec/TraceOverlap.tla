---------------------------- MODULE TraceOverlap ----------------------------
(* Judges runs of the tool which overlap with each other and with edits      *)
(* (C20). Some inputs are pipes: a run stops at each of them until it is fed,*)
(* so that the recorded schedule is the real one and only one run moves at a *)
(* time. A record is [id, events]; events are                                *)
(*   [e |-> "put", path, tok], [e |-> "del", path]   edits                   *)
(*   [e |-> "start", r, run]                 run r begins                    *)
(*   [e |-> "at", r, path, files]            it waits at a pipe; the tree    *)
(*   [e |-> "feed", r, path, tok]            the pipe gives this content and *)
(*                                           is a file with it from now on   *)
(*   [e |-> "end", r, zero, files]           it ended; the tree afterwards   *)
(* A pipe stands in the tree with the content PIPE. Whether pipes count as   *)
(* inputs is left open: one which a run never opens is none.                 *)
EXTENDS Cli, Json, IOUtils

Trace == INSTANCE Trace
Log == Trace!Log

Table == ndJsonDeserialize(IOEnv.TABLE)
ResOf == TLCEval([c \in {Table[k].tok : k \in DOMAIN Table} |->
                    Table[CHOOSE k \in DOMAIN Table : Table[k].tok = c].res])
Res(c) == IF c \in DOMAIN ResOf THEN ResOf[c] ELSE Fails

VARIABLES i, j, files, on, good
vars == <<i, j, files, on, good>>
Init == i = 1 /\ j = 1 /\ files = <<>> /\ on = <<>> /\ good = 0

Ev == Log[i].events[j]
Here == i <= Len(Log) /\ j <= Len(Log[i].events)
Tree(l) == [p \in {l[k].p : k \in DOMAIN l} |-> l[CHOOSE k \in DOMAIN l : l[k].p = p].t]
Reject(why) == /\ Trace!Report(Log[i], "event " \o ToString(j) \o ": " \o why)
               /\ i' = i + 1 /\ j' = 1 /\ files' = <<>> /\ on' = <<>> /\ good' = good
Next1 == j' = j + 1 /\ UNCHANGED <<i, good>>

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Add(f, p, c) == [x \in DOMAIN f \cup {p} |-> IF x # p THEN f[x] ELSE IF p \in DOMAIN f THEN f[p] \cup {c} ELSE {c}]
Changed(a, b) == {p \in DOMAIN a \cup DOMAIN b :
                    \/ p \notin DOMAIN a \/ p \notin DOMAIN b
                    \/ (p \in DOMAIN a /\ p \in DOMAIN b /\ a[p] # b[p])}

(* Each run in progress: what it is to do, the contents its inputs had since *)
(* it began, the inputs which were there all the time, and those gone.       *)
Put == /\ Here /\ Ev.e = "put"
       /\ LET new == TLCEval(Overlay(files, Ev.path :> Ev.tok))
          IN  /\ files' = new
              /\ on' = [r \in DOMAIN on |->
                          IF Ev.tok # "PIPE" /\ Ev.path \in Inputs(new, on[r].run)
                          THEN [on[r] EXCEPT !.held = Add(@, Ev.path, Ev.tok)] ELSE on[r]]
       /\ Next1
Del == /\ Here /\ Ev.e = "del"
       /\ files' = Without(files, {Ev.path})
       /\ on' = [r \in DOMAIN on |->
                   IF Ev.path \in Inputs(files, on[r].run)
                   THEN [on[r] EXCEPT !.stayed = @ \ {Ev.path}, !.gone = TRUE] ELSE on[r]]
       /\ Next1

Start == /\ Here /\ Ev.e = "start"
         /\ LET I == {p \in Inputs(files, Ev.run) : files[p] # "PIPE"}
                x == [run |-> Ev.run, held |-> [p \in I |-> {files[p]}], stayed |-> I, gone |-> FALSE]
            IN  on' = [r \in DOMAIN on \cup {Ev.r} |-> IF r = Ev.r THEN x ELSE on[r]]
         /\ UNCHANGED files /\ Next1

At == /\ Here /\ Ev.e = "at"
      /\ LET ch == Changed(files, Tree(Ev.files))
         IN  IF ch # {} THEN Reject("changed " \o ToString(ch) \o " before it had read everything")
             ELSE UNCHANGED <<files, on>> /\ Next1

Feed == /\ Here /\ Ev.e = "feed"
        /\ on' = [on EXCEPT ![Ev.r].held = Add(@, Ev.path, Ev.tok), ![Ev.r].stayed = @ \cup {Ev.path}]
        /\ files' = Overlay(files, Ev.path :> Ev.tok) /\ Next1

EndWhy(x, now) ==
  LET ch   == TLCEval(Changed(files, now))
      outs == TLCEval({OutputOf(x.run, p) : p \in DOMAIN x.held})
      \* what an output may be
      may(q) == {Res(c) : c \in UNION {x.held[p] : p \in {s \in DOMAIN x.held : OutputOf(x.run, s) = q}}} \ {Fails}
      must == {OutputOf(x.run, p) : p \in x.stayed}
      dead == {p \in x.stayed : \A c \in x.held[p] : Res(c) = Fails}
      risk == x.gone \/ \E p \in DOMAIN x.held : \E c \in x.held[p] : Res(c) = Fails
  IN  IF Ev.zero
      THEN IF dead # {} THEN "exit status zero although an input was never valid: " \o ToString(dead)
           ELSE IF x.run.kind = "file" /\ x.held = <<>> THEN "exit status zero without its input"
           ELSE IF ch \ outs # {} THEN "created or changed " \o ToString(ch \ outs)
           ELSE IF must \ DOMAIN now # {} THEN "did not write " \o ToString(must \ DOMAIN now)
           ELSE LET off == {q \in must \cup ch : q \notin DOMAIN now \/ now[q] \notin may(q)}
                IN  IF off = {} THEN ""
                    ELSE "wrote what no content of the input gives: " \o ToString(off)
      ELSE IF ~risk THEN "failed although every input was valid all the time"
      ELSE IF ch # {} THEN "failed but changed " \o ToString(ch)
      ELSE ""

End == /\ Here /\ Ev.e = "end"
       /\ LET now == TLCEval(Tree(Ev.files))
              w == EndWhy(on[Ev.r], now)
          IN  IF w # "" THEN Reject(w)
              ELSE files' = now /\ on' = Without(on, {Ev.r}) /\ Next1

Passed == /\ i <= Len(Log) /\ j > Len(Log[i].events)
          /\ IF DOMAIN on # {} THEN Reject("a run never ended")
             ELSE i' = i + 1 /\ j' = 1 /\ files' = <<>> /\ on' = <<>> /\ good' = good + 1
Finish == i = Len(Log) + 1 /\ Trace!Summary(good) /\ i' = i + 1 /\ UNCHANGED <<j, files, on, good>>
Next == Put \/ Del \/ Start \/ At \/ Feed \/ End \/ Passed \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
