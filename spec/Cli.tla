-------------------------------- MODULE Cli ---------------------------------
(* The command line tool as a machine over a tree of files. files maps paths *)
(* to contents; contents are opaque tokens. Result(c) says what compiling a  *)
(* content gives: a content, or Fails.                                       *)
(*                                                                           *)
(* Some directories may be locked (nothing below them can be read or         *)
(* written) or read-only, and so may single files be read-only.              *)
(*                                                                           *)
(* A run is given by [kind, input, out]: the input is a "dir", a "file" or   *)
(* something which cannot work ("bad": it does not exist, or the arguments   *)
(* are wrong). Paths are relative to the scratch directory; the directory    *)
(* itself is "".                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fails == "FAILS"

Suffix(s, k) == SubSeq(s, Len(s) - k + 1, Len(s))
EndsWith(s, e) == Len(s) >= Len(e) /\ Suffix(s, Len(e)) = e
StartsWith(s, b) == Len(s) >= Len(b) /\ SubSeq(s, 1, Len(b)) = b

Char(s, i) == SubSeq(s, i, i)
(* Position of the last c in s, or 0.                                        *)
LastOf(s, c) == LET P == {i \in 1..Len(s) : Char(s, i) = c}
                IN  IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : j <= i

BaseName(p) == SubSeq(p, LastOf(p, "/") + 1, Len(p))
Under(dir, p) == dir = "" \/ StartsWith(p, dir \o "/")
Relative(dir, p) == IF dir = "" THEN p ELSE SubSeq(p, Len(dir) + 2, Len(p))
Below(dir, p) == IF dir = "" THEN p ELSE dir \o "/" \o p

(* The last extension of a path replaced by .ts; a leading dot of the name   *)
(* does not start an extension.                                              *)
WithTs(p) == LET d == LastOf(p, ".")
                 s == LastOf(p, "/")
             IN  IF d > s + 1 THEN SubSeq(p, 1, d - 1) \o ".ts" ELSE p \o ".ts"

(* Input files of a run.                                                     *)
Inputs(files, run) ==
  CASE run.kind = "dir"  -> {p \in DOMAIN files : Under(run.input, p) /\ EndsWith(p, ".pkt")}
    [] run.kind = "file" -> {run.input} \cap DOMAIN files
    [] run.kind = "bad"  -> {}

(* Where the output of an input file goes.                                   *)
OutputOf(run, p) == IF run.kind = "dir" THEN Below(run.out, WithTs(Relative(run.input, p)))
                    ELSE Below(run.out, WithTs(BaseName(p)))

(* Whether the inputs of a run allow it to succeed.                          *)
Good(files, locked, run, Result(_)) ==
  /\ run.kind # "bad"
  /\ run.kind = "file" => run.input \in DOMAIN files
  /\ \A d \in locked : /\ run.input # d /\ ~Under(d, run.input)
                       /\ run.kind = "dir" => ~Under(run.input, d)
  /\ \A p \in Inputs(files, run) : Result(files[p]) # Fails

Outputs(files, run, Result(_)) ==
  [q \in {OutputOf(run, p) : p \in Inputs(files, run)} |->
     Result(files[CHOOSE p \in Inputs(files, run) : OutputOf(run, p) = q])]

Overlay(files, new) == [p \in DOMAIN files \cup DOMAIN new |-> IF p \in DOMAIN new THEN new[p] ELSE files[p]]

(* Outputs which cannot be written: closed themselves, below a closed        *)
(* directory or a file, or where a directory is. dirs are the directories    *)
(* there are.                                                                *)
Obstructed(files, dirs, closed, outs) ==
  {q \in outs : \/ q \in dirs
                \/ \E d \in closed : d = q \/ Under(d, q)
                \/ \E p \in DOMAIN files \cup outs : StartsWith(q, p \o "/")
                \/ \E p \in outs : StartsWith(p, q \o "/")}

(* The files after a run which nothing hinders.                              *)
After(files, locked, run, Result(_)) ==
  IF Good(files, locked, run, Result) THEN Overlay(files, Outputs(files, run, Result)) ELSE files
=============================================================================
