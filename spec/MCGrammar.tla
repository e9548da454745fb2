----------------------------- MODULE MCGrammar ------------------------------
(* All texts made of a few chunks, up to a bounded number of them.           *)
EXTENDS Grammar, Json, IOUtils

CONSTANTS
  Chunks,      \* what texts are made of
  MaxChunks,   \* how many of them
  Prefix,      \* what every text starts with
  Emit         \* whether to keep the text and print it

TopChunks   == {"export", "enum", "struct", "a", "b8", ":", "?", "{", "}", "[", "]", ",",
                "#", " ", "\n", "$"}
InnerChunks == {"enum", "a", "b8", "9", ":", "?", "}", "[]", "[", ",", "#", " ", "\n", "\r", "\t"}

VARIABLES s, n, txt

Init == s = Feed(Start, Prefix) /\ n = 0 /\ txt = IF Emit THEN Prefix ELSE ""

Next == /\ n < MaxChunks /\ s.m # "dead"
        /\ \E c \in Chunks :
             /\ s' = Feed(s, c)
             /\ txt' = IF Emit THEN txt \o c ELSE ""
        /\ n' = n + 1

Spec == Init /\ [][Next]_<<s, n, txt>>

(* A position is only dead if nothing can follow: live texts are completable *)
Viable == s.m # "dead" => End(Feed(s, Completion(s))).m = "accept"

NoPos(t) == [t EXCEPT !.pos = 0, !.from = 0]
(* White space between tokens changes nothing.                               *)
BlankInsensitive ==
  /\ s.m \in {"top", "e0", "e1", "s0", "s1"} =>
        \A c \in White : NoPos(Step(s, c)) = NoPos(s)
  /\ s.m \in {"name", "colon", "kwend", "exp", "fblank", "ftype0"} =>
        \A c \in Blank : NoPos(Step(s, c)) = NoPos(s)
(* Comments between declarations and between fields change nothing, except   *)
(* that a comma cannot follow one.                                           *)
CommentInsensitive ==
  /\ s.m = "top" => NoPos(Feed(s, "#:{,\n")) = NoPos(s)
  /\ s.m = "s0"  => NoPos(Feed(s, "#:{,\n")) = NoPos(s)
  /\ s.m = "s1"  => NoPos(Feed(s, "#:{,\n")) = NoPos(Go(s, "s0"))
(* A separator may be left out, given once, and trail.                       *)
CommaInsensitive ==
  /\ s.m = "e1" => NoPos(Feed(s, ",}")) = NoPos(Feed(s, "}"))
  /\ s.m = "s1" => /\ NoPos(Feed(s, ",}")) = NoPos(Feed(s, "}"))
                   /\ NoPos(Feed(s, ",z:")) = NoPos(Feed(s, " z:"))
  /\ s.m \in {"e0", "s0"} => Step(s, ",").m = "dead"
(* Writing the declarations out and reading them again gives the same ones.  *)
ReadsBack == LET e == End(s)
             IN  e.m = "accept" => LET t == Parse(Chars(Text(e.ast)))
                                   IN  t.m = "accept" /\ t.ast = e.ast
(* The blamed stretch is within the word the text died in.                   *)
BlameTight == Emit /\ s.m = "dead" =>
                /\ s.lo <= s.pos
                /\ \A i \in (s.lo + 1)..s.pos : SubSeq(txt, i, i) \in IdChar \cup {"["}
DeadStays == s.m = "dead" => Step(s, "a") = s

(* For the replay of exactly these texts into the real parser.               *)
Emitted == Emit => PrintT("TEXT " \o ToJson(txt))
=============================================================================
