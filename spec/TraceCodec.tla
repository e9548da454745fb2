----------------------------- MODULE TraceCodec -----------------------------
(* Judges recorded sessions with a generated class (C17). An event is an     *)
(* operation of Codec.tla together with what the program could see after it: *)
(*   [op, p, b, v, threw, refused, pk |-> <<[i, v, raw]>>, bf |-> <<[i, v]>>]*)
(* pk and bf being all packets and buffers it held. Values and bytes are     *)
(* texts; raw tells null, undefined and missing apart, which are the same    *)
(* value, but not the same packet. The encoder and decoder are not known here; they must be functions *)
(* of the value and the bytes, so what they did once is remembered, and      *)
(* decoding what a value was encoded to must give this value.                *)
EXTENDS Codec, Trace

VARIABLES t, k, pk, raw, bf, enc, dec, good
vars == <<t, k, pk, raw, bf, enc, dec, good>>
Init == t = 1 /\ k = 1 /\ pk = Empty /\ raw = Empty /\ bf = Empty /\ enc = Empty /\ dec = Empty /\ good = 0

Tr == Log[t]
Ev == Tr.events[k]
More == t <= Len(Log) /\ k <= Len(Tr.events)

Held(s) == [i \in {s[j].i : j \in DOMAIN s} |-> (CHOOSE j \in DOMAIN s : s[j].i = i) ]
View(s) == LET at == Held(s) IN [i \in DOMAIN at |-> s[at[i]].v]
Raw(s)  == LET at == Held(s) IN [i \in DOMAIN at |-> s[at[i]].raw]

Clear == k' = 1 /\ pk' = Empty /\ raw' = Empty /\ bf' = Empty /\ enc' = Empty /\ dec' = Empty
Reject(why) == /\ Report(Tr, "event " \o ToString(k) \o " (" \o Ev.op \o "): " \o why)
               /\ t' = t + 1 /\ Clear /\ good' = good

(* What differs between what is held and what should be.                     *)
Wrong(what, have, want) ==
  IF DOMAIN have # DOMAIN want THEN "there are " \o what \o "s " \o ToString(DOMAIN have)
  ELSE LET S == {i \in DOMAIN have : have[i] # want[i]}
       IN  IF S = {} THEN ""
           ELSE LET i == CHOOSE x \in S : TRUE
                IN  what \o " " \o ToString(i) \o " is " \o have[i] \o ", not " \o want[i]

Step ==
  /\ More
  /\ LET seenP == TLCEval(View(Ev.pk))
         seenB == TLCEval(View(Ev.bf))
         seenR == TLCEval(Raw(Ev.pk))
         touched == IF Ev.op \in {"new", "set", "read"} THEN {Ev.p} ELSE {}
         o == Ev
         (* the answer to this operation, unless it is known already *)
         out == IF o.op = "write" /\ o.b \in DOMAIN seenB THEN seenB[o.b] ELSE ""
         got == IF o.op = "read"
                THEN IF o.refused \/ o.p \notin DOMAIN seenP THEN [ok |-> FALSE, v |-> ""]
                     ELSE [ok |-> TRUE, v |-> seenP[o.p]]
                ELSE [ok |-> FALSE, v |-> ""]
         enc2 == IF o.op = "write" /\ o.p \in DOMAIN pk /\ pk[o.p] \notin DOMAIN enc
                 THEN Put(enc, pk[o.p], out) ELSE enc
         dec1 == IF o.op = "write" /\ o.p \in DOMAIN pk THEN Put(dec, enc2[pk[o.p]], [ok |-> TRUE, v |-> pk[o.p]])
                 ELSE dec
         dec2 == IF o.op = "read" /\ o.b \in DOMAIN bf /\ bf[o.b] \notin DOMAIN dec1
                 THEN Put(dec1, bf[o.b], got) ELSE dec1
         Enc(v) == enc2[v]
         Dec(h) == dec2[h]
     IN  IF ~Possible(pk, bf, o) THEN Reject("impossible")
         ELSE IF o.threw # "" /\ o.op # "trip" THEN Reject("threw " \o o.threw)
         ELSE LET pk2 == TLCEval(PacketsAfter(pk, bf, o, Dec))
                  bf2 == TLCEval(BuffersAfter(pk, bf, o, Enc))
                  why == IF Wrong("packet", seenP, pk2) # "" THEN Wrong("packet", seenP, pk2)
                         ELSE IF Wrong("buffer", seenB, bf2) # "" THEN Wrong("buffer", seenB, bf2)
                         ELSE Wrong("packet", seenR, [i \in DOMAIN seenR |-> IF i \in DOMAIN raw \ touched THEN raw[i] ELSE seenR[i]])
              IN  IF why # "" THEN Reject(why)
                  ELSE /\ pk' = pk2 /\ raw' = seenR /\ bf' = bf2 /\ enc' = enc2 /\ dec' = dec2
                       /\ k' = k + 1 /\ UNCHANGED <<t, good>>

Passed == t <= Len(Log) /\ k > Len(Tr.events) /\ t' = t + 1 /\ Clear /\ good' = good + 1
Finish == /\ t = Len(Log) + 1 /\ Summary(good) /\ t' = t + 1
          /\ UNCHANGED <<k, pk, raw, bf, enc, dec, good>>
Next == Step \/ Passed \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
