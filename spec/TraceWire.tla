------------------------------ MODULE TraceWire -----------------------------
(* Judges recorded runs of generated encoders and decoders, one call on the  *)
(* packet writer or reader at a time. A trace is [id, sch, events]; events:  *)
(*   [e |-> "wbegin", leaves, buf]   encoding of a value starts              *)
(*   [e |-> "wnew", given]           a writer is made of "none", of the      *)
(*                                   "same" buffer the encoder was given or  *)
(*                                   of an "other" one                       *)
(*   [e |-> "w", op, v]              a call on the writer                    *)
(*   [e |-> "wfin"]                  the writer is asked for the packet      *)
(*   [e |-> "wend", threw]           the encoder returned it or threw        *)
(*   [e |-> "rbegin"]                decoding starts                         *)
(*   [e |-> "rnew", same]            a reader is made of the packet or not   *)
(*   [e |-> "r", op, v, n, len, bad] a call on the reader                    *)
(*   [e |-> "rend", threw, null, leaves, left]                               *)
(* and, about enums only,                                                    *)
(*   [e |-> "compiled", ok]          whether the schema was accepted         *)
(*   [e |-> "consts", enum, members] the declared values of an enum          *)
(*   [e |-> "sweep", enum, width, pre, post, threw, accepted]                *)
(*      decoding of packets which differ in one enum only, with every number *)
(*      of that width (8, 16) or many of them (32): which were accepted and  *)
(*      as what                                                              *)
(* C01 follows every call of both; C02 compares what goes in and comes out;  *)
(* C03 and C15 follow the decoder on arbitrary packets as well.              *)
EXTENDS Wire, Trace

SchemaLog == ndJsonDeserialize(IOEnv.SCHEMAS)
Envs  == TLCEval([i \in DOMAIN SchemaLog |-> Env(SchemaLog[i].ast)])
Roots == TLCEval([i \in DOMAIN SchemaLog |-> ExportName(SchemaLog[i].ast)])

VARIABLES
  t,      \* trace
  k,      \* next event of it
  mode,   \* "idle", "begin", "enc", "fin", "rbegin", "dec"
  m,      \* state of the encoder or decoder
  wrote,  \* leaves of the value encoded last
  good    \* traces accepted so far
vars == <<t, k, mode, m, wrote, good>>

None == [work |-> <<>>, val |-> <<>>]
Calls == Prop # "C02"          \* whether the single calls are judged

Init == t = 1 /\ k = 1 /\ mode = "idle" /\ m = None /\ wrote = <<>> /\ good = 0

Tr  == Log[t]
Ev  == Log[t].events[k]
env == Envs[Log[t].sch]
Root == Roots[Log[t].sch]

Strs(ls) == [i \in DOMAIN ls |-> ls[i].s \o (IF ls[i].s \in {"#", "?"} THEN ToString(ls[i].n) ELSE "")]

More == t <= Len(Log) /\ k <= Len(Tr.events)

(* Leaves the trace behind as rejected.                                      *)
Reject(why) == /\ Report(Tr, "event " \o ToString(k) \o ": " \o why)
               /\ t' = t + 1 /\ k' = 1 /\ mode' = "idle" /\ m' = None /\ wrote' = <<>>
               /\ good' = good

Accept(mode2, m2, wrote2) ==
  /\ k' = k + 1 /\ mode' = mode2 /\ m' = m2 /\ wrote' = wrote2 /\ UNCHANGED <<t, good>>

WBegin == /\ More /\ Ev.e = "wbegin"
          /\ Accept("begin", Encoder(env, Root, Ev.leaves), Ev.leaves)

(* One writer, of the buffer which was given if there was one.               *)
WNew == /\ More /\ Ev.e = "wnew"
        /\ IF Prop # "C01" THEN Accept("enc", m, wrote)
           ELSE IF mode # "begin" THEN Reject("made a second writer")
           ELSE LET want == IF Tr.events[k - 1].buf THEN "same" ELSE "none"
                IN  IF Ev.given # want
                    THEN Reject("made a writer of " \o Ev.given \o " buffer instead of " \o want)
                    ELSE Accept("enc", m, wrote)

WCall == /\ More /\ Ev.e = "w"
         /\ IF ~Calls THEN Accept(mode, m, wrote)
            ELSE IF mode # "enc" THEN Reject("wrote " \o Ev.op \o " behind the finished packet")
            ELSE IF EncoderDone(m)
            THEN Reject("wrote " \o Ev.op \o " " \o Ev.v \o " after the end of the value")
            ELSE LET c == EncoderCall(env, m)
                 IN  IF Ev.op = c.op /\ Ev.v = c.v THEN Accept(mode, EncoderStep(env, m), wrote)
                     ELSE Reject("wrote " \o Ev.op \o " " \o Ev.v \o ", the layout has "
                                   \o c.op \o " " \o c.v)

WFin == /\ More /\ Ev.e = "wfin"
        /\ IF Prop = "C01" /\ mode # "enc" THEN Reject("finished twice or without a writer")
           ELSE Accept("fin", m, wrote)

WEnd == /\ More /\ Ev.e = "wend"
        /\ IF Ev.threw # "" THEN Reject("the encoder threw " \o Ev.threw)
           ELSE IF Calls /\ ~EncoderDone(m)
           THEN Reject("the encoder stopped early, " \o EncoderCall(env, m).op \o " "
                          \o EncoderCall(env, m).v \o " is missing")
           ELSE Accept("idle", None, wrote)

RBegin == /\ More /\ Ev.e = "rbegin"
          /\ Accept("rbegin", Decoder(env, Root), wrote)

RNew == /\ More /\ Ev.e = "rnew"
        /\ IF Prop = "C01" /\ mode # "rbegin" THEN Reject("made a second reader")
           ELSE IF Prop = "C01" /\ ~Ev.same THEN Reject("made a reader of something else than the packet")
           ELSE Accept("dec", m, wrote)

RCall == /\ More /\ Ev.e = "r"
         /\ IF ~Calls \/ m.failed THEN Accept(mode, m, wrote)
            ELSE IF DecoderDone(m) THEN Reject("read " \o Ev.op \o " after the end of the value")
            ELSE LET op == DecoderOp(env, m)
                 IN  IF Ev.op # op THEN Reject("read " \o Ev.op \o ", the layout has " \o op)
                     ELSE IF op = "string" /\ Ev.len # DecoderLen(m)
                     THEN Reject("read a string of length " \o ToString(Ev.len) \o ", not "
                                    \o ToString(DecoderLen(m)))
                     ELSE Accept(mode, DecoderStep(env, m, Ev.v, Ev.n, Ev.bad), wrote)

(* What a call on the decoder must have returned.                            *)
ReturnWhy ==
  IF Ev.threw # "" THEN "the decoder threw " \o Ev.threw
  ELSE IF Prop = "C02"
  THEN IF Ev.null THEN "the decoder refused what the encoder wrote"
       ELSE IF Strs(Ev.leaves) # Strs(wrote)
       THEN "encoded " \o ToString(Strs(wrote)) \o " but decoded " \o ToString(Strs(Ev.leaves))
       ELSE IF Ev.left # 0 THEN ToString(Ev.left) \o " bytes were not read"
       ELSE ""
  ELSE IF m.failed THEN (IF Ev.null THEN "" ELSE "a malformed packet was decoded to "
                                                   \o ToString(Strs(Ev.leaves)))
  ELSE IF ~DecoderDone(m) THEN "the decoder stopped early, " \o DecoderOp(env, m) \o " is missing"
  ELSE IF Prop = "C01" THEN ""
  ELSE IF Ev.null THEN "a proper packet was refused"
  ELSE IF Strs(Ev.leaves) # Strs(m.acc)
       THEN "the packet says " \o ToString(Strs(m.acc)) \o " but was decoded to "
               \o ToString(Strs(Ev.leaves))
  ELSE ""

REnd == /\ More /\ Ev.e = "rend"
        /\ IF ReturnWhy # "" THEN Reject(ReturnWhy) ELSE Accept("idle", None, wrote)

Compiled == /\ More /\ Ev.e = "compiled"
            /\ IF Ev.ok # Valid(SchemaLog[Tr.sch].ast)
               THEN Reject(IF Ev.ok THEN "the schema must be refused" ELSE "the schema must be accepted")
               ELSE Accept(mode, m, wrote)

Consts == /\ More /\ Ev.e = "consts"
          /\ LET vs == env[Ev.enum].variants
                 want == [i \in DOMAIN vs |-> [name |-> vs[i], value |-> Bit(i)]]
             IN  IF Ev.members # want
                 THEN Reject("declared as " \o ToString(Ev.members) \o ", must be " \o ToString(want))
                 ELSE Accept(mode, m, wrote)

Sweep == /\ More /\ Ev.e = "sweep"
         /\ LET vs == env[Ev.enum].variants
                want == {[v |-> Bit(i), leaves |-> Strs(Ev.pre) \o <<vs[i]>> \o Strs(Ev.post)] : i \in DOMAIN vs}
                got  == {[v |-> a.v, leaves |-> Strs(a.leaves)] : a \in Rng(Ev.accepted)}
            IN  IF Ev.width # Repr(Len(vs)) THEN Reject("swept the wrong width " \o Ev.width)
                ELSE IF Ev.threw # "" THEN Reject("the decoder threw " \o Ev.threw)
                ELSE IF want \ got # {} THEN Reject("refused or mistook variants " \o ToString(want \ got)
                                                     \o ", accepted instead " \o ToString(got \ want))
                ELSE IF got # want THEN Reject("accepted numbers which are no variant: "
                                                 \o ToString({a.v : a \in got \ want}))
                ELSE Accept(mode, m, wrote)

(* The whole trace was a behaviour of the specification.                     *)
Passed == /\ t <= Len(Log) /\ k = Len(Tr.events) + 1
          /\ t' = t + 1 /\ k' = 1 /\ mode' = "idle" /\ m' = None /\ wrote' = <<>>
          /\ good' = good + 1

Finish == /\ t = Len(Log) + 1 /\ Summary(good)
          /\ t' = t + 1 /\ UNCHANGED <<k, mode, m, wrote, good>>

Next == \/ WBegin \/ WNew \/ WCall \/ WFin \/ WEnd \/ RBegin \/ RNew \/ RCall \/ REnd
        \/ Compiled \/ Consts \/ Sweep \/ Passed \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
