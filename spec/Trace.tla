------------------------------- MODULE Trace --------------------------------
(* Skeleton of the modules which judge recorded behaviours one record at a   *)
(* time. A record which is no behaviour of the specification is reported and *)
(* the next one is looked at, so that one run judges the whole log.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Log  == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

Report(rec, why) == PrintT("REJECTED " \o rec.id \o " " \o why)
Summary(good) == PrintT("VALIDATED " \o ToString(good) \o " OF " \o ToString(Len(Log)))
=============================================================================
