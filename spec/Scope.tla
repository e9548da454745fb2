-------------------------------- MODULE Scope -------------------------------
(* The variables of generated encoders and decoders: which block declares    *)
(* and uses what. Events are [e, x]: "open" and "close" a block, "let" and   *)
(* "use" a variable. Variables are named after the path of fields to them,   *)
(* joined by underscores, which fields may contain themselves: with Fresh    *)
(* a name which is taken is changed until it is not.                         *)
EXTENDS Schema

Ev(e, x) == [e |-> e, x |-> x]
Open  == Ev("open", "")
Close == Ev("close", "")

-----------------------------------------------------------------------------
(* Replaying events: [stack, why] where stack is one set of names per block. *)
ScopeStart(top) == [stack |-> <<top>>, why |-> ""]
ScopeStep(s, ev) ==
  LET n == Len(s.stack)
  IN  CASE s.why # ""     -> s
        [] ev.e = "open"  -> [s EXCEPT !.stack = Append(@, {})]
        [] ev.e = "close" -> IF n = 1 THEN [s EXCEPT !.why = "closes too many blocks"]
                             ELSE [s EXCEPT !.stack = SubSeq(@, 1, n - 1)]
        [] ev.e = "let"   -> IF ev.x \in s.stack[n]
                             THEN [s EXCEPT !.why = "declares " \o ev.x \o " twice in a block"]
                             ELSE [s EXCEPT !.stack[n] = @ \cup {ev.x}]
        [] ev.e = "use"   -> IF \E i \in 1..n : ev.x \in s.stack[i] THEN s
                             ELSE [s EXCEPT !.why = "uses " \o ev.x \o ", which is not declared"]

RECURSIVE ScopeRun(_, _, _)
ScopeRun(s, evs, i) == IF i > Len(evs) \/ s.why # "" THEN s
                       ELSE ScopeRun(ScopeStep(s, evs[i]), evs, i + 1)
ScopeWhy(top, evs) ==
  LET s == ScopeRun(ScopeStart(top), evs, 1)
  IN  IF s.why # "" THEN s.why ELSE IF Len(s.stack) # 1 THEN "leaves a block open" ELSE ""

-----------------------------------------------------------------------------
(* What is generated for a schema. c is [ev, taken, fresh]: the events so    *)
(* far, the names taken and whether taken ones are avoided. A path is a      *)
(* sequence of names, of which the first is a variable.                      *)
RECURSIVE Join(_)
Join(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o "_" \o Join(Tail(p))

RECURSIVE FreshName(_, _)
FreshName(x, taken) == IF x \in taken THEN FreshName(x \o "_", taken) ELSE x
Name(c, x) == IF c.fresh THEN FreshName(x, c.taken) ELSE x
Take(c, x) == [c EXCEPT !.taken = @ \cup {x}]
Put(c, evs) == [c EXCEPT !.ev = @ \o evs]
Use(c, p) == Put(c, <<Ev("use", p[1])>>)

RECURSIVE ReadOne(_, _, _, _, _), ReadFields(_, _, _, _, _)
ReadOne(env, c, p, ty, init) ==
  IF ty = "string"
  THEN LET n == Name(c, Join(p) \o "_len")
       IN  Put(Take(c, n), <<Ev("let", n), Ev("use", n), Ev("use", p[1])>>)
  ELSE IF ty \in Builtins THEN Use(c, p)
  ELSE IF env[ty].n = "enum"
  THEN LET n == Name(c, Join(p) \o "_temp")
       IN  Put(Take(c, n), <<Ev("let", n), Ev("use", n), Ev("use", p[1])>>)
  ELSE IF ~init THEN ReadFields(env, c, p, env[ty].fields, 1)
  ELSE LET n == Name(c, Join(p))
           a == Put(Take(c, n), <<Ev("let", n)>>)
           b == ReadFields(env, a, <<n>>, env[ty].fields, 1)
       IN  Put(b, <<Ev("use", p[1]), Ev("use", n)>>)
ReadFields(env, c, p, fs, i) ==
  IF i > Len(fs) THEN c
  ELSE LET f == fs[i]
           q == Append(p, f.name)
           ln == Name(c, Join(q) \o "_len")
           c1 == Take(c, ln)
           ix == Name(c1, Join(q) \o "_index")
           c2 == Take(c1, ix)
           it == Name(c2, Join(q) \o "_item")
           c3 == Take(c2, it)
           d == CASE f.arr -> LET b == ReadOne(env, Put(c3, <<Ev("let", ln), Ev("use", q[1]), Open, Ev("let", ix),
                                                              Open, Ev("let", it)>>), <<it>>, f.ty, FALSE)
                              IN  Put(b, <<Ev("use", q[1]), Ev("use", ix), Ev("use", it), Close, Close>>)
                  [] ~f.arr /\ f.opt ->
                       LET b == ReadOne(env, Put(c, <<Open>>), q, f.ty, TRUE)
                       IN  Put(b, <<Close, Open, Ev("use", q[1]), Close>>)
                  [] OTHER -> ReadOne(env, c, q, f.ty, TRUE)
       IN  ReadFields(env, d, p, fs, i + 1)

RECURSIVE WriteOne(_, _, _, _), WriteFields(_, _, _, _, _)
WriteOne(env, c, p, ty) ==
  IF ty \in Builtins \/ env[ty].n = "enum" THEN Use(c, p)
  ELSE WriteFields(env, c, p, env[ty].fields, 1)
WriteFields(env, c, p, fs, i) ==
  IF i > Len(fs) THEN c
  ELSE LET f == fs[i]
           q == Append(p, f.name)
           it == Name(c, Join(q) \o "_item")
           c1 == Take(c, it)
           ix == Name(c1, Join(q) \o "_index")
           c2 == Take(c1, ix)
           bi == Name(c, Join(q))
           d == CASE f.arr -> LET b == WriteOne(env, Put(c2, <<Ev("use", q[1]), Open, Ev("let", ix), Open,
                                                               Ev("use", q[1]), Ev("let", it)>>), <<it>>, f.ty)
                              IN  Put(b, <<Close, Close>>)
                  [] ~f.arr /\ f.opt ->
                       LET b == WriteOne(env, Put(Take(c, bi), <<Ev("use", q[1]), Ev("let", bi), Open, Open>>),
                                         <<bi>>, f.ty)
                       IN  Put(b, <<Close, Close>>)
                  [] OTHER -> WriteOne(env, c, q, f.ty)
       IN  WriteFields(env, d, p, fs, i + 1)

(* The two methods of a schema, as events.                                   *)
ReadEvents(ast, fresh) ==
  LET env == TLCEval(Env(ast))
      c0 == [ev |-> <<Open, Ev("let", "data"), Ev("let", "reader"), Ev("let", "output")>>,
             taken |-> {"output"}, fresh |-> fresh]
  IN  Append(ReadFields(env, c0, <<"output">>, env[ExportName(ast)].fields, 1).ev, Close)
WriteEvents(ast, fresh) ==
  LET env == TLCEval(Env(ast))
      c0 == [ev |-> <<Open, Ev("let", "this"), Ev("let", "buffer"), Ev("let", "writer")>>,
             taken |-> {}, fresh |-> fresh]
  IN  Append(WriteFields(env, c0, <<"this">>, env[ExportName(ast)].fields, 1).ev, Close)

Collides(ast, fresh) == \/ ScopeWhy({}, ReadEvents(ast, fresh)) # ""
                        \/ ScopeWhy({}, WriteEvents(ast, fresh)) # ""
=============================================================================
