------------------------------- MODULE TV_Steps ------------------------------
(* Traces of workflows: files put into a directory, steps run in it.  Each    *)
(* step event has its inputs (files or values), what the library computes in  *)
(* memory from the values they mean (unless the specification computes it),   *)
(* and the files that were different afterwards.  A value is [t |-> kind,     *)
(* x |-> exact text, s |-> structure].                                        *)
EXTENDS TraceLib, Steps
VARIABLES sid, l, st
Same(v, w) == v.t = w.t /\ v.x = w.x
OpS(ts) == TLCEval(Collect([i \in 1..Len(ts) |-> <<ts[i].f, ts[i].c>>]))
Entries(ts) == [i \in 1..Len(ts) |-> <<ts[i].f, ts[i].c>>]
Meant(e, vals, v) ==     \* v.s is what the inputs call for
  CASE e.sem[1] = "cat" -> v.s = vals[1].s \o vals[2].s
    [] e.sem[1] = "concat" -> v.s = JoinAll(vals[1].s)
    [] e.sem[1] = "batch0" -> v.s = [i \in 1..Len(vals) |-> vals[i].s]
    [] e.sem[1] = "batch" -> v.s = vals[1].s \o [i \in 1..(Len(vals) - 1) |-> vals[i + 1].s]
    [] e.sem[1] = "zero" -> OpS(v.s) = LocalZero(e.n)
    [] e.sem[1] = "one" -> OpS(v.s) = OneQubit(e.nums[1], e.nums[2], e.nums[3], e.nums[4])
    [] e.sem[1] = "interp" -> OpS(v.s) = Interpolated(OpS(vals[1].s), OpS(vals[2].s), e.num)
    [] e.sem[1] = "h2" -> OpS(v.s) = TwoLevel(IntOp(vals[1].s.c, Entries(vals[1].s.one), Entries(vals[1].s.two)))
    [] OTHER -> FALSE
Outs(e) == {e.outs[k] : k \in 1..Len(e.outs)}
RunStep(s, e) ==
  LET new == WriteAll(s, e.after) vals == Values(s, e.ins) IN
  IF e.gone # <<>> THEN Rej(e.name \o ": removed a file", s)
  ELSE IF e.out.k = "bad" THEN Rej(e.name \o ": " \o e.out.e, s)
  ELSE IF \E k \in 1..Len(e.after) : e.after[k].f \notin Outs(e) THEN Rej(e.name \o ": wrote another file", s)
  ELSE IF ~CanRun(s, e.ins) THEN
         (IF IsOk(e) THEN Rej(e.name \o ": ran without its input", s) ELSE Chk(e.after = <<>>, e.name \o ": failed after writing", s))
  ELSE IF e.fail = 1 THEN Chk(IsExc(e), e.name \o ": invalid inputs accepted", new)
  ELSE IF ~IsOk(e) THEN Rej(e.name \o ": failed", s)
  ELSE IF ~(Outs(e) \subseteq DOMAIN new) THEN Rej(e.name \o ": did not write its file", s)
  ELSE IF e.sem # <<>> THEN Chk(Meant(e, vals, new[e.outs[1]]), e.name \o ": wrong result", new)
  ELSE IF \E k \in 1..Len(vals) : ~Same(vals[k], e.lib[1].in[k]) THEN Rej(e.name \o ": other inputs than in memory", s)
  ELSE Chk(\A k \in 1..Len(e.outs) : Same(new[e.outs[k]], e.lib[1].out[k]), e.name \o ": not what the library yields", new)
Step(s, e) ==
  CASE e.op = "put" -> Ok(Write(s, e.f, e.v))
    [] e.op = "step" -> RunStep(s, e)
    [] OTHER -> Rej("unknown event " \o e.op, s)
Init == sid \in 1..Len(Traces) /\ l = 1 /\ st = NoFile
Next == /\ l <= Len(Traces[sid].ev)
        /\ LET r == Step(st, Traces[sid].ev[l]) IN
             /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", sid, l, r.v>>)
             /\ st' = r.st
             /\ l' = IF r.v = "ok" THEN l + 1 ELSE 1000000
        /\ UNCHANGED sid
=============================================================================
