----------------------------- MODULE TV_Version ------------------------------
(* Traces of the release script: strings read, versions printed and bumped,   *)
(* and whole runs with what they announced.                                   *)
EXTENDS TraceLib, Version
VARIABLES sid, l, st
Parsed(e) == [major |-> e.out.v.major, minor |-> e.out.v.minor, patch |-> e.out.v.patch, pre |-> e.out.v.pre]
Step(s, e) ==
  CASE e.op = "parse" ->
         LET p == Parse(e.s) IN
         IF p = <<>> THEN Chk(IsExc(e) /\ e.out.e = "ValueError", "parse: not a version, accepted", s)
         ELSE IF ~IsOk(e) THEN Rej("parse: version rejected", s)
         ELSE IF Parsed(e) # p[1] THEN Rej("parse: wrong parts", s)
         ELSE IF e.out.v.text # Show(p[1]) THEN Rej("print: wrong text", s)
         ELSE Chk(e.out.v.next = Show(Bump(p[1])), "bump: wrong version", s)
    [] e.op = "run" ->      \* the script in a directory whose current version is e.s
         LET p == Parse(e.s) IN
         IF p = <<>> THEN Chk(~IsOk(e) \/ e.out.v = <<>>, "run: announced a version for none", s)
         ELSE IF ~IsOk(e) THEN Rej("run: failed", s)
         ELSE Chk(e.out.v = <<Show(Bump(p[1]))>>, "run: wrong announcement", s)
    [] OTHER -> Rej("unknown event " \o e.op, s)
Init == sid \in 1..Len(Traces) /\ l = 1 /\ st = 0
Next == /\ l <= Len(Traces[sid].ev)
        /\ LET r == Step(st, Traces[sid].ev[l]) IN
             /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", sid, l, r.v>>)
             /\ st' = r.st
             /\ l' = IF r.v = "ok" THEN l + 1 ELSE 1000000
        /\ UNCHANGED sid
=============================================================================
