------------------------------ MODULE TraceLib ------------------------------
(* Trace validation: one behaviour per recorded session.  A trace module     *)
(* defines InitSt(session) and Step(st, event) = [v |-> verdict, st |-> st'];*)
(* verdict "ok" or the name of the first clause the event violates.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
\* keep going after a rejection?  (sessions whose events are independent)
Ok(st)      == [v |-> "ok", st |-> st]
Rej(c, st)  == [v |-> c, st |-> st]
Chk(b, c, st) == IF b THEN Ok(st) ELSE Rej(c, st)
IsOk(e)  == e.out.k = "ok"
IsExc(e) == e.out.k = "exc"
Has(r, f) == f \in DOMAIN r
=============================================================================
