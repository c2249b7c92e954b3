------------------------------ MODULE Backend -------------------------------
(* The run contract of backends: counters, and what a tracking wrapper       *)
(* writes.  kind: "device" (one by one), "batch" (batches of b circuits),    *)
(* "sim" (a simulator counts maximal natively supported segments).           *)
EXTENDS Integers, Sequences, SequencesExt
CeilDiv(a, b) == (a + b - 1) \div b
SumSeq(s) == FoldLeft(LAMBDA acc, x: acc + x, 0, s)
\* segs: number of maximal natively supported segments of the circuit
OneRun(kind, st, segs) == IF kind = "sim" THEN [nc |-> st.nc + segs, nj |-> st.nj + segs]
                          ELSE [nc |-> st.nc + 1, nj |-> st.nj + 1]
SetRun(kind, b, st, segsl) ==
  IF kind = "batch" THEN [nc |-> st.nc + Len(segsl), nj |-> st.nj + CeilDiv(Len(segsl), b)]
  ELSE FoldLeft(LAMBDA acc, x: OneRun(kind, acc, x), st, segsl)
\* number of maximal runs of TRUE in a sequence of booleans (0/1)
SegCount(pv) == Len(SelectSeq([i \in 1..Len(pv) |-> IF pv[i] = 1 /\ (i = 1 \/ pv[i-1] = 0) THEN 1 ELSE 0], LAMBDA x: x = 1))
=============================================================================
