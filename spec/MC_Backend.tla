----------------------------- MODULE MC_Backend ------------------------------
(* Every short history of single runs, batches of runs and rejected runs on  *)
(* every kind of backend behind a tracking wrapper; emitted for replay.      *)
EXTENDS Backend, Json, TLC
CONSTANTS MaxLen, MaxSet
VARIABLES kind, b, st, hist, file, done
vars == <<kind, b, st, hist, file, done>>
Init == /\ kind \in {"device", "batch", "sim"} /\ b \in 1..3 /\ (kind # "batch" => b = 1)
        /\ st = [nc |-> 0, nj |-> 0] /\ hist = <<>> /\ file = -1 /\ done = <<>>
Segs == 0..2
Run == \E s \in Segs : /\ st' = OneRun(kind, st, s) /\ hist' = Append(hist, [op |-> "run", cs |-> <<s>>])
                       /\ file' = 1 /\ done' = Append(done, s)
Set == \E n \in 0..MaxSet : \E cs \in [1..n -> Segs] :
          /\ st' = SetRun(kind, b, st, cs) /\ hist' = Append(hist, [op |-> "set", cs |-> cs])
          /\ file' = n /\ done' = done \o cs
Bad == \E s \in Segs : kind # "sim" /\ hist' = Append(hist, [op |-> "bad", cs |-> <<s>>]) /\ UNCHANGED <<st, file, done>>
Next == Len(hist) < MaxLen /\ (Run \/ Set \/ Bad) /\ UNCHANGED <<kind, b>>
CountsCircuits == st.nc = (IF kind = "sim" THEN SumSeq(done) ELSE Len(done))
JobsBound == /\ kind # "batch" => st.nj = st.nc
             /\ kind = "batch" => (st.nj <= st.nc /\ st.nj * b >= st.nc)
FileHolds == file # -1 => \E i \in 1..Len(hist) : hist[i].op # "bad" /\ Len(hist[i].cs) = file /\ \A j \in i+1..Len(hist) : hist[j].op = "bad"
Monotone == [][st'.nc >= st.nc /\ st'.nj >= st.nj]_vars
EmitInv == Len(hist) = MaxLen => PrintT("GEN:" \o ToJson([kind |-> kind, b |-> b, h |-> hist]))
=============================================================================
