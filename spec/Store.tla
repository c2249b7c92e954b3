-------------------------------- MODULE Store -------------------------------
(* A directory of saved objects.  files: function from file names to          *)
(* [fmt, v]; a save either replaces the content of exactly its file or is     *)
(* refused and changes nothing; a load gives what the last accepted save of    *)
(* that name wrote.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoFiles == [n \in {} |-> 0]
\* formats of save_operator never overwrite unless told to
Guarded(fmt) == fmt \in {"op", "optext"}
\* kinds of objects a format can hold
Holds(fmt, kind) ==
  CASE fmt \in {"op", "optext"} -> kind \in {"q", "f"}
    [] fmt = "qubit" -> kind \in {"q", "i"}
    [] OTHER -> TRUE
Refuses(fs, fmt, name, kind, ow) == (Guarded(fmt) /\ name \in DOMAIN fs /\ ow = 0) \/ ~Holds(fmt, kind)
Saved(fs, fmt, name, v) == [n \in DOMAIN fs \cup {name} |-> IF n = name THEN [fmt |-> fmt, v |-> v] ELSE fs[n]]
CanLoad(fs, name) == name \in DOMAIN fs
Loaded(fs, name) == fs[name].v
\* schema identifier written in each format
Schema(fmt) ==
  CASE fmt = "qubit" -> "zapata-v1-qubit_op" [] fmt = "ising" -> "zapata-v1-ising_op"
    [] fmt = "interaction" -> "zapata-v1-interaction_op" [] fmt = "rdm" -> "zapata-v1-interaction_rdm"
    [] fmt = "array" -> "zapata-v1-array" [] fmt = "value" -> "zapata-v1-value_estimate"
    [] fmt = "expval" -> "zapata-v1-expectation_values" [] fmt = "parities" -> "zapata-v1-parities"
    [] fmt = "list" -> "zapata-v1-art-list" [] fmt = "dict" -> "zapata-v1-dict"
    [] fmt = "optim" -> "zapata-v1-optimization_result" [] fmt = "nmeas" -> "zapata-v1-hamiltonian_analysis"
    [] fmt = "timing" -> "zapata-v1-timing" [] fmt = "graph" -> "zapata-v1-graph" [] fmt = "wave" -> "zapata-v1-wavefunction"
    [] OTHER -> "none"
=============================================================================
