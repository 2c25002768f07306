--------------------------------- MODULE App ---------------------------------
(* A session of the web interface: one page, trainings and cloud jobs        *)
(* numbered in the order they were asked for (0 = none).                     *)
EXTENDS Integers, Sequences, FiniteSets
Models == {"KD_SGA", "KD_DLGA", "KD_DSCV", "KD_DSCV_SPR", "KD_EqGPT"}
Gpu == {"KD_DLGA", "KD_DSCV_SPR"}
Key(m) == CASE m = "KD_SGA" -> "sga" [] m = "KD_DLGA" -> "dlga" [] m = "KD_DSCV" -> "discover" [] m = "KD_DSCV_SPR" -> "discover_spr" [] OTHER -> "eqgpt"
(* flags: what the registry says works on the dataset; EqGPT brings its own data *)
Offered(flags) == {m \in Models : Key(m) \in flags} \cup {"KD_EqGPT"}
Offload(m, login) == m \in Gpu /\ login
Class(m) == CASE m = "KD_DSCV" -> "KD_Discover" [] m = "KD_DSCV_SPR" -> "KD_Discover_SPR" [] OTHER -> m
Runner(m) == IF m = "KD_DLGA" THEN "dlga" ELSE "dscv_spr"
Groups(m) == CASE m = "KD_SGA" -> {"SGA Parameters"} [] m = "KD_DLGA" -> {"DLGA Parameters"} [] m = "KD_DSCV" -> {"DSCV Parameters"}
               [] m = "KD_DSCV_SPR" -> {"DSCV Parameters", "SPR (PINN) Extra Parameters"} [] m = "KD_EqGPT" -> {"EqGPT Parameters"} [] OTHER -> {}
(* which field of the page feeds which argument of the model                 *)
Table(m) ==
  CASE m = "KD_SGA" -> {<<"SGA Parameters/SGA runs", "sga_run">>, <<"SGA Parameters/Population size", "num">>, <<"SGA Parameters/Tree depth", "depth">>, <<"SGA Parameters/Seed", "seed">>}
    [] m = "KD_DLGA" -> {<<"DLGA Parameters/Operators (comma-separated)", "operators">>, <<"DLGA Parameters/Sparsity penalty (epi)", "epi">>, <<"DLGA Parameters/NN max iterations", "max_iter">>, <<"DLGA Parameters/Sample points", "sample">>}
    [] m = "KD_DSCV" -> {<<"DSCV Parameters/Binary operators", "binary_operators">>, <<"DSCV Parameters/Unary operators", "unary_operators">>, <<"DSCV Parameters/Samples per batch", "n_samples_per_batch">>, <<"DSCV Parameters/Search epochs", "n_epochs">>, <<"DSCV Parameters/Seed", "seed">>}
    [] m = "KD_DSCV_SPR" -> {<<"DSCV Parameters/Binary operators", "binary_operators">>, <<"DSCV Parameters/Unary operators", "unary_operators">>, <<"DSCV Parameters/Samples per batch", "n_samples_per_batch">>, <<"DSCV Parameters/Seed", "seed">>,
                             <<"SPR (PINN) Extra Parameters/Observation ratio (sample_ratio)", "sample_ratio">>, <<"SPR (PINN) Extra Parameters/PINN search epochs", "n_epochs">>}
    [] OTHER -> {<<"EqGPT Parameters/Optimize epochs", "optimize_epochs">>, <<"EqGPT Parameters/Samples per epoch", "samples_per_epoch">>, <<"EqGPT Parameters/Case filter", "case_filter">>}
(* the session: which run's model is kept, whose equation is shown, which    *)
(* cloud job is being followed                                               *)
Nothing == [kept |-> 0, eq |-> 0, job |-> 0]
Trained(k, o) == IF o = "equation" THEN [kept |-> k, eq |-> k, job |-> 0] ELSE Nothing
Submitted(k, o) == IF o = "sent" THEN [kept |-> 0, eq |-> 0, job |-> k] ELSE Nothing
Over(o) == o \in {"failed", "success", "error", "missing"}
Checked(s, o) == [kept |-> 0, eq |-> IF o = "success" THEN s.job ELSE 0, job |-> IF Over(o) THEN 0 ELSE s.job]
=============================================================================
