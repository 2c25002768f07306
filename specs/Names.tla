------------------------------- MODULE Names -------------------------------
(* What the package offers by name, and to whom.  Loading a module loads the  *)
(* modules it is built on; the plotting package, once loaded, knows how to    *)
(* draw every kind of model whichever of the two was loaded first.            *)
EXTENDS Integers, Sequences, FiniteSets
Classes == {"DLGA", "KD_DLGA", "KD_Discover", "KD_Discover_SPR", "KD_Discover_Regression", "KD_SGA", "KD_PySR", "KD_EqGPT"}
Shown == {"DLGA", "KD_DLGA", "KD_Discover", "KD_Discover_SPR", "KD_Discover_Regression"}
Loaders == {"load_burgers_equation", "load_kdv_equation", "load_mat_file"}
Types == {"ResidualPlotData", "OptimizationHistoryData", "FieldComparisonData", "TimeSliceComparisonData", "TermRelationshipData", "ParityPlotData", "RewardEvolutionData", "VizContext", "VizRequest", "VizResult"}
Plots == {"configure", "render", "list_capabilities", "register_adapter", "unregister_adapter", "clear_registry", "iter_registered", "plot_training_curve", "plot_validation_curve", "plot_search_evolution", "plot_optimization", "plot_field_comparison", "plot_time_slices", "plot_residuals", "plot_derivative_relationships", "plot_parity", "render_equation", "DLGAVizAdapter", "DiscoverVizAdapter", "register_default_adapters"}
Offered(p) ==
    CASE p = "kd" -> {"dataset", "model", "viz"} \cup Loaders \cup Shown
      [] p = "kd.model" -> Classes
      [] p = "kd.viz" -> Types \cup Plots \cup {"dlga_viz", "discover_viz", "equation_renderer", "dlga_eq2latex", "discover_eq2latex"}
      [] p = "kd.dataset" -> Loaders \cup {"PDEDataset", "load_pde", "load_pde_dataset", "list_available_datasets", "get_dataset_info", "get_dataset_sym_true"}
      [] OTHER -> {}
Packages == {"kd", "kd.model", "kd.viz", "kd.dataset"}
(* the documented module of each model class *)
HomeOf(c) == CASE c = "DLGA" -> "kd.model.dlga" [] c = "KD_DLGA" -> "kd.model.kd_dlga" [] c \in {"KD_Discover", "KD_Discover_SPR"} -> "kd.model.kd_discover"
               [] c = "KD_Discover_Regression" -> "kd.model.kd_discover_regression" [] c = "KD_SGA" -> "kd.model.kd_sga" [] c = "KD_PySR" -> "kd.model.kd_pysr" [] OTHER -> "kd.model.kd_eqgpt"
Homes == {HomeOf(c) : c \in Classes}
(* the kind of model a class is to the plots: a subclass is drawn as its base *)
Family(c) == CASE c = "KD_DLGA" -> "dlga" [] c \in {"KD_Discover", "KD_Discover_SPR", "KD_Discover_Regression"} -> "discover" [] c = "KD_SGA" -> "sga" [] c = "KD_PySR" -> "pysr" [] OTHER -> "none"
(* ------------------------------------------------ loading, step by step --- *)
Parent(m) == IF m \in Homes THEN {"kd.model"} ELSE {"kd"}
Builds(m) == CASE m = "kd" -> {"kd.dataset"} [] m = "kd.viz" -> {"kd.model.kd_dlga", "kd.model.kd_discover", "kd.model.kd_sga"}
               [] m = "kd.model.kd_dlga" -> {"kd.model.dlga"} [] m = "kd.model.kd_discover_regression" -> {"kd.model.kd_discover"} [] OTHER -> {}
RECURSIVE Close(_)
Close(s) == LET n == s \cup UNION {(IF m = "kd" THEN {} ELSE Parent(m)) \cup Builds(m) : m \in s} IN IF n = s THEN s ELSE Close(n)
Load(L, m) == L \cup Close({m})
(* the plots' answer for a class asked for in the state L                     *)
Drawable(L, c) == IF "kd.viz" \in L THEN Family(c) ELSE "none"
=============================================================================
