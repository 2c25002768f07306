"""Writes /verif/properties.jsonl (kept as a generator only so the text stays diffable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

D="kd/model/discover/"
p("C01","Sampled expressions are complete, bounded prefix expressions",
 "Every candidate the symbolic expression search samples is, once finished, exactly one complete prefix-notation expression, no longer than the configured maximum (with the default length constraint also no shorter than its minimum). At every sampling step the parent, sibling and number-of-open-slots context given to the sampler is that of the partially built expression tree, and at least one token stays allowed until the expression closes.",
 ["histories","configurations"],"for every token library, operator set, length limit and every sequence of token choices the constraints allow",
 "tests sample a few batches with fixed seeds and check shapes; completeness, context and absence of dead ends must hold along every reachable choice sequence",
 [D+"task/task.py",D+"dso/prior.py",D+"searcher.py",D+"controller.py",D+"program.py",D+"library.py"],
 [("incremental observation of the partial tree","HierarchicalTask.get_next_obs"),("length constraint","LengthConstraint"),("episode finishing","controller.sample / _finish_tokens"),("parent/sibling recovery","parents_siblings")],
 observe=["task.get_next_obs","JointPrior.__call__","Searcher.sample output","from_tokens"])
p("C02","Configured search constraints are enforced exactly",
 "A structural constraint the search is configured with (repeat limits, forbidden child/sibling/descendant/inverse relations, where derivatives may sit and what they differentiate against) is never violated by any sampled expression. A constraint forbids only the tokens that would break it: with it switched off, or at positions where it does not apply, it removes nothing.",
 ["histories","configurations"],"for every configured set of constraints and every reachable partial expression",
 "tests exercise single hand-written prefixes per constraint; the combination over all reachable prefixes is not sampled",
 [D+"dso/prior.py",D+"dso/subroutines.py",D+"utils.py",D+"task/task.py"],
 [("per-constraint masks","RepeatConstraint/RelationalConstraint/TrigConstraint/InverseUnaryConstraint/Diff* priors __call__"),("combination of masks","JointPrior.__call__"),("configuration to constraints","make_prior")],
 observe=["JointPrior.__call__"])
p("C03","Candidate identity: equal expressions share, different ones never do",
 "Building a candidate twice from the same token sequence yields the same candidate with its earlier evaluation, unless caching was cleared or the candidate holds free constants; candidates from different token sequences never share tokens, constants, coefficients or reward. Surplus tokens after a complete expression are dropped and missing ones are completed so that the stored expression is always complete.",
 ["histories"],"for every history of building, evaluating and cache clearing over all token sequences",
 "tests build a handful of fixed programs; identity and isolation must hold over every interleaving of builds, evaluations and cache clears",
 [D+"program.py",D+"execute.py",D+"library.py"],
 [("candidate cache","from_tokens / Program.cache"),("completion and truncation","_finish_tokens"),("cached evaluation","cached_property r_ridge/evaluate")],
 observe=["from_tokens","from_str_tokens","Program.clear_cache"])
p("C04","Candidate memory keeps the best distinct candidates",
 "After any history of insertions, the bounded best-candidate memory holds no two equal entries, never exceeds its capacity, and iterates from best to worst. An entry is only ever evicted while all the retained ones are at least as good, so the best ever inserted is always still there.",
 ["histories"],"for every insertion history, including duplicates, ties and batches pushed beyond capacity",
 "the memory tests push a few items in convenient orders; heap-order damage only shows after particular interleavings of duplicates and evictions",
 [D+"dso/memory.py"],
 [("bounded heap","UniquePriorityQueue.push/push_best/extend"),("de-duplication","unique_items"),("iteration order","iter_in_order")],
 observe=["make_queue and the queue's public methods"])
p("C05","The search reports the best candidate it ever evaluated",
 "Across the iterations of one search (stability voting off) the best-so-far reward never decreases, and the candidate reported at the end is one that was evaluated and has the maximal reward of all valid candidates evaluated. The elite kept each iteration consists of all candidates at or above the configured risk quantile and nothing else, with every per-candidate record kept in step.",
 ["histories","inputs"],"for every sequence of batches and every assignment of rewards, ties, duplicates and invalid candidates",
 "end-to-end tests run a couple of iterations and check that a result exists, not that no better candidate was forgotten on some reward history",
 [D+"searcher.py",D+"dso/subroutines.py"],
 [("best tracking","Searcher.search_one_step"),("risk-seeking filter","quantile computation and keep mask")],
 observe=["Searcher.search_one_step","Searcher.search/print results"])
p("C06","Refitting and coexisting models behave like fresh ones",
 "Setting up or fitting a model again, or using other model objects in the same process, leaves a model with the operators, constraints, data and configuration it was given: a second fit with the same inputs is configured exactly like a first, and a newly constructed model behaves as if it were alone in the process. No caller-supplied configuration, list or default is changed by constructing or fitting.",
 ["histories","configurations"],"for every sequence of construct/import/fit calls over several models and datasets",
 "tests construct one model and fit once; state leaking between fits and instances needs multi-step histories",
 ["kd/model/kd_discover.py",D+"dso/prior.py",D+"program.py",D+"config/__init__.py"],
 [("setup path","KD_Discover.setup / make_prior / make_controller"),("class level state","Program.task/library/…"),("configuration merge","load_config")],
 observe=["KD_Discover.fit_dataset","KD_Discover.import_dataset","KD_Discover.setup"])
p("C07","Executing a candidate computes the expression it denotes",
 "Evaluating a candidate's terms on a field gives, point by point, the value of the mathematical expression its token sequence denotes, and splitting a candidate into additive terms preserves the sum. Evaluation leaves the data it reads unchanged.",
 ["programs","inputs"],"for every well-formed expression over the operator library and every field",
 "tests evaluate a few fixed expressions; arity, operand order and term splitting must be right for every nesting",
 [D+"execute.py",D+"stridge.py",D+"library.py",D+"functions.py",D+"program.py"],
 [("prefix execution","execute / STRidge evaluation"),("term splitting","split forest"),("operator table","function_map / create_tokens")],
 observe=["PDE terms evaluated via STRidge / Node tree","str_p"])
p("C08","Sparse regression reports coefficients that match their terms",
 "The coefficients reported for a candidate correspond one to one, in order, to the terms reported, and the prediction they form reproduces the left-hand side with the error the reported reward is computed from. Terms removed as invalid or negligible appear in neither the term list nor the coefficient vector, and a candidate none of whose terms can be used is reported invalid rather than scored.",
 ["programs","inputs"],"for every candidate and data set, including degenerate, non-finite and linearly dependent terms",
 "tests regress two or three benign candidates; pairing after some terms were removed depends on which positions were removed",
 [D+"stridge.py",D+"program.py",D+"task/pde/pde.py"],
 [("term filtering and regression","STRidge.calculate / wf_calculate"),("reward","PDETask.reward_function")],
 observe=["Program.r_ridge, Program.w, str_print"])
p("C09","Datasets are accepted only if consistent, and read back what was given",
 "A dataset can be constructed only if coordinates and field shapes agree, and otherwise fails with an error at construction. Once built, every accessor (size, bounds, coordinates, field, point lists, sub-ranges, derivatives) reports the data in one consistent axis order, with the value at every listed point being the field value at that coordinate; an accessor that does not apply to the data's axes refuses.",
 ["inputs","configurations"],"for all dimensionalities, axis orders, shapes and coordinate sizes, legacy and general construction",
 "tests use one or two shapes; square or permuted shapes hide axis mix-ups",
 ["kd/dataset/_base.py"],
 [("construction validation","PDEDataset.__init__"),("accessors","get_data/get_size/mesh/get_datapoint/get_boundaries")],
 observe=["PDEDataset public methods"])
p("C10","Sampled training points carry the value belonging to their coordinates",
 "Whenever observations are drawn from a dataset (random subsets, noise-free, any count or axis order), every returned coordinate is a grid coordinate and is paired with the field value there. Points are distinct, the requested number or fraction is returned, and a fixed seed reproduces the draw.",
 ["inputs","configurations"],"for all dataset shapes, axis orders, sample sizes and seeds",
 "tests check shapes of the sample; wrong pairing keeps shapes",
 ["kd/dataset/_base.py","kd/model/discover/adapter.py","kd/data.py"],
 [("subset drawing","PDEDataset.sample / sample_sensor"),("flattening for the search","DSCV adapters")],
 observe=["PDEDataset.sample*, adapter outputs"])
p("C11","Fitting never alters the user's data",
 "Preparing, fitting or evaluating any model leaves the dataset object and arrays the caller supplied exactly as they were, values and order included. Two models fitted one after the other from the same dataset therefore see the same data.",
 ["histories","configurations"],"for every model, solver setting and sequence of fits sharing a dataset",
 "tests never look at the dataset after a fit",
 ["kd/model/kd_sga.py","kd/model/sga/sgapde/solver.py","kd/model/sga/sgapde/context.py","kd/model/sga/adapter.py","kd/model/kd_dlga.py","kd/model/dlga.py","kd/model/kd_discover.py",D+"adapter.py"],
 [("data hand-over","fit_dataset of each model"),("adapters","SGADataAdapter / DSCV adapters")],
 observe=["PDEDataset arrays before and after fit_dataset"])
p("C12","Estimator parameters round-trip",
 "For every model class, the parameters listed by an instance are exactly its constructor's; reading them returns what was set at construction or later, also after data were imported or a model fitted, and the current values are what the next fit uses. A request naming an unknown parameter, at whatever nesting level, is refused as a whole and changes nothing, and a clone built from an instance's parameters reports the same ones.",
 ["inputs","histories"],"for every estimator class, argument assignment and sequence of parameter updates",
 "tests read one or two parameters of one class",
 ["kd/base.py","kd/model/kd_discover.py","kd/model/kd_sga.py","kd/model/kd_dlga.py","kd/model/kd_pysr.py","kd/model/kd_eqgpt.py","kd/model/kd_discover_regression.py"],
 [("parameter introspection","BaseEstimator.get_params/set_params")],
 observe=["get_params, set_params, repr"])
p("C13","Cloud jobs are submitted once as described; true outcomes are reported",
 "A cloud submission sends exactly one job, for the configured application, whose uploaded configuration names exactly the requested model, data set and parameters (and the data file uploaded with it), in the resolved project: an explicit one, else the configured one, else the account's first. Without a project, credentials or an existing data file it fails and sends nothing; no temporary file is left behind either way. A job's status is finished or failed exactly as the service's code says. Downloading returns what that job wrote, in a folder of its own unless one was named, and never a success that this job's own result file does not state.",
 ["schedules","fault_sequences"],"for every combination of project sources, data file, credentials and service faults, every status code, and every order of downloads into separate or shared folders",
 "tests stub one fixed reply per call; stale results and leftovers need sequences of calls and faults at particular points",
 ["kd/job.py"],
 [("submission","submit_gpu_job"),("status","check_job / JOB_STATUS_MAP"),("results","download_result"),("credentials","get_credentials")],
 observe=["kd.job functions with a stub of the service's client library"])
p("C14","The command-line runner reports each run's true outcome",
 "A run from a configuration file uses exactly the model and data set it names (a data file takes precedence and is never replaced by another data set) with every supported parameter at the value given; an unknown model or data set or an unreadable configuration or data file is refused. The result file in the output folder states success, with the discovered equation and the data set's name, only if the fit produced an equation. On any failure the result file states failure with the error, the exit status is non-zero, and an earlier run's result never survives.",
 ["configurations","fault_sequences"],"for every configuration shape, every supported parameter, and a fault at every stage (configuration, load, build, fit, equation, plot, save)",
 "tests run the happy path and one or two failures",
 ["kd/runner.py"],
 [("data","load_dataset"),("models","run_dlga/run_dscv/run_dscv_spr/run_sga/run_eqgpt"),("result writing","save_output, main")],
 observe=["result files and exit status"])
p("C15","Genetic expression trees stay well-formed under variation",
 "Every candidate equation term the genetic symbolic search creates by random construction, mutation, crossover or copying is a well-formed operator tree: each operator has exactly its number of operands, leaves are operands, derivatives are taken only with respect to an independent variable other than the predicted time-like one, and the depth limit is respected. Variation of one individual never changes another.",
 ["histories","configurations"],"for every sequence of random choices in construction, mutation, crossover and replacement",
 "tests build a few random trees with fixed seeds",
 ["kd/model/sga/sgapde/tree.py","kd/model/sga/sgapde/pde.py"],
 [("tree construction/mutation","Tree.__init__/mutate"),("population operators","PDE.mutate/replace/cross_over, SGA.cross_over")],
 observe=["Tree/PDE node structure after each operation"])
p("C16","Genetic symbolic search never loses its best equation",
 "Through every generation the population keeps its size, stays ordered by score and keeps the best equation found so far, whose score never gets worse. The reported equation is that best one, its score is the one obtained by evaluating it again, and its printed terms and coefficients match.",
 ["histories"],"for every sequence of scores produced by variation operators over any number of generations",
 "tests run one or two generations and check a result exists",
 ["kd/model/sga/sgapde/pde.py","kd/model/sga/sgapde/solver.py","kd/model/kd_sga.py","kd/model/sga/main.py"],
 [("elitism","SGA.run / the_best / cross_over"),("scoring","evaluate_mse, Train")],
 observe=["SGA pool and scores per generation"])
p("C17","Variable and derivative names resolve unambiguously",
 "In the genetic symbolic search every field, coordinate and derivative gets one unambiguous name: building a derivative's name and reading it back against the data's axes returns the same field, axis and order, or refuses when two readings are possible; name clashes are resolved to distinct names or refused, and illegal names are refused. Each named operand refers to the array it is named after, and derivatives are the finite differences along the named axis.",
 ["inputs","configurations"],"for all sets of field, parameter and coordinate names and all dimensionalities",
 "tests cover a few conventional names",
 ["kd/model/sga/sgapde/naming.py","kd/model/sga/sgapde/context.py","kd/model/sga/sgapde/config.py"],
 [("key construction/parsing","naming functions"),("operand table","ProblemContext")],
 observe=["naming functions and ProblemContext tables"])
p("C18","Deep-learning genetic search keeps aligned, elitist populations",
 "In every generation of the neural-network-assisted genetic search the population keeps its size, every gene denotes a library term, each fitness and coefficient record belongs to the individual at its position, and the best fitness never gets worse. The equation finally reported is the best individual's, with that individual's coefficients.",
 ["histories","configurations"],"for every sequence of crossover, mutation and selection outcomes and every population/generation setting",
 "tests run tiny fixed populations and only check completion",
 ["kd/model/dlga.py","kd/utils/utils_GA.py","kd/model/kd_dlga.py"],
 [("variation","cross_over/mutate"),("selection with elite","select"),("report","convert_chrom_to_eq")],
 observe=["chromosomes, fitness and coefficients per generation"])
p("C19","Equations are reported in the operators the user configured",
 "For any configured operator list the neural-network-assisted genetic search evaluates and reports gene i as the i-th configured operator: the text and the typeset equation name the same terms with the same coefficients as the model that was scored. Unknown operators are refused before training rather than shifted or dropped. The term library is computed from the network checkpoint with the lowest recorded validation error.",
 ["configurations"],"for every ordered subset of the supported operators, every chromosome and every training history",
 "tests use the default operator order, where a hard-wired order and the configured one coincide",
 ["kd/model/kd_dlga.py","kd/model/dlga.py","kd/viz/dlga_eq2latex.py"],
 [("term library","KD_DLGA term table"),("checkpoint choice","train_NN / best_epoch"),("typesetting","dlga_eq2latex")],
 observe=["fit results, eq_latex"])
p("C20","Visualisation requests reach the right adapter or fail softly",
 "A plot request for a model is served by the adapter registered for the model's class or, failing that, its nearest registered base class; a later registration replaces an earlier one. A capability the adapter does not offer, an unknown model or missing data yields a result with a warning and no exception, and an adapter's result is passed through unchanged. Every path a result reports is a picture this request wrote, in the directory asked for; a request for a figure whose ingredients the model holds yields one, in whatever order model and plotting modules were imported, and a figure that could not be drawn or written is never reported as made.",
 ["histories","configurations","fault_sequences"],"for every registration history, class hierarchy, kind of model, capability and write failure",
 "tests register one adapter and ask for one capability",
 ["kd/viz/registry.py","kd/viz/core.py","kd/viz/api.py","kd/viz/adapters.py"],
 [("lookup by class walk","registry.get_adapter"),("dispatch","render")],
 observe=["kd.viz public functions"])
p("C21","Plotting leaves global plotting state and the model untouched",
 "Rendering any supported figure restores the global plotting configuration it found, also when drawing raises or requests nest, and does not change the model, its data or its discovered equation, nor the arrays or options it was given; no figure it opened stays open and none of the caller's is closed.",
 ["histories","fault_sequences"],"for every capability, nesting of styles and failure inside drawing",
 "tests inspect the returned figure only",
 ["kd/viz/_style.py","kd/viz/core.py","kd/viz/_adapters/discover.py","kd/viz/_adapters/sga.py","kd/viz/_adapters/dlga.py"],
 [("style context","style_context")],
 observe=["matplotlib rcParams before/after render"])
p("C22","Typeset equations denote the discovered equation",
 "The typeset form of a discovered equation contains exactly the discovered terms with their coefficients and signs, and each typeset term, read by ordinary mathematical convention, denotes the same expression as the discovered term: grouping, operand order and the operand and order of every derivative are preserved. Different expressions never typeset identically.",
 ["programs"],"for all expression trees over the operator set and all coefficient values and signs",
 "tests compare a few fixed strings",
 ["kd/viz/discover_eq2latex.py","kd/viz/_adapters/sga.py","kd/model/sga/sgapde/equation.py","kd/viz/equation_renderer.py"],
 [("tree to LaTeX","discover_program_to_latex / SGA equation latex")],
 observe=["LaTeX strings"])
p("C23","Generated equation sequences are grammatical; excluded tokens never appear",
 "Every equation sequence the language-model search generates starts with the time derivative and a plus, alternates terms and operators, and ends with the end token or is cut at the length limit; it never contains a token excluded for the problem, including those excluded during the search because they have no numeric value. A sequence's score is that of the equation it is reported as, each term's value being that of the expression its name says; one that cannot be read or evaluated scores 0, and a score is always a number. The same seed gives the same sequences.",
 ["histories","configurations"],"for every model output distribution, vocabulary mask and starting sequence",
 "tests stub the language model with one distribution",
 ["kd/model/eqgpt/continue_train_GPT_all.py","kd/model/eqgpt/gpt_model.py","kd/model/kd_eqgpt.py"],
 [("token sampling","get_sentence / sampling loop"),("sequence clean-up","delete_duplicate / get_concise_form"),("term values and score","calculate_reward")],
 observe=["generated sequences, rewards, reported equations"])
p("C24","The reported top list holds the best distinct equations found",
 "After every round of the language-model search the kept list holds the at most ten best distinct rewards found so far, best first, every reward belonging to its equation; no equation is listed twice and its leading reward never decreases. A non-numeric reward never enters it, and what is reported at the end is this list.",
 ["histories"],"for every history of candidate batches and rewards including ties, duplicates and non-finite rewards",
 "tests run one update",
 ["kd/model/kd_eqgpt.py","kd/model/eqgpt/continue_train_GPT_all.py"],
 [("merge of best lists","top-10 update")],
 observe=["best list after each epoch"])
p("C25","Fitted-state guards of the symbolic-regression wrapper",
 "The symbolic-regression wrapper refuses to predict or report before a successful fit and rejects inconsistent inputs before contacting its backend; after a fit, prediction and equation come from that last successful fit.",
 ["histories","fault_sequences"],"for every sequence of fit (good, bad, failing), predict and report calls",
 "tests cover single calls with a stub",
 ["kd/model/kd_pysr.py"],
 [("state guard","KD_PySR.fit/predict/equation_latex")],
 observe=["KD_PySR public methods with a stub backend"])
p("C26","Operator sets always fit the data's dimension and derivative engine",
 "Whichever datasets a model is given in whatever order, an explicit operator list of the user is searched with exactly as given; without one, the operators for a multi-dimensional dataset are exactly the configured algebraic operators plus the derivative operators proper to its dimension and derivative engine, and for a one-dimensional dataset exactly the configured ones. Operators for another dimension never remain from an earlier dataset, and the coordinates, field and parameters offered to the search are those of the current dataset.",
 ["histories","configurations"],"for every sequence of datasets of dimension one to three and every user operator list",
 "tests import one dataset per model",
 ["kd/model/kd_discover.py",D+"library.py"],
 [("automatic operator selection","_auto_select_function_set")],
 observe=["function set and library after import"])
p("C27","Every registered dataset loads into a consistent dataset",
 "Every dataset the registry marks as active loads into a dataset that is the stored one with shape, coordinates and metadata in agreement, and whose declared true equation describes its data. Loading is repeatable and independent of earlier loads and of what callers do with what they were given, a dataset that cannot be loaded fails with an error, and an unknown name is refused with an error naming it.",
 ["configurations","histories"],"for every registered name and every order of loads and uses",
 "tests load some of the datasets once",
 ["kd/dataset/__init__.py","kd/dataset/_registry.py","kd/dataset/_info.py"],
 [("registry lookup","load_pde")],
 observe=["load_pde, list_datasets"])
p("C28","Figures show the values they claim, where and when they claim",
 "Whatever dimension, axis order, coordinate direction and sizes the data have, every map, curve, point cloud and histogram drawn of a fitted model shows, at the place, time and quantity its labels name, the value the data or the reported equation - its terms with their coefficients and constant - has there, over the whole axis. A residual is the actual minus the predicted value at the same point; arrays and summaries handed back with a figure are those it shows. Time slices are those nearest to the times asked for; more than two spatial dimensions are cut at the axis and index asked for, else at the middle. Histories show each round's own values and the best so far. Arrays that do not belong together are refused.",
 ["inputs","configurations"],"for every dimension, axis order, descending or ascending coordinates, equation, requested slice, cut and history",
 "tests check that a file was written or that a residual array has some shape",
 ["kd/viz/_contracts.py","kd/viz/_adapters/discover.py","kd/viz/_adapters/sga.py","kd/viz/_adapters/dlga.py","kd/viz/_adapters/pysr.py","kd/viz/discover_viz.py","kd/viz/dlga_viz.py"],
 [("pictures of fields and residuals","_field_comparison / _residual / _parity / _time_slices"),("cut of more than two dimensions","slice_3d_to_2d"),("reward curves and densities","_search_evolution / _density"),("terms of a DLGA equation","_derivative_relationships")],
 observe=["figures as drawn, VizResult metadata"])
p("C29","The web page runs what was asked and shows what came of it",
 "Whatever sequence of datasets, models, trainings, job checks, cancellations and figure requests a visitor makes: the datasets offered are those the registry does not mark as pending, the models those it marks for the dataset (and EqGPT, which brings its data), with the fields of the chosen model shown. A training request runs the chosen model once on the chosen dataset with the entered values; exactly when a GPU model is asked for by a visitor logged in to the platform it is sent as one job instead, with the same values. An equation is shown exactly when the run it belongs to found it, as that run's; a failure at any stage is told and shows no equation. A submitted job is followed until it is known to have ended or something else is asked for, and is called finished only if its run succeeded. A figure request draws the chosen kind from the model kept, and shows the figure that was drawn, with any warnings, or says why there is none; figure settings are left as they were.",
 ["histories","configurations","fault_sequences"],"for every session and every failure of a fit, the cloud service or a figure",
 "tests search the page's source text for names; nothing runs it",
 ["app.py"],
 [("training requests","run_training / _run_local / _submit_gpu_training"),("job following","check_gpu_status"),("figures","run_viz / _render_equation_fig"),("wiring of fields, state and buttons","build_app")],
 observe=["the page's fields, choices and state after every click, through its own wiring (stand-in for gradio)"])
p("C30","Public names are there, and the same, in any order of asking",
 "Every name kd, kd.model, kd.viz and kd.dataset offer resolves in a fresh process whatever was imported or asked for before - by import, attribute access, from-import or star-import - and is one and the same object from every place that offers it; a name that is not offered is refused as an attribute or import error. Whichever of a model class and kd.viz is loaded first, the plots know that class (and a user's subclass of it) by the same list of figures. Loading the package writes no files, moves no directory, consumes no random numbers and never loads PySR.",
 ["histories","schedules"],"for every order of imports, attribute accesses, from- and star-imports in a fresh process",
 "tests run in one process in which everything has been imported already",
 ["kd/__init__.py","kd/model/__init__.py","kd/viz/__init__.py","kd/viz/adapters.py","kd/viz/registry.py","kd/dataset/__init__.py"],
 [("lazy names","kd.__getattr__ / kd.model.__getattr__"),("default adapters","register_default_adapters / register_lazy_adapter")],
 observe=["import, getattr, from-import and star-import in fresh processes", "list_capabilities"])
p("C31","Stability selection: distinct leading candidates, most-favoured one reported",
 "With stability selection on, a finished search puts its memory's leading candidates to the test: candidates of the same test error count as one, represented by its shortest form, none of the distinct ones is lost, and at most the configured number of them - the leading ones - is asked. It reports the one whose product of error and coefficient spread is the smallest in the most draws, under its own reward and expression, and leaves the memory as it was; off, it asks nobody and reports the best. A draw's error and spread estimate the equation's fit error and coefficient uncertainty on the data, change neither, and an equation that holds exactly beats one that does not in every draw.",
 ["histories","inputs"],"for every memory of candidates (order, lengths, test errors, repetitions) and every outcome of the draws",
 "tests run one search whose memory holds a few candidates; which one is asked, lost or outvoted depends on the order, lengths and repetitions in the memory",
 [D+"searcher.py",D+"ga_utils.py",D+"utils.py",D+"program.py",D+"task/pde/pde_pinn.py"],
 [("vote","Searcher.search"),("weeding out repeated candidates","drop_duplicates"),("product of error and spread","criterion"),("draws","PDEPINNTask.stability_test / cal_mse_cv")],
 observe=["whom Searcher.search asks and reports","Program.execute_stability_test"])
p("C32","Sparse-data search: every round scored and fitted on its own field",
 "The sparse-data search fits a network to the drawn observations and then alternates searches with fits constrained by an equation, as many as configured, ending with a search whose equation is what is reported. After every fit the field, its time derivative and its coordinates that equations are scored on are those the network has at that moment, at the collocation points inside the cut. Every score used or reported belongs to the field of its own round; none survives from an earlier one. A constrained fit uses the better - on that field - of the round's result and the carried equation with the coefficients found for it, and descends the misfit to all observations, each paired with its own value, plus the configured weight times the mean squared residual of that equation at the collocation points and, if asked for, near the observations.",
 ["histories","inputs"],"for every history of rounds (what each finds and how earlier equations score on the new field), number of dimensions and setting",
 "tests check that training runs and returns something; scores of a former field or an unpaired observation look just as plausible",
 ["kd/model/kd_discover.py",D+"pinn.py",D+"loss.py",D+"task/pde/pde_pinn.py",D+"task/pde/utils_noise.py",D+"program.py",D+"stridge.py"],
 [("alternation","KD_Discover_SPR.callIterPINN / reset_up / pinn_train"),("reading the field","PDEPINNTask.generate_meta_data / AD_generate_1D / AD_generate_mD"),("constrained fit","PINN_model.pretrain / train_pinn / local_sample"),("penalty","pinn_loss / STRidge.calculate_RHS")],
 observe=["Searcher.search results and Program.cache per round","task.u/ut/x/t after each fit","network parameters before and after a fit"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
