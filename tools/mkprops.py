"""Writes properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Data handed over by the caller is never modified",
  "Constructing a dataset, importing data into a model, adapting, fitting, predicting and plotting never change the arrays, dataset objects, dictionaries or lists that the caller supplied. Every in-place step (shuffling, adding noise, normalising, filling, sorting, popping configuration keys) works on a private copy, whatever options are chosen and whichever data layout (1-D, N-D, sparse) is used.",
  ["inputs", "configurations", "histories"],
  "every public estimator, adapter, dataset constructor, loader and plotting entry point; every option combination and branch; arrays, coordinate dictionaries, metadata and option dictionaries alike",
  "Tests compare results of one call on throw-away arrays; none compares the inputs before and after, and in-place writes through views appear only on particular branches (full grid, noise, sampling, masks).",
  ["kd/dataset/_base.py", "kd/model/kd_dlga.py", "kd/model/dlga.py", "kd/model/kd_sga.py", "kd/model/sga/sgapde/context.py", "kd/model/sga/sgapde/config.py", "kd/model/kd_discover.py", "kd/model/discover/adapter.py", "kd/model/kd_pysr.py", "kd/viz/_adapters"],
  [("np.asarray / .copy() / .astype at the boundary", "kd/dataset/_base.py PDEDataset.__init__; kd/model/discover/adapter.py"), ("ProblemContext copies the field before differentiating", "kd/model/sga/sgapde/context.py")],
  [("PDEDataset.usol/x/t/coords_1d/fields_data", "caller arrays", "kd/dataset/_base.py")],
  ["the caller's arrays after fit/fit_dataset/import_dataset/plot_*"])

p("C02", "Random draws are governed by the user's seed",
  "Every estimator that accepts a seed (KD_Discover, KD_Discover_SPR, KD_Discover_Regression, KD_SGA, KD_EqGPT; random_state for the sparse sampling of KD_Discover_SPR) makes all of its random draws, including initial network weights, collocation and train/test sampling and genetic operators, from generators that were seeded from that parameter beforehand, whatever random state the process was in before. Two fresh instances built with the same seed and data therefore follow the same random stream; no draw uses a generator nothing has seeded, the clock, or a generator seeded only after the draw. A private generator with a fixed seed is allowed only where the user's seed is not at hand.",
  ["histories", "configurations", "inputs"],
  "every public estimator with a seed parameter, every path from construction through import to fit, every random source (random, numpy, torch, tensorflow)",
  "A test would have to run every training path twice in one process and compare; current tests run each once, and an unseeded draw on one branch is invisible in a single run.",
  ["kd/model/kd_dlga.py", "kd/model/dlga.py", "kd/model/kd_discover.py", "kd/model/discover/searcher.py", "kd/model/discover/adapter.py", "kd/model/discover/pinn.py", "kd/model/kd_sga.py", "kd/model/sga/sgapde/context.py", "kd/model/sga/sgapde/metann.py", "kd/model/kd_eqgpt.py", "kd/dataset/_base.py"],
  [("seed initialisation", "KD_Discover.set_seeds, KD_SGA.fit_dataset, KD_EqGPT.fit_pretrained"), ("private generators from random_state", "kd/model/discover/adapter.py, kd/model/kd_dlga.py, kd/dataset/_base.py")],
  observe=["sequence of random draws"])

p("C03", "Reusing an estimator leaves no residue from earlier runs",
  "Importing data and fitting with an estimator instance that was already used behaves as with a fresh instance built with the same parameters: options are not consumed by a run, output locations do not grow, and histories, caches, scores and candidate pools from the earlier run are not read or extended. State shared between instances (class attributes, module-level configuration) is reset or rebound at the start of each run before it is read.",
  ["histories"],
  "every sequence import/fit/import/fit on one instance and on two instances in one process, for every public estimator",
  "Every test uses a fresh instance once; residue shows only on the second run of the same object or of the same process.",
  ["kd/model/kd_discover.py", "kd/model/kd_dlga.py", "kd/model/dlga.py", "kd/model/kd_sga.py", "kd/model/kd_pysr.py", "kd/model/kd_eqgpt.py", "kd/model/discover/program.py", "kd/model/discover/searcher.py", "kd/model/discover/dso/prior.py"],
  [("configuration is rebuilt / copied per run", "KD_Discover.set_config, make_prior"), ("program cache cleared", "Program.clear_cache"), ("histories reset", "DLGA.evolution")],
  [("Program class attributes", "per-process search state", "kd/model/discover/program.py")],
  ["out_path, config_prior, histories, Program.cache"])

p("C04", "Derivative operators compute the derivative they name",
  "Every finite-difference routine and every automatic-differentiation routine returns the derivative its name, its arguments or the term it stands for announce: the right order, along the right axis, of the right field, divided by the right power of the actual spacing. Every row of the result, interior and boundary alike, holds a stencil that is consistent with that derivative (exact on polynomials up to the order of the derivative, second-order exact in the interior), for 1-D, 2-D and 3-D fields and for numpy and torch versions alike; the 2-D spatial operators treat the grid as periodic, and the rows the DISCOVER operators document as left at zero are exactly the outermost ones. This covers the DISCOVER operators and their plot evaluator, PDEDataset.get_derivative, the SGA context (finite difference and autograd), the DLGA meta data, the PINN losses and every word of the EqGPT vocabulary.",
  ["inputs"],
  "every field, every uniform grid size and spacing, every index of the output, every derivative routine or vocabulary word shipped",
  "Tests sample few fields with loose tolerances and mostly look at interior points; a wrong coefficient at one boundary index, in one axis or one dimension variant passes them.",
  ["kd/model/discover/stridge.py", "kd/model/discover/functions.py", "kd/model/discover/task/pde/utils_fd.py", "kd/model/discover/task/pde/utils_v1.py", "kd/model/discover/task/pde/utils_nn.py", "kd/model/discover/pinn.py", "kd/utils", "kd/dataset/_base.py", "kd/model/sga/sgapde/PDE_find.py", "kd/model/sga/sgapde/context.py", "kd/model/dlga.py", "kd/model/kd_dlga.py", "kd/model/eqgpt", "kd/viz/discover_viz.py"],
  [("FD stencils", "Diff, Diff2, Diff3, Diff4, Diff_2, Diff2_2, FiniteDiff..."), ("automatic derivatives", "diff_t.., calculate_terms, generate_meta_data")],
  observe=["values returned by the derivative routines"])

p("C05", "Operator vocabularies agree across all tables",
  "For every operator the DISCOVER search can put into an equation, the announced arity is the number of operands its implementation takes, and execution, its torch twin, the text and SymPy forms of programs and terms, and the re-evaluation for plots all give it the meaning its name says (for operands of ordinary size, where guards against overflow and zero do not bite; |x| under a logarithm or root is accepted). Splitting an expression into terms yields terms that add up to it; switching a program to torch replaces every operator by its own twin; every operator named by a packaged configuration or a default is registered and belongs to the data's dimension. In LaTeX every leaf name is one symbol and every coefficient multiplies its whole term. The SGA operator tables agree with each other and with the names, and SGA equations read back, by the ordinary rules of notation, as the tree they were made from, with the fitted field and axis on the left. DLGA equation texts name the term each coefficient belongs to for every operator list, and an unknown operator is refused. Named regression expressions use each variable's own name.",
  ["programs", "configurations"],
  "every operator name in every vocabulary (DISCOVER function library and torch twins, SGA operator tables, DLGA terms), every arity, every consumer",
  "Tests exercise a handful of operators in fixed equations; a rarely chosen operator with a wrong twin, arity or missing handler is never sampled.",
  ["kd/model/discover/functions.py", "kd/model/discover/library.py", "kd/model/discover/execute.py", "kd/model/discover/stridge.py", "kd/viz/discover_eq2latex.py", "kd/viz/discover_viz.py", "kd/model/sga/sgapde/config.py", "kd/model/sga/sgapde/context.py", "kd/model/sga/sgapde/equation.py", "kd/viz/dlga_eq2latex.py", "kd/model/kd_dlga.py"],
  [("function_map / library tokens", "kd/model/discover/functions.py, library.py"), ("OPS tables", "kd/model/sga/sgapde/context.py")])

p("C06", "Constructor parameters can be read back and set",
  "For every public estimator, every constructor parameter is a named parameter (no catch-all arguments), and whatever value of the declared type is given, falsy, large and None included, right after construction the attribute of the same name holds exactly that value (an empty collection and None count as equal) unless the constructor refuses it; no attribute depends on another parameter. For the estimators of the common base class, get_params reports exactly the constructor's parameters with these values, printing works, constructing a new instance from the parameters read back gives the same parameters, set_params changes exactly the named parameters and returns the estimator, and unknown names are refused.",
  ["inputs", "configurations"],
  "every public estimator class, every constructor parameter, every value including None and non-defaults",
  "Tests read parameters back for one or two estimators only; a parameter stored under another name or only on one branch breaks inspection for the rest.",
  ["kd/base.py", "kd/model/kd_dlga.py", "kd/model/dlga.py", "kd/model/kd_discover.py", "kd/model/kd_discover_regression.py", "kd/model/kd_sga.py", "kd/model/kd_pysr.py", "kd/model/kd_eqgpt.py"],
  [("parameter names from the constructor signature", "kd/base.py BaseEstimator.get_params")])

p("C07", "Inconsistent datasets are rejected at construction",
  "A dataset object that exists is self-consistent: constructing a PDEDataset always raises an error when the field (any field, target or not) or a parameter field does not have exactly the shape the coordinates and the axis order give, when a coordinate holds another number of values than its axis, when axis_order does not name every coordinate axis exactly once, when an array, the fields, the coordinates or the axis order are missing, when the target field or the left-hand-side axis is not among the declared ones, or when a parameter field is not finite. The 1-D forms (pde_data, x/t/usol) and the N-D form enforce this for every argument (a coordinate is read as the flat list of its values). The SGA problem context built directly from a solver configuration refuses the same inconsistencies of fields, coordinates, axis order, target field and left-hand-side axis.",
  ["inputs", "configurations"],
  "every combination of constructor arguments of the dataset class with an inconsistency, for 1-D and N-D data of any size",
  "Tests try a few malformed inputs; each guard covers a different combination and dropping one leaves the others passing.",
  ["kd/dataset/_base.py", "kd/model/sga/sgapde/context.py"],
  [("shape and membership guards", "kd/dataset/_base.py PDEDataset.__init__ and helpers"), ("structured grid guards", "kd/model/sga/sgapde/context.py ProblemContext")])

p("C08", "Estimators refuse invalid arguments and unfitted use",
  "Public estimator entry points refuse wrong use with an exception before any training is started and before the estimator is changed: anything but a PDEDataset passed where one is required (fit_dataset, import_dataset, whatever attributes the object has); a requested number or fraction of sample points the data cannot give (none, negative, more than there are, a fraction outside (0, 1], a cut of half or more), an unknown sampling method, Xy_from, EqGPT scenario or case filter, a number of EqGPT epochs or samples that is not a positive integer, a negative EqGPT seed; a target field, left-hand axis, primary axis or n_input_dim the data do not have; feature matrices that are not two-dimensional or whose length, names or number of columns do not match; fields that are not finite, time grids that are not evenly spaced or do not advance, axes with too few or repeated points for differencing, a field that no longer matches its coordinates, half of a structured payload; options a layout does not support; prediction, plotting or equation access before a fit. No such call proceeds to compute a result or silently substitutes another value. The corresponding correct uses are accepted.",
  ["inputs", "histories"],
  "every public estimator entry point and every listed class of wrong use, before and after a fit",
  "Tests check a few rejections per estimator; each guard is a separate branch that the other tests do not need.",
  ["kd/model/kd_dlga.py", "kd/model/kd_sga.py", "kd/model/kd_discover.py", "kd/model/kd_pysr.py", "kd/model/kd_eqgpt.py", "kd/model/discover/adapter.py", "kd/model/sga/adapter.py"],
  [("argument guards", "fit_dataset / import_dataset / adapters; PDEDataset.sample; ProblemContext; _validate_inputs")])

p("C09", "The left-hand side never reappears on the right in SGA",
  "An equation discovered by the symbolic genetic algorithm for a given left-hand-side axis never explains the left-hand-side derivative by itself. The table of differentiation variables never offers that axis, and each of its entries carries the coordinates of the axis it is named after; every operand, derivative building block and default term offered is free of any difference or derivative along that axis; whatever the random draws are, growing and mutating an expression put only offered differentiation variables to the right of a derivative operator; and a candidate term that still contains a derivative along the left-hand-side axis is discarded before coefficients are fitted. This holds for every dimension, axis naming, metadata mode and operator table.",
  ["programs", "configurations", "inputs"],
  "every configuration of axes, target field and left-hand-side axis, every generated or mutated expression tree, every sequence of random draws",
  "Tests run tiny populations with fixed seeds; a leak needs a particular random draw or an unusual axis configuration.",
  ["kd/model/sga/sgapde/context.py", "kd/model/sga/sgapde/tree.py", "kd/model/sga/sgapde/pde.py", "kd/model/sga/sgapde/config.py"],
  [("operator tables exclude the lhs axis", "kd/model/sga/sgapde/context.py"), ("right operand of a derivative drawn from the denominator table", "kd/model/sga/sgapde/tree.py"), ("terms with a left-hand-side derivative are discarded", "kd/model/sga/sgapde/pde.py")])

p("C10", "The plotting facade answers every request without raising",
  "A public plotting function called for a model without an adapter, for a plot the model's adapter does not support, or for a model that has not been trained yet returns a result object with a warning instead of raising. The result names the kind of plot that was requested, different plotting functions request different kinds, and every argument of a plotting function reaches the adapter under its own name. A plot an adapter advertises is one it implements, and everything it implements is advertised.",
  ["inputs", "configurations"],
  "every facade function, every adapter, every target object (registered, unregistered, unfitted)",
  "Tests call each facade function on stub adapters for one or two models; the product of plots and adapters, and unfitted targets, is not covered.",
  ["kd/viz/api.py", "kd/viz/core.py", "kd/viz/registry.py", "kd/viz/_contracts.py", "kd/viz/_adapters"],
  [("dispatch on capabilities", "kd/viz/core.py"), ("capabilities sets", "kd/viz/_adapters/*.py")])

p("C11", "Plot files are written only where the user asked",
  "Plotting writes files only under the output directory the user configured or passed, and every file path a plot result reports lies under it. No plot writes into the current directory, the package directory or next to the data when an output directory is set; when none is set, only under the current directory. A reported file was written by that call, and two different plots of one model do not write the same file. Setting the configured directory to None removes it, and the command-line runner and the web app leave the configured directory as they found it.",
  ["configurations", "inputs"],
  "every adapter, every plot, every configuration of output directory and file name",
  "Tests look for one expected file; they do not look for files that should not be there nor for branches with another file name.",
  ["kd/viz/_adapters", "kd/viz/core.py", "kd/viz/_style.py", "kd/viz/dlga_viz.py", "kd/viz/discover_viz.py", "kd/viz/equation_renderer.py"],
  [("output path resolution", "kd/viz/core.py VizContext, adapters' _resolve_output")])

p("C12", "Importing and plotting leave process-wide settings alone",
  "Importing any part of the package and rendering any plot leave process-wide settings as they were: the working directory, plotting style and backend parameters, default numeric precision and device, warning filters, logging configuration, module search path and the state of the global random generators. Whatever a rendering call must change temporarily it restores on every exit, including when it fails.",
  ["histories", "fault_sequences"],
  "every import order of the shipped modules; every plot call, successful or failing",
  "Tests do not compare process-wide state before and after, and the failing exits are not exercised.",
  ["kd/__init__.py", "kd/viz", "kd/model", "kd/dataset", "kd/utils"],
  [("style context manager", "kd/viz/_style.py"), ("no module-level side effects", "all modules")])

p("C13", "Heavy optional backends are imported only when their model is used",
  "Importing kd, kd.base, kd.data, kd.dataset, kd.model, kd.runner, kd.job, the PySR model or the EqGPT wrapper loads no numerical backend (torch, numba, TensorFlow, Julia, platform SDKs) and no other model. Importing one model never loads another model, the plotting package, TensorFlow or Julia, and asking kd or kd.model for one model by name loads only that one. The plotting package never loads TensorFlow, Julia or the PySR model, and registering a model's plots contains a failure to import that model, so the other models keep theirs. The Julia backend is imported only inside functions of the PySR model that building, printing and inspecting it do not reach; the job SDK only inside the functions that talk to the job service.",
  ["configurations", "histories"],
  "every import of a public module or model, transitively, in every order",
  "Test processes import everything together; an eager import added anywhere in the chain passes unless the backend is missing.",
  ["kd/__init__.py", "kd/model/__init__.py", "kd/model/kd_pysr.py", "kd/viz/__init__.py", "kd/viz/adapters.py", "kd/viz/_adapters", "kd/runner.py", "kd/job.py"],
  [("lazy module attribute access", "kd/model/__init__.py, kd/__init__.py"), ("function-level imports", "kd/model/kd_pysr.py, kd/runner.py")])

p("C14", "Job files, command line and web app agree on one protocol",
  "The web application, the job layer and the command-line runner agree: every model offered for a data set is one the registry marks for it and can be trained in the process; a job's configuration reaches an estimator through the runner with every parameter arriving at the same estimator parameter and with the same value as an in-process run would use; the result files and directories written are those the readers look for; every job status code and result status is classified and shown as what it says (a running job is kept, an ended one dropped, an error never shown as a result). Every callback takes and returns exactly one value per connected input and output on every path, including errors, and nothing fallible runs outside its error handling. A runner run always ends with a written result or a non-zero exit status, and temporary files are removed on every exit.",
  ["inputs", "fault_sequences", "configurations"],
  "every model choice, every parameter set, every callback path and failure point",
  "The web layer has no tests that execute the callbacks' error paths, and name mismatches between front end and runner appear only when that model is started.",
  ["app.py", "kd/job.py", "kd/runner.py"],
  [("model keys and parameter builders", "app.py, kd/job.py"), ("runner dispatch", "kd/runner.py")])

p("C15", "Every figure opened by a plot is released",
  "A plotting call that creates a figure closes it or hands it back to the caller on every path on which it returns, including after failures it handles itself, so repeated plotting does not accumulate open figures. A facade call that fails while drawing or saving does not leave a figure open that it opened, and no plotting call closes figures that others opened. This covers the plotting facade, the plotting modules, the plot methods of models and data sets, the command-line runner and the web app; it does not cover diagnostic plots made inside a training loop.",
  ["histories", "fault_sequences"],
  "every plotting routine reachable from the facade, every path through it",
  "Leaks show only after many calls or on error paths; tests call each plot once.",
  ["kd/viz/_adapters", "kd/viz/dlga_viz.py", "kd/viz/discover_viz.py", "kd/viz/equation_renderer.py", "kd/model/sga/sgapde/visualizer.py"],
  [("plt.close after savefig", "kd/viz/*")])

p("C16", "Every internal reference resolves",
  "No shipped code path reachable from the public interface refers to something that does not exist: every name used is defined or imported, every attribute taken from a shipped module exists in it, every call to a shipped function or constructor supplies its required arguments and only arguments it accepts, and every name a package advertises as public can be obtained from it.",
  ["inputs", "configurations"],
  "every statement of every shipped module reachable from the public API, whatever branch it is on",
  "Python resolves names when a line is executed; lines on branches the tests do not take are never resolved.",
  ["kd", "app.py"],
  [("module namespaces and signatures", "all modules")])

p("C17", "Hard constraints on the search space cannot be outvoted",
  "In the neural-guided search, after any drawn tokens a token has zero probability exactly when an enabled hard constraint forbids it at the place to fill next. The constraints mean what they say: relations (child, left and right child, only child, sibling, descendant), inverse operators, nested trigonometric operators, repetition bounds, inputs, operands of differentials, and length limits. A forbidden token stays forbidden whatever other priors or the network add. Every enabled constraint whose tokens are offered is built from the configuration, also when the same configuration is used again, and is consulted at every step about the tokens drawn so far. Each draw uses the network's answer and the verdict of the same row and step, and training scores the expressions with the same sum. No sampled expression exceeds the configured maximum length or falls below the minimum length.",
  ["programs", "configurations", "histories"],
  "every prior configuration, every partial expression, every sequence of queries",
  "Tests sample few expressions; a constraint that is weakened or skipped for particular sibling/parent combinations is rarely hit.",
  ["kd/model/discover/dso/prior.py", "kd/model/discover/controller.py", "kd/model/discover/state_manager.py"],
  [("-inf logit masks added together", "kd/model/discover/dso/prior.py JointPrior, Constraint.make_constraint")])

p("C18", "Field values stay paired with their own coordinates",
  "Whenever gridded data are flattened, sampled (random, uniform, spline), cut, shuffled, split into training and validation rows, kept for a later stage or re-gridded for a model or a field-comparison plot, each field value (and parameter-field value) stays paired with its own coordinates: every row's coordinate columns hold exactly the coordinates of the grid point the value was sampled at, in the declared column order (spatial axes in axis order, the left-hand-side axis last, for DISCOVER; axis order for SGA; (x, t) for 1-D data), and a training or validation loss compares the network at a row's coordinates with the sample of that same row only. This holds for 1-D+time and N-D data, any axis order, ascending or descending coordinates, full-grid and subsampled, clean and noisy, for PDEDataset, the DISCOVER regular and sparse adapters, SparseData, the built-in 1-D PINN data, KD_DLGA, the SGA context and surrogate network, the PINN pre-training and the EqGPT surrogate.",
  ["inputs", "configurations"],
  "every dataset shape, axis order, coordinate values and sampling option, every random draw, each path that turns gridded data into samples or back",
  "Tests use square or nearly square grids and check shapes and lengths, which a swapped axis order or independently drawn index leaves intact.",
  ["kd/dataset/_base.py", "kd/data.py", "kd/model/dlga.py", "kd/model/kd_dlga.py", "kd/model/discover/adapter.py", "kd/model/discover/pinn.py", "kd/model/discover/task/pde/dataset.py", "kd/model/kd_eqgpt.py", "kd/model/sga/sgapde/metann.py", "kd/model/sga/sgapde/context.py", "kd/viz/_adapters", "kd/viz/discover_viz.py"],
  [("meshgrid(indexing='ij') + ravel", "kd/dataset/_base.py, kd/model/discover/adapter.py"), ("paired shuffles and splits", "kd/model/dlga.py, kd/data.py")])

p("C19", "The dataset registry is complete and loadable",
  "Every dataset name the package lists can be loaded by that name from any working directory: its entry points to a shipped file and names the variables of the right role, and the result is a dataset (never nothing) whose field has one row per x and one column per t and which carries the registered name, legacy name and aliases. Options given by the caller take effect for every name, unknown names are refused, and the metadata of an entry (true equation over the operator library, domain and shape matching the data, status and model-support flags) is consistent. The same holds for the regression tables, the deprecated loaders and the built-in DISCOVER data.",
  ["configurations"],
  "every registry entry, every alias, every loader branch",
  "Tests load a few of the entries; a broken entry or key is found only by a user who asks for it.",
  ["kd/dataset/_registry.py", "kd/dataset/__init__.py", "kd/dataset/_info.py", "kd/dataset/data"],
  [("registry table and loader", "kd/dataset/_registry.py, kd/dataset/__init__.py")])

p("C20", "The best candidate found is never lost, and what is reported belongs together",
  "For every order the scores of the candidates can take, ties included: (SGA) after the first population is made and after every crossover and mutation the population keeps its size, every equation in it carries the score that equation was given, and the best equation evaluated so far is in it; the solver returns the text, score and details of that best equation. (DLGA) Selection keeps, for each surviving chromosome, its own fitness, coefficients and name, best first, and the chromosome, coefficients, fitness and name returned by the evolution are those of the best chromosome evaluated in any generation, the first included. (EqGPT) Each reported equation carries its own reward, rewards are listed best first, best_equation and best_reward are those of the best sentence evaluated in any round, and a sentence none of the surrogates can evaluate gets a number as reward, not NaN. (DISCOVER search without stability selection) the reward, expression, traversal and program returned are those of the best valid program evaluated in any batch.",
  ["programs", "histories"], "every search history: every order of the scores of the candidates, every random draw of crossover and mutation",
  "Tests run short searches with fixed seeds and cannot see which candidate should have been kept.",
  ["kd/model/sga/sgapde/solver.py", "kd/model/sga/sgapde/pde.py", "kd/model/dlga.py", "kd/model/discover/searcher.py", "kd/model/kd_eqgpt.py", "kd/model/eqgpt/continue_train_GPT_all.py"],
  [("population and elite", "SGA.cross_over, SGA.change, SGA.the_best"), ("selection and elite", "DLGA.select, DLGA.evolution"), ("running top list", "KD_EqGPT._update_top10, find_min_no_repeat"), ("best program", "Searcher.search_one_step, Searcher.search")])
p("C21", "Coefficients, scores and predictions belong to the terms they are reported with",
  "Whatever the data and whatever terms are dropped on the way: (SGA) when the sparse regression cuts terms, the coefficients it keeps are the least-squares fit of the kept terms alone, in the units of the terms (normalisation undone), each at the place of its own term, and the others are zero (a threshold that cuts every term at once is only a probe); the training returns the weights with the smallest score among the full fit and every tolerance tried, together with the error, mean square and score of exactly these weights; the regression is on the default terms followed by the terms that survive evaluation, in order, against the left-hand side, and the printed equation, the equation details, the LaTeX text (with its signs) and the predicted right-hand side give every coefficient to its own term. (DLGA) Column k of the candidate's library is the product of the genes of module k; the coefficients, the error, the fitness (error plus length penalty) and the name of the left-hand side that are returned all belong to one left-hand side, the one with the smaller error; equation text and LaTeX write coefficient k with module k. (DISCOVER) Coefficient k of a program is the fit of the term kept at place k, the constant last, also after terms are refused or a negligible constant is dropped; prediction, matrix, residual and text use the same pairing. (EqGPT) The reward of a sentence is the coefficient of determination of its first term fitted by its other terms, each being the product it spells, reduced by the length penalty and averaged over the surrogates, each evaluated on its own data.",
  ["programs", "inputs"], "every library of terms and target, every outcome of every threshold and score comparison, every set of dropped terms",
  "Tests fix a data set in which all terms survive, and compare numbers within tolerances; a coefficient shown with another term needs a term dropped or a threshold crossed at the right place.",
  ["kd/model/sga/sgapde/PDE_find.py", "kd/model/sga/sgapde/pde.py", "kd/model/sga/sgapde/equation.py", "kd/model/dlga.py", "kd/viz/dlga_eq2latex.py", "kd/model/discover/stridge.py", "kd/model/discover/program.py", "kd/model/eqgpt/continue_train_GPT_all.py"],
  [("sparse regression", "STRidge, Train, evaluate_mse"), ("reported equation", "PDE.concise_visualize, extract_equation_details, sga_equation_to_latex, DLGA.convert_chrom_to_eq, dlga_eq2latex, Program.str_expression"), ("scoring", "DLGA.get_fitness, STRidge.calculate, calculate_reward")])
p("C22", "Known equations are rediscovered from clean data",
  "On noise-free data generated from an equation within a model's search space the model reports an equation with the same terms and coefficients close to the true ones.",
  ["inputs", "configurations"], "all equations and datasets in scope", "Statistical end-to-end outcome.",
  ["kd/model"], [("whole search", "kd/model")])
p("C23", "Surrogate training converges and its derivatives are accurate",
  "The neural surrogate approximates the field and its automatic derivatives approximate the field's derivatives within the reported loss.",
  ["inputs"], "all datasets", "Depends on optimisation.",
  ["kd/model/dlga.py", "kd/model/sga/sgapde/metann.py", "kd/model/discover/pinn.py"], [("training loops", "train_NN, train_metanet, PINN_model.train")])
p("C24", "Random variation keeps candidates well formed and always finishes",
  "Whatever the random draws are: (SGA) growing or mutating a term gives a tree with one root, in which every node's name, number of operands and operation come from one table entry, the operands of the operators on each level are disjoint and cover the next level, and the prefix and infix texts spell that tree; mutation finishes for every operator table KD_SGA builds (any set of axes and any left-hand-side axis); the width of an equation equals the number of its terms, between 1 and the configured width, after it is made, mutated, replaced in or evaluated; evaluation discards exactly the terms that contain a derivative along the left-hand-side axis and keeps the others in order. (DLGA) Random genomes, mutation, crossover and removal of duplicates never leave an empty chromosome or module, never produce a gene that is not a right-hand-side column, keep the size of the population, exchange but never lose modules, keep each distinct module exactly once, and work for every number of generations. (DISCOVER) A sampled token sequence is cut to its first complete expression or completed with input variables, never left incomplete or with trailing tokens.",
  ["programs", "histories"], "every sequence of random draws, every operator table, every population",
  "Tests draw with a few fixed seeds; a malformed candidate or an endless redraw needs one particular draw.",
  ["kd/model/sga/sgapde/tree.py", "kd/model/sga/sgapde/pde.py", "kd/model/dlga.py", "kd/model/discover/program.py"],
  [("tree growth and mutation", "Tree.__init__, Tree.mutate, dfs, tree2str_merge"), ("equation width and discarded terms", "PDE, evaluate_mse"), ("genome operators", "DLGA.random_module, random_genome, cross_over, mutation, delete_duplicates"), ("token completion", "_finish_tokens")])
p("C25", "Figures show the quantities their labels name, at the places their axes name",
  "Whatever the data, the number of space dimensions (1 to 3), the storage order of the axes and the options: in the field, residual, time-slice, parity, derivative-relationship, search-evolution, reward-density, optimisation and loss figures that the adapters of SGA, DLGA, DISCOVER (and its sparse-data variant) and PySR draw, and in the legacy plotting functions beside them, every value drawn is the sample of the quantity that the panel's title, legend entry or axis label names (true/actual/original/exact/left-hand side against predicted/metadata/right-hand side/model output; residual, which is true minus predicted), at the coordinates at which it is drawn; an axis labelled time or space carries the coordinates of that axis, so no panel is transposed, mirrored or taken from another slice; the moment written in a title is the moment that is drawn; time slices are taken at the samples nearest to the moments asked for; a cut asked for by axis and index is the one drawn; parity plots pair the true and the predicted value of the same sample, every sample once; histories are drawn in order, each under its own name and step; the panel of a term carries that term's values against the left-hand side, its own label and coefficient, and the terms with the largest coefficients are the ones shown; the samples and the statistics (mean, standard deviation, largest absolute value, root mean square) returned with a figure are those of the quantities it shows; and each kind of figure shows all the quantities it is there to compare.",
  ["programs", "inputs"], "every field sample, every grid of distinct coordinates, both storage orders, 1-3 space dimensions, any requested slice time",
  "The tests check that a file appears and that a panel exists, or compare one symmetric field; a transposed panel or the value of another sample looks just as plausible.",
  ["kd/viz/_adapters/sga.py", "kd/viz/_adapters/dlga.py", "kd/viz/_adapters/discover.py", "kd/viz/_adapters/pysr.py", "kd/viz/_contracts.py", "kd/viz/discover_viz.py", "kd/viz/dlga_viz.py"],
  [("adapters", "SGAVizAdapter, DLGAVizAdapter, DiscoverVizAdapter, PySRVizAdapter .render"), ("data carried to the figures", "FieldComparisonData, ResidualPlotData, ParityPlotData, TimeSliceComparisonData, RewardEvolutionData, slice_3d_to_2d"), ("legacy figures", "plot_* of discover_viz and dlga_viz")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
