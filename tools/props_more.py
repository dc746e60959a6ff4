SRC = "src/sloth/"
prop("C11", "Incorporating a model keeps its equations under new names and objects",
     "After one model incorporates another, the receiving model holds its own equations plus every equation of the other, meaning the same relation with exactly the quantities renamed, replaced by others or fixed to numbers as asked. "
     "Every object of an incorporated equation is one the receiver declares, and the incorporated model itself is unchanged.",
     ["inputs", "histories"], "all pairs of models and all renamings, substitutions and aggregations of their exposed variables, including several incorporations and swapped names",
     "The incorporation tests use one model pair; renamings that swap names, numeric sides and cancelling terms need specific combinations.",
     [SRC + "model.py", SRC + "core/equation.py"],
     [("incorporation", SRC + "model.py: incorporateFromExternalModel and helpers"), ("rewriting of expressions", SRC + "core/equation.py")])
prop("C12", "A resolved problem contains exactly its models' equations and unknowns",
     "After a problem is resolved, its block holds exactly the equations of its models and connections, each in the group of its type, and its unknowns are exactly the variables those equations use; the overall type follows from the groups. "
     "Resolving again changes nothing, equations declared without a name or by another thread included, and changes made to models in between are picked up.",
     ["inputs", "histories"], "all sets of models, insertion orders, ways of declaring equations and repeated resolutions",
     "Tests resolve two-model problems once; lost, duplicated or misgrouped equations depend on the mixture and the history.",
     [SRC + "problem.py", SRC + "core/equation_block.py", SRC + "model.py"],
     [("block assembly", SRC + "problem.py: _buildEquationBlock, resolve"), ("groups and lists", SRC + "core/equation_block.py")])
prop("C13", "A connection ties exactly the named exposed variables",
     "Connecting models succeeds exactly when the variables are exposed by the right model in the right direction; it then adds one equation, the inputs equal to the outputs (or the given expression), and changes nothing else. "
     "A refused connection leaves every model and the problem unchanged; several connections between the same models coexist.",
     ["inputs", "histories"], "all sequences of valid and invalid connections between models, by variable, by list of variables and by expression",
     "Tests make one valid connection; refusals, lists, expressions and repeated connections are not reached.",
     [SRC + "problem.py", SRC + "model.py", SRC + "connection.py"],
     [("connection check and equation", SRC + "problem.py: createConnection"), ("connection equation", SRC + "model.py: _createConnection")])
prop("C14", "Only problems without degrees of freedom are simulated",
     "A simulation runs exactly when the number of equations equals the number of unknowns (variables plus unspecified parameters and constants). Otherwise it is refused, the message tells over- from under-specified, and no result is left.",
     ["inputs"], "all problems, balanced and with equations, connections or specified values added or removed",
     "Tests simulate balanced problems; which problems are refused is a statement about all unbalanced ones.",
     [SRC + "analysis.py", SRC + "simulation.py"], [("degrees of freedom test", SRC + "analysis.py: DOF_Analysis._dofTest"), ("sanity check before solving", SRC + "simulation.py: runSimulation")])
prop("C15", "A linear problem is solved exactly, whichever solver is chosen",
     "For every linear problem with a unique solution, each linear solver returns that solution, with one value per unknown under its name, "
     "whatever the order and the form of models, equations and declarations. Of dependent or contradictory equations, a result that is reported satisfies them all, else there is an error and no result.",
     ["inputs"], "all uniquely solvable linear problems over several connected models, all linear solvers, all orders",
     "Tests solve two small systems with one solver; mislabelled unknowns or lost coefficients show on other orders and sizes.",
     [SRC + "solvers.py", SRC + "simulation.py", SRC + "core/equation_block.py"],
     [("linear solvers", SRC + "solvers.py: LASolver"), ("results", SRC + "simulation.py: getResults")])
prop("C16", "A nonlinear result satisfies the equations, or there is no result",
     "Whenever a nonlinear simulation ends, the values it reports are real and satisfy every equation of the problem; when no solution is found an error is raised and no result is left. Starting next to a regular solution finds it.",
     ["inputs"], "all nonlinear problems, with and without solutions, all starting points and root polishers",
     "A wrong root, an ignored initial guess or a minimum reported as a root needs particular equations and starting points.",
     [SRC + "solvers.py", SRC + "simulation.py"], [("nonlinear solver and acceptance", SRC + "solvers.py: NLASolver")])
prop("C27", "A changed parameter takes effect when the problem is resolved again",
     "After any specified parameter or constant of any model is changed, by whichever documented way, resolving and simulating again gives the solution for the new values, the same as a problem built afresh with them.",
     ["histories"], "all sequences of parameter changes, resolutions and simulations",
     "Stale values need a second resolution after a change; tests outside the optimizer resolve once.",
     [SRC + "problem.py", SRC + "model.py", SRC + "simulation.py"],
     [("re-declaration of models", SRC + "problem.py: resolve, _reloadModels; " + SRC + "model.py: __call__"), ("access to parameters", SRC + "simulation.py: __getitem__")])
prop("C17", "A trajectory solves the ODEs and is stored under the right names",
     "A dynamic simulation of differential equations returns, for every requested time, the solution of exactly the declared equations from the given initial conditions. "
     "Each trajectory is stored in the domain under the name of its own variable (or its rename), whatever the order of equations, declarations and conditions, compiled or not, with ODEINT and CVODE. "
     "Equations the solver cannot integrate are refused, and an integration that fails before the time asked for is an error.",
     ["inputs", "histories"], "all ODE systems with parameters and explicit time, orders of declaration, requested times, initial times, renamings and repeated runs",
     "Tests integrate one predator-prey model in one order; swapped columns, shifted times and stale values show on other systems and on the second run.",
     [SRC + "solvers.py", SRC + "simulation.py", SRC + "core/domain.py", SRC + "core/equation_block.py"],
     [("integration and registration", SRC + "solvers.py: DSolver"), ("compiled right-hand sides", SRC + "core/equation_block.py: _getEquationBlockAsFunction")],
     note="Exploration against an independent integration (scipy RK45 over the reference evaluator). The CVODE path runs on a stand-in of assimulo, which is not installed here.")
prop("C18", "A block's functions are its equations; DAE trajectories solve them",
     "The function compiled from an equation block returns the residual of each equation, in order, for the unknowns and derivatives in theirs; it vanishes at solutions and reacts to each derivative in its own equation only. "
     "A differential-algebraic simulation returns, from the initial to the end time or for the times asked, trajectories that satisfy every equation at every time, under the right names.",
     ["inputs"], "all algebraic problems and semi-explicit index-one DAE systems in all orders and forms of equations",
     "The DAE test runs one system and needs a package that is absent; a wrong index of y or yd shows only on other orders.",
     [SRC + "core/equation_block.py", SRC + "solvers.py", SRC + "core/equation.py"],
     [("residual function", SRC + "core/equation_block.py: _getMapForRewriteSystemAsResidual, _getEquationBlockAsFunction"), ("DAE solver", SRC + "solvers.py: DAESolver")],
     note="Exploration against elimination plus independent integration. IDA runs on a stand-in of assimulo with its documented contract, as assimulo is not installed here.")
prop("C19", "A domain returns exactly the values registered, by name",
     "Whatever sequence of registrations, renamings, resets and readings a domain goes through, reading a column gives exactly the values registered under it, in order, per independent variable. "
     "Renaming changes names only, a reset empties it, and other domains are untouched.",
     ["histories"], "all histories of distribution, registration, renaming, swapping of names, reset and reading on domains with one or two independent variables",
     "Tests register once and read once; misplaced columns and stale headers need a history.",
     [SRC + "core/domain.py", SRC + "core/variable.py"], [("registration and reading", SRC + "core/domain.py: _register, __getitem__, _renameHeaders, _reset")])
prop("C20", "A simulation runs with exactly the configurations it was given",
     "Configurations given as keywords, as a dictionary, as a file or by loading a dump are the same: each option is the one given, else its default, dictionary and file overriding keywords (a number of parameters to optimize given as a keyword stays). "
     "A simulation owns its configurations (containers and arrays included), and results do not depend on how they were given.",
     ["inputs", "histories"], "all subsets of options, ways of giving them, sequences of settings on several simulations and dumps",
     "Tests use keywords almost only; lost, shared or unloadable options show for other ways and after several settings.",
     [SRC + "simulation.py"], [("setConfigurations, dumpConfigurations", SRC + "simulation.py")])
prop("C21", "An optimization reports the best point it evaluated, within bounds",
     "Every point an optimization evaluates lies within the bounds given, and the reported fitness is the objective's value at the reported point and no worse than any evaluated, for minimization and maximization. "
     "Each evaluation simulates the problem with the candidate parameter values, the algorithm has the options configured, and the log and graph of a run show evaluations and values of that run. Studies of one problem do not affect each other.",
     ["inputs"], "all objectives, direct or through a simulation, bounds, directions, algorithms and ways of configuration",
     "The tests optimize one model and look at one number; an ignored bound, a wrong sign or a stale parameter goes unnoticed.",
     [SRC + "optimization.py", SRC + "simulation.py"], [("optimization problem and run", SRC + "optimization.py: OptimizationProblem, Optimization")],
     note="Exploration. Convergence is not demanded: the evolutionary algorithms (pygmo) are third-party.")
prop("C22", "Reports and tables show what the model, problem and results are",
     "A model report has one row for each equation with its name, description, a representation of the same value, exactly the objects it uses by kind (specified ones marked) and its type; a problem report has those of its models. "
     "Result tables show each unknown or time once with its unit and value, final residuals are the residuals at the results, and the status tells whether there are results.",
     ["inputs"], "all models, problems and static or dynamic simulations",
     "No test looks at the contents of a report or table.",
     [SRC + "analysis.py", SRC + "simulation.py", SRC + "model.py"],
     [("reports", SRC + "analysis.py: Analysis"), ("tables of results and status", SRC + "simulation.py: showResults, runSimulation, getStatus")])
prop("C23", "Unit operations state exactly their balances",
     "The equations of every unit operation and stream are exactly its mass, component, mechanical and energy balances: residuals vanish at the states an independent balance gives, and given the inlets and specifications they determine every outlet. "
     "Flowsheets of connected units simulate to the balances, for every number of components, and mixed inlets have the least pressure and temperature.",
     ["inputs"], "all unit operations of the library, numbers of components, states, specifications and trains of units",
     "The library test builds one flowsheet; a lost term or component shows only for other units, components and states.",
     [SRC + "unit_op_library.py", SRC + "model.py"], [("unit operations", SRC + "unit_op_library.py"), ("totalization of inlets", SRC + "model.py: _totalizeInletsFunction_genericMaterialStreams")],
     note="Exploration against independent balances with properties from thermo. Flash units cannot be declared, nor units of species whose names are no identifiers (known findings).")
prop("C24", "Combined property packages hold each species once, in its own state",
     "Combining property packages gives the species of the left then the new ones of the right, each once, and leaves the right one unchanged; later changes of either do not affect the other. "
     "Calculating a package puts each of its species in the state of a pure substance at that temperature and pressure, and mixtures have consistent mass and molar fractions.",
     ["histories", "inputs"], "all histories of combining packages and calculating states, all compositions given by mass or by moles",
     "Tests add two packages once and look at the names; shared species and states need a history.",
     [SRC + "core/property_package.py"], [("combination, calculation and mixture", SRC + "core/property_package.py: PropertyPackage")])
prop("C25", "Independent models, problems and simulations do not interfere",
     "Problems built, resolved, configured and run in any interleaving give the results each gives alone, also when they are instances of the same classes with the same names. "
     "Using, changing or connecting one model never changes another instance, made before or after, and expressions used in several places stay as they were.",
     ["histories"], "all interleavings of building and running several problems, all pairs of unit operations, all reuses of expressions",
     "Each test builds one problem in a fresh state; shared default containers and class-level state need two.",
     [SRC + "model.py", SRC + "problem.py", SRC + "simulation.py", SRC + "core/equation.py"],
     [("containers of models and problems", SRC + "model.py: Model.__init__; " + SRC + "problem.py: Problem.__init__"), ("configurations", SRC + "simulation.py: setConfigurations")])
prop("C26", "Plots show exactly the data asked for",
     "A plot has one line for each column asked for, over the independent column, with the values registered and the label, marker, width, axis names, range, grid and legend asked for; nothing of an earlier plot remains. "
     "It is shown and saved exactly when asked, and an unknown column is refused.",
     ["inputs", "histories"], "all data, options, ways of naming columns and sequences of plots",
     "The plot test checks that a call does not fail.",
     [SRC + "plotter.py", SRC + "simulation.py"], [("plot of time series", SRC + "plotter.py: Plotter.plotTimeSeries")])
