IO_NOTE = "Seeded search over inputs, fault placements and crash points with exact comparison against an in-memory model; assumes process-crash semantics for files and HDF5 itself correct."
prop("D01", "Saved event data loads back exactly",
     "Every event data set that is saved to an HDF5 file and loaded again has the same observable names in the same order, the same number of events and bit-for-bit the same values, whatever its size, its names and its values (including NaN, infinities and signed zeros), and also when the operating system transfers data in short pieces or interrupts calls. What the format cannot represent is refused with an error instead of being changed.",
     ["inputs", "fault_sequences"], "all data sets (0 to over a million events, any number of observables, any names and values, any kind of source object) and all benign disk behaviours (short reads, short writes, interrupted calls)",
     "The unit test stores one data set of one size with small integers and four short names and compares the first and the last event.",
     ["src/data/IO.cpp", "src/data/OXSXDataSet.cpp", "src/data/Event.cpp"], "the event table is flattened in slabs of about 10000 values, attributes carry names and counts; loading below and above a million events takes different paths", IO_NOTE)
prop("D02", "A failed save is reported and leaves no wrong data behind",
     "Saving an event data set either returns normally and the file then holds exactly that data, or it reports an error; after an error the target file is absent, refused by the loader, or still holds exactly what it held before. Once the cause is gone the same save succeeds.",
     ["fault_sequences", "inputs"], "every position of every failing disk operation (open, write, truncate, close, lock, rename, disk full at every byte), of a failing memory allocation, or of a data source that throws, with and without an older file of that name",
     "The tests never make a disk operation, an allocation or a data source fail.",
     ["src/data/IO.cpp"], "HDF5 buffers data and metadata and reports errors only when it is flushed and closed", IO_NOTE)
prop("D03", "A crash during a save never leaves a file that loads as wrong data",
     "If the process dies at any point while it saves an event data set, loading the target file afterwards gives exactly the old data or exactly the new data, or an error when there was no old file. A later save on top of the debris works.",
     ["crash_points", "inputs"], "every prefix of the file operations of a save, with the operation in progress torn at any byte, with and without an older file",
     "No test interrupts a save.", ["src/data/IO.cpp"], "order of file operations while saving", IO_NOTE)
prop("D04", "A load that cannot read everything reports an error",
     "Loading an event data set, directly or on demand, returns exactly the stored data or reports an error, even when reads fail, memory runs out, or the file is missing or cut short. Once the cause is gone the same object loads the exact data.",
     ["fault_sequences", "inputs"], "every position of a failing disk operation or allocation during a load, every truncation of the file",
     "The tests load intact files only.", ["src/data/IO.cpp", "src/data/LazyOXSXDataSet.cpp"], "conversion of HDF5 errors, demand loading", IO_NOTE)
prop("D05", "Histogram files round-trip exactly and survive faults and crashes",
     "A histogram saved to an HDF5 file loads back with the same axes (names, titles, every bin edge) and bit-for-bit the same contents, for any dimension and binning; what cannot be represented is refused. Failed or interrupted saves and loads are reported and never leave a file that loads as anything but the old or the new histogram.",
     ["inputs", "fault_sequences", "crash_points"], "all binnings of one to three axes (equal, variable, with gaps), names and contents; every failing disk operation, allocation and crash point of save and load",
     "The unit test stores one small two-dimensional histogram without faults.", ["src/data/IO.cpp", "src/histogram/Histogram.cpp", "src/histogram/AxisCollection.cpp", "src/histogram/BinAxis.cpp"], "histogram attributes for names and bin edges, contents as one array", IO_NOTE)
prop("D06", "Text reports are written completely or an error is raised",
     "Writing a fit result, a cut log or a counting result to a text file either leaves the complete report in the file or raises an error, whichever disk operation or allocation fails. The report contains every parameter, cut, background and summary value with the right number.",
     ["fault_sequences", "inputs"], "every failing open, write, close, full disk at every byte, failing allocation; all results with up to six entries",
     "The tests do not write reports.", ["src/optimise/FitResult.cpp", "src/cut/CutLog.cpp", "src/count/CountingResult.cpp", "src/core/Formatter.hpp"], "file streams hide errors unless they are asked", IO_NOTE)
prop("C01", "Configuration lookups always reflect the file that was opened last",
     "Through any sequence of opening (successfully or not), closing and reading configuration files, every lookup returns exactly the value written in the file opened last, converted as asked, or raises an error and leaves the target untouched. A file that is broken, missing or not completely readable is refused and what was open before stays open.",
     ["histories", "fault_sequences", "inputs"], "histories of open, close, list and load over several well-formed and broken files, with failing opens, reads and allocations",
     "There is no test for the configuration loader.", ["src/config/ConfigLoader.cpp", "src/config/ConfigLoader.hpp", "src/config/ini.hpp"], "one static parser replaced on open", "Seeded histories with faults against a map model.")
prop("L01", "Data sets paged in on demand behave like the data set on disk",
     "Several data sets that are read from disk on demand always give exactly the events of their own file in whatever order they are used, copied, assigned, closed and destroyed, events taken from them stay valid as long as the data set object lives, and a temporarily unreadable file or a lack of memory does no lasting harm. Only one file is held in memory at a time, and closing gives its memory back.",
     ["histories", "fault_sequences"], "histories of construction, copying, assignment, destruction, access, loading and closing of up to six paged data sets over up to four files, with unreadable periods and failing allocations",
     "There is no test for demand loading.", ["src/data/LazyOXSXDataSet.cpp", "src/data/IO.cpp"], "static registry of paged data sets; loading one closes the others", "Seeded histories with faults against the file contents; memory measured by counting live allocations.")
prop("E01", "Events and data sets behave as independent values",
     "A data set that is copied, assigned, returned by value, concatenated or relocated holds the same events and names as its source and is unaffected by what later happens to the source, including its destruction; operands of a concatenation are unchanged. A set for whose new events or names there is no memory keeps its old ones entirely. An event always yields the values and names of its data set, by index, by name and projected on any subset of observables, and out-of-range or unknown access is an error. A set of observables is a value too: it equals exactly the sets that name the same observables in the same order, and gives the positions of its observables in any set that holds them all.",
     ["histories", "inputs", "fault_sequences"], "histories of construction, appending (also of wrong size, also with failing allocation), copying, assignment, destruction, concatenation, renaming and access over up to seven data sets and the events taken from them, and of naming, renaming, copying and comparing up to six sets of observables",
     "The tests use one data set that is never copied, assigned or destroyed early.", ["src/data/OXSXDataSet.cpp", "src/data/Event.cpp", "src/data/ObsSet.cpp"], "events refer to the name list of the set that owns them", "Seeded histories against a value model, memory errors caught by AddressSanitizer.")
prop("K01", "Every event is counted exactly once when cut and filled",
     "When a data set is cut and filled into a distribution or counted, every event is either removed by the first cut it fails or kept, exactly once: the cut log's entries add up to the number of events, the distribution gains exactly the kept events' weight in their bins, and any cap on the number of events is respected. A counting experiment reports the observed count and each background's expectation times efficiency for the inputs of its latest run, and a source that fails in the middle does not corrupt later runs. A collection of cuts is a value: it keeps the cuts as they were when added, and stays as it was when there is no memory for a change.",
     ["histories", "inputs", "fault_sequences"], "histories of filling, counting, cutting and logging with any collections of box, line and boolean cuts and event systematics, data sources that fail at any event, and failing allocations",
     "The tests evaluate single cuts on single events; nothing runs the fill-and-log pipeline twice or with a failing source.",
     ["src/dist/DistFiller.cpp", "src/cut/CutCollection.cpp", "src/cut/CutLog.cpp", "src/count/CountingExperiment.cpp", "src/count/CountingResult.cpp", "src/fitutil/EventSystematicManager.cpp"], "event loops, cut order and counters kept between runs", "Seeded histories with faults against a reference that applies the cuts event by event.")
prop("G01", "Draws without replacement hand out every event exactly once",
     "A data set generator that draws without replacement never hands out an event twice and, after the remaining events are asked for, has handed out every event of every source exactly once, whatever the order of expected-rate draws, Poisson draws, remaining-event and all-event requests, whichever random numbers come up and whichever request fails for want of events or memory. Asking for more than there is left is refused; a reset makes everything available again.",
     ["histories", "random_draws", "fault_sequences"], "histories of generator requests over up to three sources with any random numbers, including the extreme ends of the generator's interval, failing sources and failing allocations",
     "The unit tests draw once from a large source and look at counts.", ["src/data/DataSetGenerator.cpp", "src/rand/Rand.cpp"], "index pools of remaining events, swapped on every draw", "Seeded histories; multiset accounting over uniquely labelled events; a chi-square uniformity test with a fixed tiny error probability over fixed seeds.")
prop("G02", "Generated data sets have the requested rates and pass the cuts",
     "Every data set a generator draws contains only events of its sources that pass the cuts, unmodified, with the sources' observable names and source by source, a sequential draw the next events in order; with fixed rates each source contributes exactly the rounded expected number, with Poisson fluctuations exactly the number drawn, and repeated draws with replacement choose every event of the source equally often. A request for all or all remaining events returns every one of them, the numbers reported are the numbers taken, and a generator without the rates, flags or data sets it needs refuses to draw.",
     ["histories", "random_draws", "fault_sequences"], "histories of generator requests with mixed draw modes, rates, cuts and resets, any random numbers, failing sources and failing allocations",
     "The unit tests check counts for one configuration.", ["src/data/DataSetGenerator.cpp", "src/rand/Rand.cpp"], "rates, bootstrap flags and cuts per source", "Seeded histories against the recorded random numbers; chi-square uniformity over fixed seeds.")
prop("G03", "Generated distributions follow the requested rates",
     "Every distribution a distribution generator makes has the binning and the observables of its inputs and whole numbers of events in its bins: with fixed rates exactly the rounded rate of every input in total, with Poisson fluctuations exactly the numbers drawn for the inputs in order, placed at random in proportion to each input's contents (normalised or not) and never in a bin where no input has content. A name given is kept, the inputs are not changed, repeated generation is independent of history, anything but one rate for each input is refused, and so is drawing an event from an input that is empty.",
     ["histories", "random_draws"], "histories of setting rates and distributions and generating, with distributions of one to three dimensions, buffers and any random numbers",
     "The unit test checks one sum.", ["src/dist/BinnedEDGenerator.cpp", "src/rand/Rand.cpp"], "events placed one by one from a cumulative distribution", "Seeded histories against the recorded random numbers.")

HIST_NOTE = "Seeded histories against an executable reference model; numbers are compared with small relative tolerances."
prop("H01", "Histograms keep every bin in its place under any operations",
     "Through any history of filling, setting, scaling, normalising, adding, multiplying, dividing, padding, projecting, slicing, copying and rebinning, a histogram or binned distribution of any dimension holds in every bin exactly what the history implies: every fill lands in the one bin whose interval contains the value (the outermost bins catch what lies outside), projections conserve the content, slices add up to projections, indices and edges are consistent, and only the histogram operated on changes. Bins, axes, indices or binnings that do not exist or do not match are refused, and an operation that runs out of memory leaves the old or the new contents.",
     ["histories", "inputs", "fault_sequences"], "histories of up to 24 operations on up to six histograms of one to four axes, equal or variable, with failing allocations and impossible requests",
     "The unit tests check a few bins of one or two fixed histograms and single operations.",
     ["src/histogram/Histogram.cpp", "src/histogram/HistTools.cpp", "src/histogram/AxisCollection.cpp", "src/histogram/BinAxis.cpp", "src/dist/BinnedED.cpp", "src/data/ObsSet.cpp"], "flat bin index over several axes; projections and slices by index arithmetic", HIST_NOTE)
prop("T01", "The constraint term is the sum of the constraints in force",
     "Through any history of setting and replacing single, asymmetric, correlated, ratio, fractional, interpolated and shape constraints, also on copies, the constraint term is exactly the sum of the penalties of the constraints in force at the given parameters. Conflicting constraints and impossible correlations are refused without changing anything, and a parameter that is missing or outside an interpolation grid is an error instead of a made-up penalty.",
     ["histories", "inputs", "fault_sequences"], "histories of up to 30 operations over four parameters with interpolation grids of one to three dimensions, conflicting requests, missing parameters and failing allocations",
     "The unit tests evaluate one constraint of each kind at a few points.",
     ["src/constraint/ConstraintManager.cpp", "src/constraint/ConstraintManager.h", "src/constraint/BivariateQuadraticConstraint.h", "src/constraint/QuadraticConstraint.h", "src/constraint/RatioConstraint.h", "src/constraint/FractionalConstraint.h", "src/constraint/ShapeInterpConstraint.cpp", "src/constraint/ShapeConstraint.cpp"], "maps from parameter names to constraints, overloads that replace earlier ones", HIST_NOTE)
prop("P01", "Parameters reach exactly the components that own them",
     "Setting a parameter by name, singly, in bulk or through the manager of all fit components, changes exactly the component values that name stands for, the component then behaves according to the new value, and reading gives back what was set. Renaming, including to the same name or to a shared name, keeps values and effects; unknown names are refused; a dictionary that lacks a parameter never scrambles or loses the others.",
     ["histories", "inputs"], "histories of up to 24 operations over up to five components of all seventeen kinds (functions, systematics, event systematics, distributions)",
     "The unit tests set one or two parameters of a few components once.",
     ["src/core/ParameterManager.cpp", "src/core/ParameterManager.hpp", "src/core/ComponentManager.cpp", "src/function/GaussianFitter.cpp", "src/function/Gaussian.cpp", "src/function/VaryingCDF.cpp", "src/function/SquareRootScale.cpp", "src/function/JumpPDF.cpp", "src/systematic/Scale.cpp", "src/systematic/Shift.cpp", "src/systematic/ScaleFunction.cpp", "src/systematic/Shape.cpp", "src/systematic/Convolution.cpp", "src/dist/SpectralFitDist.cpp", "src/dist/AnalyticED.cpp", "src/eventSystematic"], "names map to pointers to the owners' members", HIST_NOTE)
prop("X01", "Copies of components are independent and nothing leaks",
     "Functions, systematics, event systematics, conditional and composite distributions and fit results that are copied, cloned or assigned (also to themselves, also when memory runs out half-way) equal their source, keep working after the source is changed or destroyed, never change when a copy changes, and free everything they own exactly once, also when a copy was given up half-way.",
     ["histories", "inputs", "fault_sequences"], "histories of up to 24 copies, assignments, changes and destructions over up to seven objects of every kind, with failing allocations",
     "The tests copy a component at most once and never destroy or change the source afterwards.",
     ["src/function", "src/systematic", "src/eventSystematic", "src/dist/AnalyticED.cpp", "src/dist/CompositeED.cpp", "src/dist/SpectralFitDist.cpp", "src/optimise/FitResult.cpp", "src/core/SparseMatrix.cpp"], "owning raw pointers and parameter managers that point into their owner", HIST_NOTE)
prop("S02", "Systematics always do what their present settings say",
     "After any history of changing parameters, axes and observables, copying, assigning, sharing between groups and failed constructions, constructing a systematic gives exactly the response its present settings define, moving the content of each bin of the transformed observables along those axes only, whatever the order in which observables are listed; a group of systematics distorts a distribution by the global systematics first and then each listed group in order, the reported normalisations are those of the distorted distributions, and the inputs are not changed.",
     ["histories", "inputs", "fault_sequences"], "histories of up to 24 operations over up to four systematics of all six kinds with axes of one to three dimensions, up to four systematics in three groups on up to four distributions, matrix operations, failing allocations and throwing user functions",
     "The unit tests construct each systematic once, mostly in one dimension, and never change its settings afterwards.",
     ["src/systematic/Systematic.cpp", "src/systematic/Scale.cpp", "src/systematic/Shift.cpp", "src/systematic/ScaleFunction.cpp", "src/systematic/Shape.cpp", "src/systematic/Convolution.cpp", "src/systematic/Renorm.cpp", "src/fitutil/SystematicManager.cpp", "src/core/SparseMatrix.cpp", "src/core/DenseMatrix.cpp"], "cached bin mappings; block-diagonal response with permuted indices; products of responses per group", HIST_NOTE)
prop("N01", "The likelihood equals its definition after any history of set-up",
     "However a binned likelihood was set up (order of distributions, systematics, cuts, constraints, buffers and data; managers set directly; copies) and whatever was changed or evaluated before, evaluating it gives exactly the documented negative log-likelihood, with Barlow-Beeston and constraint terms where enabled, of the current data and the original distributions at the current parameters, evaluating twice gives the same value, a bin without probability that must have one is an error, and the reported normalisations, parameters and data are the current ones.",
     ["histories", "inputs"], "histories of up to 16 changes to likelihoods with up to four distributions in one to two dimensions, four systematics in groups, direct, indirect and fixed normalisations, buffers with and without overflow, marginalised observables, event-by-event and binned data, cuts, constraints",
     "The unit tests evaluate a likelihood once or twice, straight after setting it up.",
     ["src/teststat/BinnedNLLH.cpp", "src/teststat/BinnedNLLH.h", "src/fitutil/BinnedEDManager.cpp", "src/fitutil/BinnedEDShrinker.cpp", "src/fitutil/SystematicManager.cpp", "src/constraint/ConstraintManager.cpp", "src/dist/DistFiller.cpp"], "working and original copies of the distributions, normalisations and data kept between evaluations", HIST_NOTE)
prop("N02", "An interrupted evaluation never poisons the next one",
     "When setting parameters or evaluating the likelihood fails (memory runs out, a user-supplied shape or scale function throws, parameters are missing), an error is raised, nothing is corrupted, and the next complete setting of parameters and evaluation gives exactly the defined value.",
     ["fault_sequences", "histories"], "failing allocation at any of the first sixty allocations of an evaluation or the first twelve of a parameter setting, user functions that throw at any of the first calls, dictionaries with a missing entry, between ordinary changes",
     "No test makes an evaluation fail.",
     ["src/teststat/BinnedNLLH.cpp", "src/fitutil/BinnedEDManager.cpp", "src/fitutil/SystematicManager.cpp", "src/systematic/Shape.cpp", "src/systematic/ScaleFunction.cpp", "src/core/ComponentManager.cpp"], "state updated in several steps", HIST_NOTE)
prop("N03", "A joint fit is the sum of its parts with shared parameters",
     "A sum of test statistics, built flat, nested or with operators, always evaluates to the sum of its parts at the current parameters plus its own and nested constraint terms, has each shared parameter once, and passes every setting of parameters on to every part; a dictionary that lacks a parameter is an error that a later complete setting repairs.",
     ["histories", "inputs"], "sums of two or three likelihoods with independent changes to the parts, the constraints and the parameters",
     "The unit test adds constant test statistics once.",
     ["src/teststat/StatisticSum.cpp", "src/teststat/StatisticSum.h", "src/teststat/TestStatistic.cpp", "src/teststat/TestStatistic.h", "src/constraint/ConstraintManager.cpp"], "parts are referenced, parameters merged by name", HIST_NOTE)
prop("O01", "Grid search finds the best point of the whole grid",
     "A grid search evaluates to the grid point at which the statistic is smallest (largest when maximising) of all points from the minima in steps to the maxima, in any number of dimensions, and reports that point and the statistic's value there, whatever was searched before and whatever values the statistic takes (zero, negative, infinite, not a number). Inconsistent requests are refused and a search that fails half-way does not spoil the next and leaves the result of the one before as it was.",
     ["inputs", "histories", "fault_sequences"], "histories of up to five searches with one to four parameters and up to some hundred points, statistics that are quadratic, constant or arbitrary tables, failing at any evaluation, failing allocations",
     "There is no test for the optimisers.",
     ["src/optimise/GridSearch.cpp", "src/optimise/GridSearch.h", "src/optimise/FitResult.cpp"], "recursive increment over the axes; best value so far", "Seeded histories with faults against enumeration of the grid.")
prop("M01", "Markov chains make exactly the Metropolis decisions and report them",
     "A Markov chain starts at the given point or uniformly inside the limits, proposes every step from its current position, never leaves the limits, and accepts a step exactly if the ratio of the statistic (with the sampler's correction when logged) is at least the number drawn. The samples after burn-in and thinning, projections, acceptance rate, autocorrelations, saved steps and best fit are exactly those of the chain that was run last, also after a chain was interrupted.",
     ["histories", "random_draws", "fault_sequences"], "histories of up to four chains of up to 80 steps with scripted, Metropolis and Hamiltonian proposals over up to three parameters, all options, any random numbers including the extremes, statistics and samplers that fail at any call, failing allocations",
     "There is no test for the Markov chain.",
     ["src/optimise/MCMC.cpp", "src/optimise/MCMC.h", "src/optimise/MCMCSamples.cpp", "src/optimise/MCMCSamples.h", "src/optimise/AutoCorrelationCalc.cpp", "src/histogram/HistTools.cpp"], "current step, current value and samples updated step by step from random draws", "Every decision is replayed from the recorded random numbers; refinement against a reference chain.")
prop("M02", "Proposed steps follow the sampler's definition and stay reversible",
     "A Metropolis proposal moves each free parameter by its own width times its own random number and never moves a fixed one, through any history of fixing, releasing and changing widths. A Hamiltonian proposal is the leapfrog trajectory of randomly drawn momenta with the given masses, reflected at the walls so that it never ends outside them, reversible, with exactly the kinetic-energy correction of that trajectory; soft walls and energies evaluate to their definition. A statistic that fails during a trajectory raises an error and the next proposal is right.",
     ["histories", "random_draws", "inputs", "fault_sequences"], "histories of up to 20 operations; trajectories of up to 12 steps in up to three dimensions with quadratic energies, walls as narrow as a step or touched at the start",
     "There is no test for the samplers.",
     ["src/optimise/MetropolisSampler.cpp", "src/optimise/HamiltonianSampler.hpp", "src/optimise/LeapFrog.cpp", "src/optimise/LeapFrog.hpp", "src/optimise/Gradient.hpp", "src/optimise/HMCEnergy.hpp", "src/optimise/SigmoidBoundary.hpp"], "reflection times at walls, half steps, momenta by name", "Every proposal is recomputed from the recorded random numbers with an independent integrator.")
prop("S01", "Random samples follow their distribution's present parameters",
     "Uniform, rejection-sampled, Gaussian and conditional samples are exactly the transformation of the random numbers drawn that the distribution's present parameters define: inside the requested range, with each dimension moved by its own width times its own random number, rejected and accepted by the function's value at the point returned; a smeared event changes in the one observable asked for and the original event stays. Impossible ranges and missing distributions are refused, and a distribution handed over is the one used even if its source changes later.",
     ["histories", "random_draws", "inputs"], "histories of up to 20 samples and changes of parameters with Gaussians of one to three dimensions, fixed and value-dependent conditional distributions, arbitrary histogram-like functions, random numbers including the extremes, functions that fail",
     "No test samples anything.",
     ["src/rand/Rand.cpp", "src/function/Gaussian.cpp", "src/function/JumpPDF.cpp", "src/function/VaryingCDF.cpp", "src/function/SquareRootScale.cpp", "src/eventSystematic/EventConvolution.cpp"], "one global generator; kernels cloned into conditional distributions", "Every sample is recomputed from the recorded random numbers.")
prop("V01", "Functions and distributions evaluate to their definition",
     "However they were built, given parameters, renamed, normalised or copied, functions and distributions give at every point exactly the value their present parameters define: a Gaussian of any dimension its density, its cumulative distribution (exactly 0 and 1 beyond the cut-off) and the integral over any box; a displaced or varying conditional distribution its kernel with the displacement and the parameters that belong to the condition; a distribution of events the value at the event's own observables, in whatever order the event lists them; a product of distributions, however nested, the product of its parts and the sum of their dimensions; a step function 1 inside its sides and 0 outside. Points and boxes of the wrong dimension, dimensions that do not exist, widths that are not positive, events without the observables and missing kernels are refused, and a parameter function that fails raises an error and leaves the next evaluation right.",
     ["histories", "inputs", "fault_sequences"], "histories of up to 24 operations on several Gaussians of one to four dimensions, conditional distributions with constant, root and user-supplied parameter functions that may fail, and nested products of analytic and binned distributions of overlapping observables, evaluated at points inside, far outside and at infinity",
     "The unit tests evaluate one Gaussian at a few points and one product of two.",
     ["src/function/Gaussian.cpp", "src/function/GaussianFitter.cpp", "src/function/JumpPDF.cpp", "src/function/VaryingCDF.cpp", "src/function/SquareRootScale.cpp", "src/function/Heaviside.cpp", "src/dist/AnalyticED.cpp", "src/dist/CompositeED.cpp", "src/dist/BinnedED.cpp"], "parameters by dimension; kernels and parts cloned into what uses them; a kernel's parameters overwritten on every evaluation", "Every value is recomputed from a plain record of the parameters.")
prop("Q01", "An analysis repeats exactly from its seed, wherever it runs",
     "A program of data generation, smearing, distribution filling, systematics, likelihood evaluation, grid searches and Markov chains that starts by setting the seed gives bit for bit the same results whatever ran before in the same process, whatever the time, the addresses of objects and the former contents of memory.",
     ["histories", "schedules", "random_draws"], "programs of up to two of five kinds of analysis, repeated up to twice with other work before, clock jumps, moved heap addresses and differently filled heap and stack memory",
     "The tests run everything once in a fresh process.",
     ["src/rand/Rand.cpp", "src/data/DataSetGenerator.cpp", "src/dist/BinnedEDGenerator.cpp", "src/eventSystematic/EventConvolution.cpp", "src/systematic", "src/teststat/BinnedNLLH.cpp", "src/fitutil", "src/optimise/MCMC.cpp", "src/optimise/GridSearch.cpp"], "uninitialised members, orders of pointers, static state and clocks would leak into results", "The same choices replayed in the same process under another environment.")
prop("I01", "Credible limits contain exactly the credibility asked for",
     "The upper limit computed from a posterior histogram, of a Markov chain or given, is the point below which exactly the requested fraction of the posterior lies, whatever bins are empty or of unequal width, and the posterior is not changed; the counting limit contains the requested credibility within the tolerance asked for. Empty or multi-dimensional posteriors and confidence levels outside the meaningful range are refused.",
     ["inputs", "histories"], "histories of up to 12 limits from chains of up to 120 steps and arbitrary histograms of one to eight bins, and counting limits of up to 24 observed and 20 expected events",
     "There is no test for intervals.",
     ["src/interval/BayesIntervalCalc.cpp", "src/histogram/Histogram.cpp", "src/optimise/MCMCSamples.cpp"], "search for the critical bin and interpolation", "Seeded inputs against the definition.")
prop("F01", "Minuit is given exactly the configured fit and its result is kept",
     "A Minuit fit hands the minimiser, for each parameter by name, exactly the configured start value, step, limits (none where none were set) and fixing, with the configured algorithm, strategy, call limit, tolerance and error definition; the function minimised is the statistic (negated when maximising) at those parameters; the best fit, value, validity and covariance reported are exactly the minimiser's. Fits that make no sense are refused before anything is minimised, a fit that fails does not spoil the next and leaves the result of the one before as it was, and copies are independent.",
     ["histories", "inputs", "fault_sequences"], "histories of up to 14 fits, settings, fixes, impossible requests, copies and new statistics on up to three fitters, and fits of simulated likelihoods; minimisers that do not converge or fail, statistics that fail, failing allocations",
     "The unit tests fit two fixed functions, need ROOT and are not part of the baseline.",
     ["src/optimise/Minuit.cpp", "src/optimise/Minuit.h", "src/optimise/MinuitFCN.cpp", "src/core/DenseMatrix.cpp", "src/optimise/FitResult.cpp"], "parameters by name here, by index in Minuit; a member function object the minimiser refers to", "The simulator plays Minuit2 and checks everything it is handed.")
prop("R01", "ROOT files and histograms hold exactly what was put in, or an error is raised",
     "A data set read from a ROOT tree or ntuple gives exactly the stored observables and events, in any order of access and with any number of files open and closed; one saved to a ROOT file reads back with the same names and its values in single precision, and a histogram converted to a ROOT histogram and back, or saved in a ROOT file, keeps its axes, every bin edge and every content (divided by the bin width only if asked). Reads, saves and openings that fail are reported and leave no file open, and what cannot be represented is refused.",
     ["histories", "inputs", "fault_sequences"], "histories of up to 40 openings, reads and closings of up to three files; data sets of up to five observables and 30 events; histograms of one to three axes with bins of any width; failing opens, reads, fills, writes, closes and allocations",
     "The tests of the ROOT readers need ROOT and are not part of the baseline; they use one intact file.",
     ["src/data/ROOTNtuple.cpp", "src/data/ROOTTree.cpp", "src/data/IO.cpp", "src/dist/DistTools.cpp"], "bins of ROOT histograms count from one, ntuples hold floats, ROOT reports failures through return values and status bits", "ROOT itself is a stand-in with in-memory files that fails on command.")
