prop("P06", "Strings, cells, enums and dictionaries follow case-insensitive value semantics",
 "String comparison, ordering and search ignore case consistently (a strict weak order for arbitrary bytes), equivalence also ignores blanks and underscores, splitting keeps or drops empty fields exactly as asked and joining inverts it, and numbers, booleans, dates, enumerations and cells of every kind survive conversion to text and back while malformed text is refused with an exception. "
 "A dictionary behaves like a map keyed by condensed upper-case names: insertion refuses duplicates, lookups and removals see exactly what was inserted, and its text form parses back. No input, however malformed, causes undefined behaviour.",
 ["inputs", "histories"], "every byte string, cell value, enumeration spelling and dictionary operation sequence",
 "Tests use a few well-formed ASCII examples; ordering laws, odd bytes, empty fields and operation sequences are universal statements.",
 ["dal/string/strings.cpp", "dal/string/strings.hpp", "dal/string/stringutils.cpp", "dal/math/cell.cpp", "dal/math/cellutils.cpp", "dal/utilities/dictionary.cpp"],
 [("ci_traits, Condensed, Equivalent", "dal/string/strings.cpp"), ("Split, Accumulate, ToBool, NextName", "dal/string/stringutils.cpp"), ("Cell conversions", "dal/math/cellutils.cpp"), ("Dictionary_", "dal/utilities/dictionary.cpp")],
 "std::string/std::map reference models")
prop("P07", "Stored objects read back identical; malformed stores are refused, not crashed on",
 "Any storable object (interpolators, curves with base-curve chains, fixings, boxes, bags, reports, script products, model data, random generators), written to JSON text or file, or splatted into a table of cells, reads back as an object of the same type, name and content: every number exactly, every string including quotes, escapes and non-ASCII text, and every shared sub-object still shared exactly as before. "
 "Truncated, mutated or arbitrary JSON text and altered tables either throw an exception or give a valid object; they never crash or read out of bounds.",
 ["inputs", "faults"], "every object of the 13 storable types, nested and shared to any depth, and every corruption of its stored form",
 "Tests store one linear interpolator and a box with round numbers; precision, text escaping, sharing and corrupt input are not sampled (numbers used to lose digits, booleans and integer arrays could not be read at all).",
 ["dal/storage/json.cpp", "dal/storage/splat.cpp", "dal/storage/archive.cpp", "dal/storage/archive.hpp", "dal/auto"],
 [("XDocStore_/XDocView_", "dal/storage/json.cpp"), ("XSplat_/XUnSplat_", "dal/storage/splat.cpp"), ("Extract, SetStorable, Built_", "dal/storage/archive.cpp"), ("*_Write.inc, *_Read.inc", "dal/auto")],
 "an independent recording archive, round trips and accessors; crash oracle on mutated input", "Date-times are compared to the second in JSON.")
prop("P08", "Repository, global dates, fixings and environments behave like simple maps",
 "After any sequence of operations the object repository holds exactly the objects added and not yet erased: each tag fetches its own object until erased (then it is refused, or empty when quiet), the erase policies NONE, NAME, NAME_NONEMPTY and TYPE remove exactly the objects they name, find and erase by pattern affect exactly the matching tags and report the right count, also from several threads at once. "
 "The evaluation and accounting dates always equal the last value set, and a scoped override restores the previous value on exit, however nested or thrown through. Fixing histories append, overwrite and replace per index in time order. Environment lookup returns the innermost entry of the requested type and is restored on scope exit; the auditor recalls exactly what was recorded.",
 ["histories", "inputs"], "every sequence of repository, global-date, fixing, environment and audit operations",
 "Tests perform one operation at a time from a fresh state; interleaved histories, name prefixes, dead tags and nested scopes are where state bugs live.",
 ["dal/storage/_repository.cpp", "dal/storage/globals.cpp", "dal/storage/globals.hpp", "dal/storage/audit.cpp", "dal/utilities/environment.hpp", "public/src/repository.cpp", "public/src/globals.cpp"],
 [("AddBase, EraseByStart, Find, Erase, Fetch", "dal/storage/_repository.cpp"), ("ScopedOverride_, StoreFixings, History", "dal/storage/globals.cpp"), ("XDecorated_, Find, Collect", "dal/utilities/environment.hpp"), ("AuditorImp_", "dal/storage/audit.cpp")],
 "map models over operation sequences")
prop("P09", "Vectors, matrices, arrays, stacks and table layouts behave like their models",
 "After any sequence of construction, resize, copy, move, swap, scaling and element, row or column writes, matrices, n-dimensional arrays, cubes and stacks hold exactly the elements written (resizing keeps every element common to the old and new shape), and copies are independent. "
 "Matrix and vector products, quadratic forms, J-squared accumulation, vols and correlations equal their textbook sums for every shape, also when the output aliases an input, and mismatched sizes are refused. A table-layout string places every input cell exactly where its grammar (stacking, justification, transpose, inversion, flattening) says; malformed layout strings are refused without undefined behaviour.",
 ["inputs", "histories"], "every shape, operation sequence, aliasing pattern and layout string",
 "Tests use one or two small shapes; resizing, aliasing, block boundaries and layout grammar are universal statements.",
 ["dal/math/vectors.hpp", "dal/math/matrix/matrixs.hpp", "dal/math/matrix/matrixarithmetic.cpp", "dal/math/matrix/matrixutils.cpp", "dal/math/ndarray.hpp", "dal/math/stacks.hpp", "dal/utilities/algorithms.hpp", "dal/utilities/numerics.hpp"],
 [("Matrix_", "dal/math/matrix/matrixs.hpp"), ("Multiply, AddJSquaredToUpper, Vols", "dal/math/matrix/matrixarithmetic.cpp"), ("Format", "dal/math/matrix/matrixutils.cpp"), ("ArrayN_, Cube_", "dal/math/ndarray.hpp"), ("Stack_", "dal/math/stacks.hpp")],
 "nested std::vector models, triple loops, an independent layout evaluator")
prop("P10", "Matrix decompositions and solvers invert what they multiply",
 "For every well-conditioned tridiagonal, banded, dense symmetric, lower-triangular or diagonal matrix, left and right multiplication by a decomposition equals the matrix product, left and right solves return the solution of the corresponding linear system whether or not the result vector was pre-sized or aliases the input, J A^{-1} J' forms match, and correlated draws have exactly the given covariance while consuming exactly one deviate per dimension, also when a covariance matrix is singular (perfectly correlated or unmoving components). "
 "Element access, symmetry tests and band limits agree with the dense matrix; conjugate-gradient solvers return a vector whose residual meets the tolerance from any starting point, in the iterations the method needs and no more than allowed (refusing when that is not enough); zero pivots and negative variances are refused.",
 ["inputs"], "every size, bandwidth and well-conditioned matrix",
 "Tests solve one or two fixed systems; band-edge indexing, aliasing, unsized outputs and start-at-solution cases are not sampled (band-matrix Cholesky could not decompose any matrix with a band).",
 ["dal/math/matrix/banded.cpp", "dal/math/matrix/cholesky.cpp", "dal/math/matrix/decompositions.cpp", "dal/math/matrix/decompositionsmisc.cpp", "dal/math/matrix/bcg.cpp", "dal/math/matrix/sparse.cpp"],
 [("TriSolve, BandedCholesky_, Banded_", "dal/math/matrix/banded.cpp"), ("Cholesky_", "dal/math/matrix/cholesky.cpp"), ("Diagonal_, LowerTriangular_", "dal/math/matrix/decompositionsmisc.cpp"), ("CGSolve, BCGSolve", "dal/math/matrix/bcg.cpp")],
 "dense Gaussian elimination and triple loops")
prop("P11", "Interpolators pass through their data and are exact where theory says so",
 "Linear and bilinear interpolation returns the tabulated value at every knot, the straight-line (bilinear) blend between neighbouring knots and the boundary value outside, for every increasing abscissa and ordinate. "
 "A cubic spline passes through every point, honours first-, second- or third-derivative boundary conditions, equals the unique C2 piecewise cubic (so reproduces any cubic polynomial) and reports points outside its knots as out of bounds. Mismatched sizes, unsorted or (for splines) repeated knots and unknown boundary orders are refused.",
 ["inputs"], "every knot set, ordinate set, boundary condition and query point",
 "Tests query a handful of points on one fixed table; bracketing at, just beside and beyond knots is a statement about all points.",
 ["dal/math/interp/interp.cpp", "dal/math/interp/interp.hpp", "dal/math/interp/interp2d.hpp", "dal/math/interp/interpcubic.cpp"],
 [("InterpLinearImplX", "dal/math/interp/interp.hpp"), ("Interp2DLinearImplX", "dal/math/interp/interp2d.hpp"), ("Cubic1_", "dal/math/interp/interpcubic.cpp")],
 "direct formulas and a dense solve of the spline equations")
prop("P12", "Curves integrate their rates exactly and discount factors compose",
 "For every piecewise constant or piecewise linear function of date (with different left and right limits), values at, beside, between and beyond the knots and integrals to any date equal the exact day-by-day sum, also after its values are replaced and updated. "
 "A discount curve built on forward rates gives exp(-integral/365) times its base curve: factors compose over any three dates in any order, equal 1 over an empty period and invert on reversal. Polling lists every component of a base chain once, top first; cloning keeps values, replaces exactly the substituted base and leaves the original unchanged.",
 ["inputs"], "every knot set, rate set, date and chain of base curves",
 "Tests check one three-knot constant curve; there are none for the linear or discount curves.",
 ["dal/curve/piecewiseconstant.cpp", "dal/curve/piecewiseconstant.hpp", "dal/curve/piecewiselinear.cpp", "dal/curve/ycimp.cpp", "dal/curve/yccomponent.hpp"],
 [("Sofar, IntegralTo, PWC::F", "dal/curve/piecewiseconstant.cpp"), ("IntegralTo, ValueAt", "dal/curve/piecewiselinear.cpp"), ("DiscountPWLF_", "dal/curve/ycimp.cpp"), ("CurveWithBase_", "dal/curve/yccomponent.hpp")],
 "day-by-day sums; algebraic identities")
prop("P13", "Normal distribution and option formulas equal the expectations they stand for",
 "NCDF, NPDF and InverseNCDF agree with the normal distribution over the whole line (the fast spline version within 2e-4) and invert each other. For every forward, strike, total vol and option type the Black and Bachelier prices equal the expected payoff (Bachelier also for zero or negative forwards and strikes), satisfy put-call parity and straddle = call + put, grow with vol, reduce to the payoff at zero vol; delta and vega are their derivatives. "
 "The implied vol of any attainable price reprices it, from any reasonable guess, through every entry point; prices below intrinsic value are refused. The Merton jump price is the Poisson mixture of Black prices.",
 ["inputs"], "every forward, strike, vol, maturity, option type and price",
 "Tests compare a few numbers at one forward around 100; tails, other magnitudes, signs and all types are not sampled (normal prices with a negative forward were intrinsic, implied vols could fail to converge).",
 ["dal/math/specialfunctions.cpp", "dal/math/specialfunctions.hpp", "dal/math/distribution/black.hpp", "dal/math/distribution/black.cpp", "dal/math/distribution/utils.cpp", "dal/math/analytics/vanilla.hpp", "dal/math/analytics/vanilla.cpp", "dal/protocol/optiontype.hpp"],
 [("NCDF, InverseNCDF", "dal/math/specialfunctions.cpp"), ("BlackOpt, BachelierOpt", "dal/math/distribution/black.hpp"), ("BlackIV, BachelierIV, Greeks", "dal/math/distribution/black.cpp"), ("Merton", "dal/math/analytics/vanilla.hpp")],
 "Gauss-Legendre quadrature of the payoff, finite differences of the quadrature price, repricing")
prop("P14", "Root search, underdetermined search and smoothing deliver what they promise",
 "A bracketed root search evaluates only inside its bracket, never widens it, and reports convergence exactly when the value or the bracket is within tolerance, within a bounded number of evaluations; an unbracketed interval is refused. The hunting search finds the root of any monotone function from any guess. "
 "The underdetermined search returns only points meeting every tolerance (or throws), and for linear constraints returns the move of least weighted norm from the guess in a couple of evaluations, whether the gradient comes from bumping or from the caller; the approximate search returns, for linear functions and any evaluation and restart budget, the minimiser of weighted squared move plus squared misfit in units of the fit tolerance. The smoother returns the minimiser of weighted squared error plus lambda times squared slope.",
 ["inputs", "histories"], "every function with a root, bracket, guess, tolerance, constraint system, weight matrix and smoothing problem",
 "Tests find the root of x^2-1; the underdetermined test is empty and there is none for the smoother (the search could not even be linked and the smoother coupled the wrong points).",
 ["dal/math/rootfind.cpp", "dal/math/rootfind.hpp", "dal/math/optimization/underdetermined.cpp", "dal/math/smooth.cpp"],
 [("BracketedBrent_, Brent_", "dal/math/rootfind.cpp"), ("Find, Approximate, QPStep, SecantUpdate", "dal/math/optimization/underdetermined.cpp"), ("SmoothedVals", "dal/math/smooth.cpp")],
 "bracket tracking, dense Lagrange system, normal equations")
prop("P15", "Random generators are reproducible, skippable and correctly distributed",
 "Every generator is a deterministic function of type, seed and dimension: equal seeds give equal streams, MRG32 follows the MRG32k3a recurrence, uniforms lie strictly inside (0,1) with every second path the exact antithetic of the one before, normals are the inverse normal of consecutive uniforms, and a clone of a fresh generator (precision included) repeats it. "
 "Skipping to path n, from any state, followed by uniform or normal draws gives exactly what n earlier draws of that kind would have led to, so that paths split over batches are the paths of one sequential run; this also holds through the Brownian bridge, which is an orthogonal transform of the underlying normals whose first deviate alone sets the end point.",
 ["inputs", "histories"], "every generator type, seed, dimension and history of draws and skips",
 "Tests check moments of one stream and one even-numbered skip with uniforms; normal draws after a skip (what the Monte Carlo engine uses) were at half the requested path, and IRN skips did nothing.",
 ["dal/math/random/pseudorandom.cpp", "dal/math/random/pseudorandom.hpp", "dal/math/random/brownianbridge.cpp", "public/src/random.hpp"],
 [("FillUniform, FillNormal, SkipTo", "dal/math/random/pseudorandom.cpp"), ("MRG32k32a_, ShuffledIRN_", "dal/math/random/pseudorandom.cpp"), ("BrownianBridge_::Initialize, FillNormal", "dal/math/random/brownianbridge.cpp"), ("GetPseudoRSGNormal", "public/src/random.hpp")],
 "the MRG32k3a recurrence in integer arithmetic; sequential drawing; matrix orthogonality")
prop("P16", "Finite-difference meshes, operators and roll-back solve the discretised PDE",
 "Uniform and concentrating meshes start and end exactly where asked, increase strictly, report consistent spacings and contain the required point; the sinh coordinate map has a true inverse and derivatives and the requested slope at its width. First and second difference operators are exact for quadratics on any mesh at interior points and zero at the ends. "
 "One roll-back step with any theta, drift, variance and rate solves the theta scheme exactly, leaves both boundary values and the coefficients unchanged, and whole roll-backs converge to the Black price. Invalid meshes are refused.",
 ["inputs"], "every mesh, coefficient set, theta, time step and terminal value",
 "There are tests for two meshes only; the operators, maps and roll-back are untested.",
 ["dal/math/pde/fd1d.cpp", "dal/math/pde/finitedifference.cpp", "dal/math/pde/pde.cpp", "dal/math/pde/meshers/concentrating1dmesher.cpp", "dal/math/pde/meshers/uniform1dmesher.hpp"],
 [("FD1D_::RollBwd, CalcAx", "dal/math/pde/fd1d.cpp"), ("Dx, Dxx", "dal/math/pde/finitedifference.cpp"), ("SinhMap_", "dal/math/pde/pde.cpp"), ("Concentrating1dMesher_", "dal/math/pde/meshers/concentrating1dmesher.cpp")],
 "dense solve of the theta scheme, exact derivatives, closed-form prices")
prop("P17", "Adjoint differentiation gives the exact value and gradient of any program",
 "Any program built from the number type's operators and functions (+ - * / pow max min exp log sqrt fabs NPDF NCDF erfc, numbers and doubles on either side, nested expressions, compound assignment, copies, reuse of intermediates) computes exactly the values the same program gives on doubles, and propagating adjoints from a result gives each input's true derivative to rounding error, whatever the scale of intermediates and also at a zero base of a power. "
 "The same holds for several results in one sweep, after resetting adjoints, and for sums over many paths re-recorded after a mark. Comparisons agree with comparing values; copies are independent.",
 ["inputs", "histories"], "every straight-line program over the supported operations, wherever it is differentiable",
 "Tests differentiate a handful of formulas at one point; operator combinations, scales, aliasing and several results are not sampled (powers at zero gave NaN, adjoints below 2e-14 were dropped).",
 ["dal/math/aad/expr.hpp", "dal/math/aad/node.hpp", "dal/math/aad/tape.hpp", "dal/math/aad/tape.cpp", "dal/math/aad/aad.hpp"],
 [("BinaryExpression_, UnaryExpression_, OP*_", "dal/math/aad/expr.hpp"), ("Number_::FromExpr, PropagateAdjoints", "dal/math/aad/expr.hpp"), ("TapNode_::PropagateOne, PropagateAll", "dal/math/aad/node.hpp")],
 "independent forward-mode differentiation with an a-priori rounding bound; plain doubles")
prop("P18", "The tape keeps every recorded node through marks, rewinds and block changes",
 "A block list behaves like a plain growable array under any history of appends, contiguous runs, marks, rewinds (to the start, to the mark, to a position), clears, finds and traversals in either direction: live elements never move, overlap or change, and sizes are exact also when the elements exactly fill whole blocks. "
 "Gradients on a tape are right at any number of nodes, with marks at any place, after any sequence of rewinding, clearing and resetting, in single and several-adjoint mode, and each thread's tape is independent of every other thread's.",
 ["inputs", "histories", "schedules"], "every history of tape and block-list operations, tape length and number of threads",
 "Tests use one block and a handful of appends; the traversal ran past the end whenever nodes exactly filled a block.",
 ["dal/math/aad/blocklist.hpp", "dal/math/aad/tape.hpp", "dal/math/aad/tape.cpp", "dal/math/aad/expr.hpp"],
 [("BlockList_", "dal/math/aad/blocklist.hpp"), ("Tape_::RecordNode, Mark, RewindToMark, ResetAdjoints", "dal/math/aad/tape.cpp"), ("Number_::SetTape, PropagateToMark, PropagateMarkToStart", "dal/math/aad/expr.hpp")],
 "vector model of the history; closed-form gradients; AddressSanitizer")
prop("P19", "A payoff script evaluates to exactly what its text says, gradients included",
 "For every script (assignments, PAYS, nested IF/THEN/ELSE, comparisons, AND/OR, + - * / ^, MAX/MIN of two or more arguments, LOG/SQRT/EXP, SPOT(), DCF(), named constants; any spelling of case, whitespace and redundant parentheses) and every path of spots and numeraires, evaluating the product leaves each variable with the value of a direct reading of the text: usual precedence and associativity, payments accumulate divided by the numeraire of their date, variables start from zero on every path, path after path with the same, copied, assigned or moved evaluator. "
 "With the adjoint number type the values are the same and the propagated sensitivities to every spot, numeraire and named constant are the true derivatives. The product lists exactly the variables and constants mentioned, and its payoff is the named variable or, if none is named, the last one.",
 ["inputs", "histories"], "every script of the language and every path",
 "Tests evaluate a few short scripts on a fixed path; the grammar's combinations are unbounded (MAX of three arguments ignored the third, a moved evaluator lost its initial values).",
 ["dal/script/parser.cpp", "dal/script/visitor/evaluator.hpp", "dal/script/visitor/varindexer.hpp", "dal/script/event.cpp", "dal/script/event.hpp", "dal/script/node.hpp"],
 [("Parser_", "dal/script/parser.cpp"), ("EvaluatorBase_, Evaluator_", "dal/script/visitor/evaluator.hpp"), ("VarIndexer_", "dal/script/visitor/varindexer.hpp"), ("ScriptProduct_::Evaluate, BuildEvaluator", "dal/script/event.hpp")],
 "an independent interpreter of the generated syntax tree, with forward-mode derivatives")
prop("P20", "Pre-processing and compiling a script never change its result",
 "Domain processing (constants folded, conditions proved always true or always false removed) and compilation to the flat instruction stream, alone or together, give on every path exactly the values, and with the adjoint number type exactly the sensitivities (to spots, numeraires and named constants), that plain evaluation of the same script gives, including comparisons on their threshold, flags that take a few discrete values, nested conditionals and ELSE branches of any depth. "
 "Compiled products evaluated in turns do not disturb one another.",
 ["inputs", "histories"], "every script and path, in each processing mode",
 "Tests compile a couple of scripts and compare prices; condition domains and nesting are unbounded (a comparison of a LOG with zero was folded to false, a nested ELSE corrupted the stack).",
 ["dal/script/visitor/compiler.hpp", "dal/script/visitor/domainproc.hpp", "dal/script/visitor/domain.cpp", "dal/script/visitor/domain.hpp", "dal/script/visitor/constprocessor.hpp", "dal/script/visitor/constcondprocessor.hpp"],
 [("Compiler_, EvalCompiled", "dal/script/visitor/compiler.hpp"), ("DomainProcessor_", "dal/script/visitor/domainproc.hpp"), ("ConstProcessor_", "dal/script/visitor/constprocessor.hpp"), ("ConstCondProcessor_", "dal/script/visitor/constcondprocessor.hpp"), ("Domain_", "dal/script/visitor/domain.hpp")],
 "the same independent interpreter as P19")
prop("P21", "Smoothed evaluation blends branches linearly inside the smoothing width only",
 "Smoothed (fuzzy) evaluation of a script with width eps gives each condition a degree of truth that is linear from 0 to 1 across the eps-wide band centred on its threshold (for discrete expressions, exact between neighbouring values), combines degrees for AND (product), OR (sum minus product) and negations, and sets every variable touched in a conditional to the degree-weighted blend of the two outcomes, nested to any depth. "
 "Where no condition is within the width of its threshold the result is exactly the unsmoothed one; a flag passing through a barrier moves monotonically and continuously between the two outcomes; sensitivities of the adjoint version are the derivatives of the blend.",
 ["inputs"], "every script, path and smoothing width",
 "Tests compare one barrier price with a tolerance; the blending rules are a statement about every script and path (!= was not smoothed at all).",
 ["dal/script/visitor/fuzzy.hpp", "dal/script/visitor/ifprocessor.hpp", "dal/script/visitor/domainproc.hpp"],
 [("FuzzyEvaluator_", "dal/script/visitor/fuzzy.hpp"), ("IfProcessor_", "dal/script/visitor/ifprocessor.hpp"), ("DomainProcessor_", "dal/script/visitor/domainproc.hpp")],
 "an independent smoothing interpreter with forward-mode derivatives; betweenness and continuity")
prop("P22", "The script parser accepts or refuses any text cleanly and refuses every defect",
 "Any text at all (mutated, spliced or shuffled scripts, random tokens or bytes, schedule headers) is either refused with an exception or gives a product that can be processed, compiled, printed and evaluated, without undefined behaviour. "
 "A valid script with one defect is always refused: an unbalanced parenthesis, a missing THEN, END, comparison, operand, argument or right-hand side, surplus tokens in parentheses, a wrong number of arguments, a keyword, operator or number where a variable belongs, an assignment or payment to a named constant, an argument given to SPOT, an incomplete DCF, and schedule headers lacking START, END or FREQ.",
 ["inputs"], "every byte string, token sequence and single defect",
 "Tests parse well-formed scripts only; the parser read past its last token and silently dropped surplus tokens.",
 ["dal/script/parser.cpp", "dal/script/parser.hpp", "dal/script/event/schedule.cpp"],
 [("Tokenize, Parser_::ParseExpr*, ParseCond*, ParseStatement", "dal/script/parser.cpp"), ("schedule header parsing", "dal/script/event/schedule.cpp")],
 "AddressSanitizer, must-throw on constructed defects, usability of accepted scripts")
prop("P23", "An event table expands to exactly the events its rows describe",
 "For every table of named constants, text macros, dated rows and schedule rows (START/END/FREQ with calendar, business-day rule and FIXING at the BEGIN or END of each period), in any order, the product's events are exactly the rows' statements, in date order with rows of the same date in table order, each schedule row repeated on the fixing date of every period with that period's day-count fraction for DCF; macros are substituted and constants bound. "
 "Events before the evaluation date are applied once to the starting values of the variables (payments in the past are not paid), the others form the simulation timeline with one sample per future date, today included; any number of past events may occur. Tables with duplicate or misplaced definitions are refused.",
 ["inputs"], "every event table and evaluation date",
 "Tests build one or two tables; ordering, same-date merging, past events and period conventions are not sampled (past payments leaked a stack slot each).",
 ["dal/script/event.cpp", "dal/script/event.hpp", "dal/script/event/schedule.cpp", "dal/script/visitor/pastevaluator.hpp"],
 [("ScriptProduct_::ParseEvents, PreProcess", "dal/script/event.cpp"), ("ScriptProductData_", "dal/script/event.hpp"), ("PastEvaluator_", "dal/script/visitor/pastevaluator.hpp")],
 "an independent expansion of the table and the P19 interpreter")
prop("P24", "Simulated model paths follow the model's stochastic equation exactly",
 "For every Black-Scholes or local-volatility (Dupire) model, every increasing set of observation times (today included or not) and every vector of normal draws, each simulated spot, numeraire and discount equals the lognormal step (or Euler step in the log-spot on the merged simulation timeline, with volatilities bilinearly interpolated in spot and time and flat outside) of the documented equation; the number of normals asked for is the number of steps. "
 "Clones, re-allocated timelines and changed parameters behave as a freshly built model, and with the adjoint number type the sensitivities of every spot to every parameter (spot, rate, dividend, each local volatility) are the true derivatives. Model data keep their contents when renamed and refuse shapes that do not fit.",
 ["inputs", "histories"], "every model, timeline, draw and history of clones and re-initialisations",
 "Tests price one option with loose Monte Carlo tolerance, which a wrong drift, a shifted volatility column or a missing sensitivity survives (local-volatility deltas ignored the skew).",
 ["dal/model/blackscholes.hpp", "dal/model/dupire.hpp", "dal/model/base.hpp", "dal/math/interp/interp2d.hpp", "dal/math/interp/interp.hpp"],
 [("BlackScholes_::GeneratePath, Init", "dal/model/blackscholes.hpp"), ("Dupire_::GeneratePath, Init", "dal/model/dupire.hpp"), ("ModelData_", "dal/model/base.hpp")],
 "independent recursion with forward-mode derivatives")
prop("P25", "Monte Carlo values and sensitivities equal the plain sequential average",
 "For every script, model, number of paths, generator (bridge or not), compilation mode, number of threads and batch boundary, the total of a simulation is the sum over the generator's consecutive paths of the script's payoff on the model's path, and each reported sensitivity, to every model parameter and every named constant, under its name, is the derivative of the average (in smoothed runs of the smoothed payoff), payoffs that are themselves a parameter or constant included. "
 "The public valuation call gives the average and the same sensitivities by name. Events before the evaluation date count through the values they leave, also if none are left. Unknown generators, errors inside tasks and non-positive path counts are reported as errors, never as a number.",
 ["inputs", "schedules", "faults"], "every script, model, path count, batch split and thread count",
 "Tests compare one or two prices with closed forms to a few standard errors; batch seams, sensitivities by name and failing tasks are not sampled (an exception in a task was dropped and the partial sum returned).",
 ["dal/script/simulation.hpp", "dal/script/simulation.cpp", "dal/script/event.hpp", "dal/math/random/brownianbridge.cpp", "public/src/value.cpp"],
 [("MCSimulation", "dal/script/simulation.hpp"), ("SimResults_", "dal/script/simulation.hpp"), ("ValueByMonteCarlo", "public/src/value.cpp"), ("BrownianBridge_", "dal/math/random/brownianbridge.cpp")],
 "sequential loop over reference model and reference interpreter, forward-mode derivatives")
prop("P26", "Local volatilities reproduce Dupire's formula for any implied volatility surface",
 "For every smooth implied volatility surface, spot, rate and dividend yield, call prices are Black's prices at the forward, discounted, at the implied volatility (plus the risk view's spread), and local volatilities agree with the closed form in terms of implied total variance to finite-difference accuracy; the Merton jump surface prices as the Poisson sum of Black prices. "
 "Calibrated tables hold, for every pair of the filled spot and time grids (original points kept, gaps no wider than the requested maximum), the directly evaluated local volatility, flat beyond the reach of the volatilities; sensitivities of calibrated volatilities to the buckets of a risk view are the true ones.",
 ["inputs"], "every surface, rate, dividend yield, strike, maturity and grid",
 "Tests check one surface with zero rates (with rates the formula lacked the strike and discounting was ignored).",
 ["dal/model/ivs.hpp", "dal/model/ivs.cpp", "dal/model/dupire.hpp", "dal/math/vectors.hpp"],
 [("IVS_::Call, LocalVol", "dal/model/ivs.hpp"), ("MertonIVS_", "dal/model/ivs.cpp"), ("DupireCalib", "dal/model/dupire.hpp"), ("RiskView_", "dal/model/ivs.hpp")],
 "closed forms in total variance, Poisson sums, definition of the grids, forward differences")
prop("P27", "Every task runs once, and parallel work never races, hangs or loses errors",
 "For every graph of tasks (nested spawning included), order of waiting, pool size and history of restarts, every spawned task runs exactly once on a thread whose number no other running task has, every wait returns, its result or its exception arrives at its own handle and what it wrote is visible; tasks still queued when the pool stops are given up visibly, and the pool works again afterwards. "
 "The concurrent queue hands out every element exactly once, in each producer's order, wakes every waiter on interrupt, and is a plain first-in first-out queue in sequential use. Simulations on several threads give what one thread gives. No execution has a data race.",
 ["schedules", "histories"], "every task graph, pool size, restart history and schedule the machine produces",
 "Tests spawn one batch of independent tasks; races, restarts and nested waits are not exercised (stopping the pool raced with its threads).",
 ["dal/concurrency/threadpool.hpp", "dal/concurrency/threadpool.cpp", "dal/concurrency/concurrentqueue.hpp", "dal/script/simulation.hpp"],
 [("ThreadPool_", "dal/concurrency/threadpool.cpp"), ("ConcurrentQueue_", "dal/concurrency/concurrentqueue.hpp"), ("MCSimulation", "dal/script/simulation.hpp")],
 "run counts, future results, sequential queue model, single-thread results, ThreadSanitizer")
prop("P28", "Index names, dates and fixings are unambiguous and survive parsing and cloning",
 "The name of every equity index (plain, with a delivery date or a delivery tenor), currency pair and interest-rate index is the documented notation; parsing the name, or cloning, gives an index with the same name, and a name with anything missing, added or out of place is refused. "
 "Delivery, start and maturity dates are those of the calendar for every fixing date. A fixing is the one recorded under that name and time in the innermost environment that has fixings (a currency pair falls back to the inverse pair), otherwise an error, or the quiet marker when asked for; keys of equal indices are equal. "
 "The probability that a historical path stays in a range is the product, over exactly the monitored times that have a fixing, of the ramped in-range weights.",
 ["inputs", "histories"], "every index, malformed name, fixing history, environment stack and monitoring interval",
 "Tests parse one equity name and look up one fixing; the FX parser was never registered and malformed names were accepted.",
 ["dal/indice/index.cpp", "dal/indice/indexparse.cpp", "dal/indice/indexpath.cpp", "dal/indice/fixings.cpp", "dal/indice/index/equity.cpp", "dal/indice/index/fx.cpp", "dal/indice/index/ir.cpp", "dal/indice/parser/equity.cpp", "dal/indice/parser/fx.cpp", "dal/utilities/environment.hpp"],
 [("Index::Parse, Index::Clone", "dal/indice/indexparse.cpp"), ("Equity_, Fx_, DF_, Libor_, Swap_", "dal/indice/index"), ("Index::PastFixing", "dal/indice/index.cpp"), ("IndexPathHistorical_", "dal/indice/indexpath.cpp"), ("Environment::Find", "dal/utilities/environment.hpp")],
 "the documented notation, the civil calendar, plain maps of fixings")
prop("P29", "Currency conventions and the trade protocol give exactly what was registered",
 "For every history of writes, a currency's convention is what was written last for that currency, otherwise the default, otherwise an error; libor start and fixing dates are that number of business days away in that currency's calendar (always a business day, and inverse to each other from business days). "
 "Merged underlyings hold, for each currency, index and credit, the latest of the dates included. Call, put and straddle payouts obey their definitions and parity; accrual periods carry their dates, notional and the fraction of their basis; payments keep what they were given; traded rates have their tenor and clearer and are found by them.",
 ["inputs", "histories"], "every history of convention writes, calendar, date, merge order and payout",
 "Tests read a few built-in conventions; overrides, holiday crossings and merges are not sampled (dates in the last year of the calendar never returned).",
 ["dal/currency/currency.cpp", "dal/currency/currencydata.cpp", "dal/currency/currencydata.hpp", "dal/protocol/conventions.cpp", "dal/protocol/underlying.cpp", "dal/protocol/optiontype.cpp", "dal/protocol/accrualperiod.cpp", "dal/protocol/payment.cpp", "dal/protocol/couponrate.cpp"],
 [("Ccy::Conventions, Ccy::Fact_", "dal/currency/currencydata.hpp"), ("Libor::StartFromFix, FixFromStart", "dal/protocol/conventions.cpp"), ("Underlying_::Include, operator+=", "dal/protocol/underlying.cpp"), ("OptionType_::Payout", "dal/protocol/optiontype.cpp"), ("FindRate", "dal/protocol/couponrate.cpp")],
 "a map model, day-by-day counting, payoff definitions")
prop("P30", "A report holds each value at its own index and refuses any other",
 "For every list of distinct named axes and every history of writes, extensions of the first axis, replacements and header rows, reading an index gives what was last written at exactly that index; extending keeps the old values and header rows; header rows stay where they were put. "
 "Indices outside an axis, duplicate axis names, negative sizes, header rows of the wrong width and wrong numbers of values are refused without touching other entries or memory.",
 ["inputs", "histories"], "every shape of report and history of operations",
 "Tests build one two-axis report; an index beyond an axis silently addressed another entry.",
 ["dal/risk/report.cpp", "dal/risk/report.hpp", "dal/risk/reportutils.hpp"],
 [("Report_", "dal/risk/report.cpp"), ("Report::Address_", "dal/risk/report.hpp")],
 "a map from index tuples to values (AddressSanitizer)")
prop("P31", "Every error names its place and exactly the context open when it was raised",
 "The message of every error holds the file, line, function and text of the throw followed by the notes and noticed values (integers, numbers, text, dates, date-times) of exactly the scopes open at that moment, outermost first, with the values the variables have then. "
 "Scopes left by return or by an exception, caught or not, are gone from later messages; each thread has its own scopes; the library's own errors about text name the offending text.",
 ["inputs", "histories", "schedules"], "every nesting of scopes, throws, handlers and threads",
 "Tests throw once from one scope; what remains after exceptions, in handlers and on other threads is not sampled.",
 ["dal/utilities/exceptions.cpp", "dal/utilities/exceptions.hpp"],
 [("Exception_, XStackInfo_, PushStack, PopStack", "dal/utilities/exceptions.cpp"), ("NOTE, NOTICE, THROW, REQUIRE", "dal/utilities/exceptions.hpp")],
 "an explicit stack of open scopes per thread")
prop("P32", "The printed description of a script product denotes the same program",
 "For every script product, the printed description, as parsed or after processing, lists the variables at their positions and the events in date order with their dates, and its statement trees, read back and executed, leave every variable with the value the script defines on every path; printing again gives the same text.",
 ["inputs"], "every script and path",
 "Tests only look for a non-empty text.",
 ["dal/script/visitor/debugger.hpp", "dal/script/event.cpp", "public/src/script.hpp"],
 [("Debugger_", "dal/script/visitor/debugger.hpp"), ("ScriptProduct_::Debug", "dal/script/event.cpp"), ("DebugScriptProduct", "public/src/script.hpp")],
 "an independent reader and interpreter of the printed tree against the interpreter of the generated tree")
prop("P33", "The value sets computed for a script contain every value it can produce",
 "For every union of intervals and points, adding pieces in any order gives the same set, with its exact membership, size, ends, signs and printed form; sums, differences, negatives, minima, maxima and shifts are exact, products and quotients (of bounded pieces exactly, of unbounded ones at least) contain the result for every pair of members, and division by the set {0} is refused. For every script, each variable ends, on every path, inside the set the analysis gives for it.",
 ["inputs", "histories"], "every set, order of construction, script and path",
 "No test touches the interval classes; the analysis is only run on scripts where a wrong set changes nothing.",
 ["dal/script/visitor/domain.hpp", "dal/script/visitor/domainproc.hpp"],
 [("Bound_, Interval_, Domain_", "dal/script/visitor/domain.hpp"), ("DomainProcessor_", "dal/script/visitor/domainproc.hpp")],
 "a model of unions of intervals, point-wise evaluation, and the interpreter of the generated script")
prop("P34", "Library calls and process-wide registries are safe to use from several threads",
 "For every set of threads and every mix of calls on objects of their own (dates, calendars, day counts, distributions, generators, matrices, interpolators, storage, scripts, adjoint gradients, failing calls with their context), each call gives on each thread what it gives alone. For every concurrent history, the process-wide registries - object repository, global dates, fixings, holiday centres, combined calendars, index parsers, one-time initialisation - behave as if operations happened one at a time: an addition that replaces leaves exactly one object, no stored fixing or registered centre is lost, a date read was one set, a name is registered once. No data race on any explored schedule.",
 ["schedules", "histories"], "every number of threads, mix of operations and interleaving",
 "The tests use the registries and every ordinary call from one thread only; a missing lock shows on rare interleavings.",
 ["dal/storage/_repository.cpp", "dal/storage/globals.cpp", "dal/time/holidaydata.cpp", "dal/time/holidays.cpp", "dal/indice/indexparse.cpp", "dal/indice/parser/init.cpp", "dal/currency/init.cpp", "dal/utilities/exceptions.cpp"],
 [("ObjectAccess_", "dal/storage/_repository.cpp"), ("Global::Dates_, Global::Fixings_, XGLOBAL", "dal/storage/globals.cpp"), ("Holidays::AddCenter, OfCenter", "dal/time/holidaydata.cpp"), ("CountBusDays_", "dal/time/holidays.cpp"), ("Index::Parse, RegisterParser", "dal/indice/indexparse.cpp"), ("PushStack, PopStack", "dal/utilities/exceptions.cpp")],
 "the same calls made by one thread, counts and contents any sequential order would give, and the thread sanitizer")
