import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mechanism]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=list(observe)
    d['anchors']['hook_needed']=hook
    P.append(d)
ALL=["gftool/__init__.py","gftool/statistics.py","gftool/density.py","gftool/basis/pole.py","gftool/basis/__init__.py","gftool/lattice/","gftool/fourier.py","gftool/matrix.py","gftool/linalg.py","gftool/siam.py","gftool/pade.py","gftool/polepade.py","gftool/hermpade.py","gftool/linearprediction.py","gftool/cpa.py","gftool/beb.py"]
p("C01","Calls that overlap in time are isolated from each other",
 "Whenever several library calls are in flight at once - issued from different threads, on separate or on the very same argument arrays and shared objects (decompositions, pole functions, Pade approximants, averaging functions, filters), or issued from inside a user callback of another call - each call returns, or raises, exactly what it does when it runs alone. The only exemption is two multi-precision evaluations (the `*_mp` functions) at the same time, because they share mpmath's process-wide working precision.",
 ["schedules","inputs"],"all interleavings of the Python-level steps of concurrently running calls and all nestings of calls inside user callbacks, over every public function and its argument shapes and types",
 "The test-suite never runs two library calls at the same time; every interleaving but the sequential one is unexplored.",
 ALL,[("no shared scratch buffers, caches or result objects at module or object level","every module"),("evaluation methods only read the object they are called on","gftool/matrix.py, gftool/basis/, gftool/polepade.py, gftool/pade.py"),("expression evaluation by numexpr takes its operands from an explicit local_dict","gftool/fourier.py _phase_numexpr")],
 observe=["return value or exception of every public function"])
p("C02","Process-wide state is left as it was found",
 "No library call leaves process-wide state changed that it does not own: the Python warning filters, numpy's and scipy's floating-point error handling and print options, the random number generators, mpmath's working precision, the logging configuration and the library's own published constant tables are after any set of calls what they were before. This holds when calls return, when they raise, when a computation they perform or a user callback fails in the middle, and when several calls overlap in threads.",
 ["schedules","fault_sequences","histories"],"all interleavings of calls in threads, all points at which an internal numerical operation or a user callback fails or is interrupted",
 "Tests look at return values only, run sequentially, and never fail an operation in the middle of a call.",
 ALL,[("scoped change of the working precision","gftool/lattice/square.py dos_mp, gftool/lattice/triangular.py dos_mp"),("suppression of the division warning of the Bose function","gftool/statistics.py bose_fct")],
 state=[("warnings.filters","process-wide warning filters","Python warnings module"),("mp.dps / mp.prec","process-wide working precision","mpmath"),("np.geterr","floating-point error handling","numpy"),("dos_moment_coefficients","published constants","gftool/lattice/*.py")])
p("C03","A result depends on the arguments only, never on history",
 "What a call returns is determined by its arguments (for the `*_mp` functions: and mpmath's working precision). It does not depend on which calls came before, whether they succeeded, raised or were interrupted at an arbitrary point, on what the caller afterwards did to the arrays they returned, on the caller having reused or refilled its own argument arrays between calls, or on unrelated ambient state such as the random number generator.",
 ["histories","fault_sequences","crash_points"],"all sequences of calls, interruptions at arbitrary steps and modifications of results and argument buffers by the caller",
 "Each test calls a function on a fresh input once; histories with interrupted calls, reused buffers or overwritten results are not sampled.",
 ALL,[("results are freshly allocated and nothing is remembered between calls","every module"),("temperature independent part of the Pade frequencies is computed afresh for every call","gftool/statistics.py pade_frequencies")])
p("C04","Nothing observable depends on uninitialised memory",
 "The values a call returns, and the exceptions and warnings it produces, do not depend on what the memory it allocates happened to contain before.",
 ["inputs","fault_sequences"],"all contents of freshly allocated array memory (zeros, NaN and signalling patterns, huge values, stale data) for every call",
 "What malloc hands out in a short test process is nearly always zero or finite stale data of one pattern; a leak of it into results shows only by accident.",
 ["gftool/basis/pole.py","gftool/statistics.py","gftool/hermpade.py","gftool/linearprediction.py","gftool/pade.py","gftool/lattice/"],
 [("masked evaluation writes every element that is read afterwards","gftool/basis/pole.py _single_pole_gf_ret_t; gftool/statistics.py bose_fct, fermi_fct; gftool/hermpade.py eval_branches")])
p("C05","The caller's data is never modified",
 "No library call modifies data it was given: argument arrays and sequences, objects whose methods are called, the keyword dictionaries and starting guesses handed to solvers, and the arrays that user callbacks return keep their contents, and calls work alike on read-only arrays. This holds whether the call returns, raises or is interrupted at any point.",
 ["inputs","fault_sequences","crash_points"],"all public functions, argument layouts (contiguous, strided, read-only, broadcast views) and all points at which the call may be cut short",
 "Tests almost never compare the arguments after a call, never use strided or read-only arguments, and never cut a call short.",
 ALL,[("all in-place updates happen on arrays the function itself allocated","gftool/fourier.py, gftool/pade.py, gftool/cpa.py, gftool/linearprediction.py, gftool/basis/pole.py")])
p("C06","A failing user callback fails the call, with its own exception",
 "If a user-supplied function (lattice Hilbert transform, occupation function, Fourier or Laplace back-end, Pade filter or modifier, Vandermonde basis, solver callback) raises at any one of its invocations, the library call it serves ends with that very exception: it is neither swallowed, retried, replaced nor turned into a result (exempt is only numpy's LinAlgError inside the CPA/BEB root searches, which scipy's Krylov solver interprets itself, and StopIteration, which the language itself takes for the end of an iteration). Calling again with a working function gives the same result as if the failure had never happened.",
 ["fault_sequences","inputs"],"every invocation index of every user-supplied callable, any exception type including those the library itself catches for other purposes (TypeError, AttributeError, KeyError, LinAlgError, KeyboardInterrupt)",
 "No test makes a callback fail.",
 ["gftool/cpa.py","gftool/beb.py","gftool/density.py","gftool/fourier.py","gftool/pade.py","gftool/polepade.py","gftool/matrix.py"],
 [("callbacks are invoked outside of any exception handler","gftool/pade.py averaged (only tuple() is guarded); gftool/cpa.py; gftool/beb.py; gftool/density.py")])
p("C07","Solvers return a converged solution or raise",
 "The iterative solvers (CPA and BEB self-energies, CPA at fixed occupation, chemical potential) only ever return a value that solves the problem posed, to the residual tolerance that was asked for. If they cannot reach one, because the iteration budget runs out, the iteration diverges or the equation evaluates to NaN, they raise an exception; running out of iterations raises RuntimeError.",
 ["fault_sequences","inputs","configurations"],"all iteration budgets, solver methods, tolerances, starting guesses, and evaluations of the user's function that turn non-finite at any point",
 "Tests solve a few well-behaved problems with ample budget; exhausted budgets and non-finite evaluations are not sampled.",
 ["gftool/cpa.py","gftool/beb.py","gftool/density.py"],
 [("success flag of scipy.optimize.root is checked","gftool/cpa.py solve_root, solve_fxdocc_root; gftool/beb.py solve_root"),("convergence flag of root_scalar is checked, bracket search is bounded","gftool/density.py chemical_potential")])
p("C08","A failing resource never becomes a wrong result",
 "If during a call memory runs out, a linear-algebra kernel fails to converge, or the user interrupts it, at any point, the call either ends with an exception or still returns the result it returns without the fault (to rounding accuracy); it never returns a different or partial result. A user interrupt (KeyboardInterrupt) and memory exhaustion always surface as such.",
 ["fault_sequences","crash_points"],"every allocation, every linear-algebra kernel call and every step of every public function as the place where the fault strikes",
 "Tests never fail an allocation, a kernel or interrupt a call; the fallback for singular constraints is reached only for a few inputs.",
 ALL,[("exception handlers are narrow","gftool/statistics.py fermi_fct; gftool/_util.py _u_ellipk; gftool/lattice/bethe.py; gftool/pade.py"),("pseudo-inverse fallback verifies its residual","gftool/linalg.py lstsq_ec")])
p("C09","Pade approximants do not depend on how they are consumed",
 "The sequence of approximants produced by a Pade iterator is the same however it is consumed: several iterators advanced in any interleaving, abandoned, closed or hit by an exception at any point, nested in filters, or whose already delivered arrays the consumer overwrites. The averaging functions, kind selectors and filters built from them can be evaluated any number of times, in any order and interleaving, with results as on first use.",
 ["schedules","histories"],"all interleavings of advancing, abandoning and overwriting several iterators and of evaluating shared averaging functions, selectors and filters",
 "Tests consume one iterator completely, at once, and evaluate an averaging function once.",
 ["gftool/pade.py"],[("recurrence state lives in the generator frame","gftool/pade.py calc_iterator"),("averaging functions create a fresh iterator per evaluation","gftool/pade.py Averager, Mod_Averager")])
p("C10","Logging never changes what a call does",
 "Turning logging on or off, at any level and at any moment - also while a call is running - changes neither the result nor the exception of any call, nor which of the user's functions it calls, and every log record the library emits can be formatted.",
 ["configurations","schedules"],"all log levels of the library's loggers, switched at any step of a running call, for every public function and every solver method",
 "The tests run at the default level only; the code that runs solely when DEBUG or INFO is enabled is not compared with the default.",
 ["gftool/cpa.py","gftool/beb.py","gftool/pade.py","gftool/polepade.py","gftool/fourier.py","gftool/density.py"],
 [("diagnostics are computed only for logging","gftool/beb.py solve_root; gftool/cpa.py solve_fxdocc_root")])
p("C11","Degraded environments give the same results",
 "The library imports and every numerical call gives the same result (to rounding accuracy) when optional parts of its environment are missing or fail: numexpr not importable, matplotlib not importable, no named quad-precision types, Python running with assertions or docstrings stripped (-O, -OO), or another hash seed.",
 ["configurations","fault_sequences"],"all combinations of missing optional packages and interpreter modes, over all public functions",
 "The tests run in one environment: numexpr and matplotlib present, assertions on.",
 ["gftool/fourier.py","gftool/_precision.py","gftool/polepade.py","gftool/linearprediction.py","gftool/pade.py"],
 [("fallback when numexpr is missing","gftool/fourier.py _phase"),("fallback when quad types are missing","gftool/_precision.py"),("plotting imports are local","gftool/polepade.py plot; gftool/linearprediction.py plot_roots")])
p("C12","The chemical-potential search always ends, within a bounded effort",
 "However the occupation function behaves - flat over any range, jumping, never reaching the target, exactly on target, non-finite or erratic for some evaluations - the search for the chemical potential ends after a bounded number of evaluations, with a value or with an exception; if no bracket exists it raises RuntimeError. Once the occupation function behaves (monotonic and crossing the target within reach of the exponentially growing step), the search succeeds and the result has the target occupation.",
 ["fault_sequences","inputs"],"all sequences of values an occupation function may deliver",
 "Tests search for a few smooth occupations only.",
 ["gftool/density.py"],[("exponential growth of the step with a cap on the number of steps","gftool/density.py chemical_potential"),("bracketed Brent search","gftool/density.py chemical_potential")])
p("C13","Every call ends after a bounded number of steps",
 "Every library call ends, with a result or an exception, after a number of its own steps that is bounded by the size of its arguments and the iteration budgets it was given - whatever values the arguments have (degenerate, constant, non-finite, of unusual degree or starting guess), whatever a user callback answers, and also if a linear-algebra kernel fails or answers inaccurately on the way. This concerns above all the search for the number of poles, the degree reduction of robust Pade approximants, the root searches at a small iteration budget and recursions over orders; time spent inside third-party kernels is not meant.",
 ["fault_sequences","inputs"],"all argument values, all sequences of callback answers and of failing or inaccurate kernel answers",
 "Tests use well-conditioned data and default options; a search that stops making progress for one degree, one starting guess or one rank estimate is never sampled, and would hang the test instead of failing it.",
 ["gftool/polepade.py","gftool/hermpade.py","gftool/density.py","gftool/linearprediction.py","gftool/pade.py","gftool/cpa.py","gftool/beb.py","gftool/statistics.py"],
 [("every pass of the pole-number search strictly raises the number of poles or strictly lowers its upper limit","gftool/polepade.py number_poles"),("every pass of the robust Pade lowers the denominator degree","gftool/hermpade.py pader"),("step count of the bracket search is capped","gftool/density.py chemical_potential")])
p("C14","Objects, results and exceptions survive copying and serialisation",
 "Every data object the library hands out (decompositions, pole functions, rational functions, Pade and Hermite-Pade approximants, selectors of approximants, result tuples and arrays) and every exception it raises can be copied, deep-copied and pickled, with every protocol that supports its contents, at any moment - freshly made, after use, while a call on it is in progress, after such a call failed or was interrupted. What is restored, in the same or in a fresh process after the original's process has died, has the same type and contents and behaves in every use like the original; a deep copy shares no data with the original; and a checkpoint that was cut short is refused rather than restored to something else. Functions made by the library (averagers, filters) are exempt.",
 ["crash_points","histories","fault_sequences"],"all objects and results of all public functions, all points at which a checkpoint is taken or the process dies, all copy and pickle protocols",
 "No test copies or serialises an object, let alone in the middle of its use or across processes.",
 ["gftool/matrix.py","gftool/basis/","gftool/hermpade.py","gftool/polepade.py","gftool/pade.py","gftool/beb.py","gftool/cpa.py","gftool/density.py"],
 [("objects are plain containers of their data, without hidden state, handles or closures","gftool/matrix.py Decomposition; gftool/basis/pole.py PoleFct, PoleGf; gftool/basis/__init__.py RatPol, ZeroPole; gftool/hermpade.py Hermite2; gftool/polepade.py PadeApprox; gftool/pade.py KindSelector; gftool/beb.py SpecDec")])
p("C15","A process that keeps calling the library does not accumulate memory",
 "However many calls a process makes, the memory it holds stays bounded: once a call has ended - returned, raised, failed in a callback or a computation, ran out of its iteration budget, or was interrupted at any point - and the caller has dropped what it got, nothing of that call is retained, except in caches of bounded size. The same holds for library objects (decompositions, pole functions, approximants, selectors, averaging functions, filters) that are evaluated over and over again with different arguments and for iterators dropped half-way: they do not grow.",
 ["histories","fault_sequences","crash_points"],"all sequences of calls with differing arguments, all points at which calls are cut short",
 "Tests make one call at a time in short processes; what is left behind by a call, or by a failing one, only shows after thousands of calls.",
 ALL,[("no module- or object-level containers are filled by calls","every module"),("generators and closures hold only their own data","gftool/pade.py calc_iterator, Averager, Mod_Averager")])
p("C16","Damage to one item of a stack stays with that item",
 "Many items - frequency points, energies, times, Green's functions, matrices, orbitals - can be handed to one call as a stack. If some items are bad - NaN, infinite, zero, huge, or any other wrong number; from the beginning, because a caller's array goes bad while the call is in progress, or because what a user callback returns is bad for these items - the call either raises, or every other item still comes out as it does without the damage, to rounding accuracy. Where the interface calls for one answer for the whole stack - root searches, sums, decisions documented to be taken jointly - only that is exempt.",
 ["fault_sequences","inputs"],"all items and sets of items of all stacked arguments and callback results, all wrong values, all points at which the data goes bad",
 "Tests pass clean data, and mostly a single item; what one bad item does to its neighbours is not sampled.",
 ALL,[("masked evaluation is done element by element, never decided for all elements by any or all","gftool/lattice/, gftool/statistics.py, gftool/linearprediction.py"),("filters of Pade approximants decide for every element of the stack on its own","gftool/pade.py FilterNegImag, FilterHighVariance, apply_filter, Averager")])
# ---- pure
def q(id,title,st,files,mech,text):
    p(id,title,st,["inputs"],text,"Tests sample a handful of inputs of a continuous space.",files,[(m,w) for m,w in mech])
q("C20","Lattice Green's functions, densities of states and moments agree",
 "For every lattice, the density of states is -1/pi times the imaginary part of the retarded local Green's function, is normalised and non-negative, and its tabulated moments are the moments of that density of states; the Green's function obeys G(z*) = G(z)* and decays like 1/z.",
 ["gftool/lattice/"],[("closed-form expressions by elliptic integrals","gftool/lattice/*.py")],"all complex frequencies off the real axis, all half-bandwidths, all lattices")
q("C21","Multi-precision densities of states agree with the double-precision ones",
 "Each multi-precision density of states equals the double-precision one to double accuracy and is accurate to the working precision.",["gftool/lattice/"],[("dos_mp","gftool/lattice/*.py")],"all energies, half-bandwidths and working precisions")
q("C22","Fermi and Bose functions are accurate and stable for all arguments",
 "The Fermi and Bose functions, the derivative and the inverse are accurate without overflow for all real and complex arguments, and the inverse inverts.",["gftool/statistics.py"],[("expit, expm1 and exponent-sign selection","gftool/statistics.py")],"all energies and temperatures")
q("C23","Matsubara and Pade frequencies are the poles of the Fermi function",
 "Matsubara frequencies are the exact poles; summing any fermionic Green's function over Pade frequencies with their residues converges to the same density.",["gftool/statistics.py"],[("eigenvalue problem","gftool/statistics.py _pade_frequencies")],"all numbers of frequencies and temperatures")
q("C24","Fourier transforms between Matsubara frequencies and imaginary time invert",
 "Transforming to imaginary time and back reproduces the Green's function, and for pole Green's functions the transforms agree with the analytic ones, within discretisation error.",["gftool/fourier.py"],[("DFT plus analytic treatment of moments","gftool/fourier.py")],"all physical Green's functions, temperatures, grid sizes")
q("C25","Laplace transforms from real time to complex frequency agree with the exact one",
 "All Laplace back-ends converge to the exact Green's function for fine grids, for retarded and advanced arguments.",["gftool/fourier.py"],[("trapezoid, Simpson, linear, Pade, Hermite-Pade and linear-prediction back-ends","gftool/fourier.py")],"all time grids and frequencies in the right half-plane")
q("C26","Densities from Matsubara sums equal the exact occupation",
 "The number density obtained by the Matsubara sum with known moments equals the exact occupation within the stated error estimate.",["gftool/density.py","gftool/__init__.py"],[("tail by moments","gftool/density.py density_iw")],"all Green's functions and temperatures")
q("C27","Pole representations reproduce data and constraints",
 "Pole functions constructed from moments, frequencies or imaginary time reproduce exactly the prescribed moments and, in the least-squares sense, the data.",["gftool/basis/pole.py","gftool/linalg.py"],[("equality constrained least squares","gftool/linalg.py lstsq_ec")],"all moments, data and numbers of poles")
q("C28","Pade continuations interpolate rational functions exactly",
 "Continuing data of a rational function of sufficiently low degree reproduces that function everywhere; poles, zeros and residues are recovered.",["gftool/pade.py","gftool/polepade.py","gftool/hermpade.py"],[("Thiele recurrence, null vectors","gftool/pade.py, gftool/polepade.py, gftool/hermpade.py")],"all rational functions and sampling meshes")
q("C29","Linear prediction continues sums of exponentials exactly",
 "Predicting a sum of decaying exponentials from sufficiently many points continues it exactly; the stable variant never grows.",["gftool/linearprediction.py"],[("covariance and Burg method","gftool/linearprediction.py")],"all signals and orders")
q("C30","Matrix decompositions reconstruct their matrix",
 "Each decomposition reconstructs its matrix, and reconstruction with inverted eigenvalues gives the inverse.",["gftool/matrix.py"],[("eigendecomposition","gftool/matrix.py")],"all diagonalisable, symmetric and Hermitian matrices")
q("C31","Impurity Green's functions agree with exact diagonalisation",
 "Local frequency and time Green's functions of the impurity model agree with the resolvent and the time evolution of the one-particle Hamiltonian.",["gftool/siam.py"],[("hybridisation function, eigendecomposition","gftool/siam.py")],"all bath parameters")
q("C32","Disorder theories reduce to their exact limits",
 "CPA and BEB are exact for a single component and for vanishing disorder, BEB with uniform hopping equals CPA, and the component average equals the coherent Green's function.",["gftool/cpa.py","gftool/beb.py"],[("root equations","gftool/cpa.py, gftool/beb.py")],"all concentrations, on-site energies and lattices")
q("C33","Functions broadcast like generalised ufuncs",
 "Evaluating on stacked inputs equals stacking the evaluations, for all documented broadcasting axes.",ALL,[("gu-function style axis handling","every module")],"all broadcastable shapes")
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
import jsonschema
