#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so that the text stays readable).
import json,os
P=[]
def add(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
Q="qcd-sme/src/"
TH=Q+"low_level/oneloop/thermal/"
add("C01","Global settings behave as an independent, validated register file",
"Every settings getter returns the value most recently accepted by its setter, or the documented initial value if there was none, no setter changes any other setting, and everything computed from the settings (including the flavour-to-colour ratio used by the vacuum functions) follows the current values whatever the order in which they were set. A non-positive or NaN integration tolerance or Matsubara regulator is never accepted.",
["histories","configurations"],"all sequences of setter and getter calls (native and C interface) over a finite alphabet of values for all six settings, up to a depth, from the initial state",
"The tests set at most one or two settings per run in one order and check results only at a few points; they do not enumerate orders, interference between settings, or rejected values.",
[Q+"consts.rs",Q+"qcd/gluon.rs"],[("setters recomputing the cached ratio",Q+"consts.rs"),("validation of tolerance and regulator",Q+"consts.rs")],
state=[("settings","number of colors, number of fermions, default quark mass, integral tolerance, integral iterations, Matsubara regulator; cached flavour/colour ratio",Q+"consts.rs")],observe=["get_* functions","vacuum quark functions"])
add("C02","Evaluations are pure: results do not depend on call history",
"The result of any evaluation is determined by its arguments and the current global settings alone: it is identical whatever evaluations or settings changes came before, and however often it is repeated. No evaluation changes a global setting.",
["histories"],"all sequences, up to a depth, of evaluations drawn from an alphabet covering every function family with several argument sets each, interleaved with settings changes",
"Each unit test calls a function a few times in a fixed order in its own process; a hidden cache, a leaked temporary setting or an incorrectly keyed memo only shows after particular call sequences.",
[Q+"consts.rs",Q+"qcd",Q+"ym",TH+"gluon.rs",TH+"ghost.rs",Q+"utils.rs"],[("evaluations are pure functions of arguments and read-only settings",Q+"low_level/oneloop"),("settings only written by setters",Q+"consts.rs")],
observe=["bit patterns of returned values","get_* functions"])
add("C03","Concurrent evaluations never influence each other",
"As long as the global settings are not being changed, evaluating any functions from several threads at once returns in every thread exactly the value a lone call returns, under every thread interleaving, and never deadlocks or panics.",
["schedules"],"all interleavings (up to a preemption bound) of two or three threads evaluating functions of every family with equal and different arguments",
"The tests run single calls per thread and the test harness samples a handful of schedules; a racy shared buffer, cache or save-and-restore of a global needs a preemption between two particular memory accesses.",
[Q+"consts.rs",Q+"qcd/thermal.rs",Q+"ym/thermal.rs",TH+"gluon.rs",TH+"ghost.rs","tc_long_prop/src/bin/physical_tc.rs"],[("evaluations keep all working data on the stack and only read the global settings",Q+"low_level/oneloop"),("callers evaluate in parallel with rayon","tc_long_prop/src")],
observe=["returned values per thread","memory accesses reported by compiler instrumentation"])
add("C04","Field-configuration functions are independent of the global fields",
"Functions that take an explicit field configuration depend on the colours, flavours and masses of that configuration only: the global number of colours, number of fermions and default quark mass never affect their value. This also holds while other threads are changing those three settings or are evaluating other configurations.",
["configurations","schedules"],"all combinations of global colour, flavour and mass settings with all field configurations of a finite set, for every function taking a configuration, plus all interleavings (up to a preemption bound) of such evaluations with threads changing these settings",
"The tests set the globals to match the configuration before comparing, so that a leak of a global into a configuration-based function is invisible, and nothing is run concurrently with a setter.",
[Q+"qcd/types.rs",Q+"qcd/gluon.rs",Q+"qcd/thermal.rs",TH+"gluon.rs"],[("configuration passed explicitly down to the quark loops",Q+"qcd/thermal.rs"),("number of colors threaded through the quark polarization",TH+"gluon.rs")],
observe=["*_w_field_config functions"])
add("C05","A field configuration always acts according to its visible fields",
"Evaluating with a field configuration gives the value determined by its current colours, gluon mass and quark list, no matter how the configuration reached that state: constructed directly, cloned, or modified field by field. Cloning yields an independent copy, and evaluations never modify the configuration.",
["histories"],"all sequences up to a depth of construct, clone, modify-field, add/remove/reorder-quark and evaluate operations over a finite alphabet",
"The tests only evaluate freshly constructed configurations.",
[Q+"qcd/types.rs",Q+"qcd/gluon.rs",Q+"qcd/thermal.rs"],[("per-quark ratios derived from the public fields at use",Q+"qcd/types.rs")],
state=[("configuration","number of colors, gluon mass, list of (multiplicity, mass)",Q+"qcd/types.rs")],observe=["*_w_field_config functions"])
add("C06","Default integration settings and regulator are honoured",
"Every thermal function without an explicit integration method returns what the same function returns when given the method made of the currently set tolerance and iteration limit; the only exception is the documented one, that zero-Matsubara gluon polarizations replace the tolerance by 1e-8 exactly when both settings have their initial values. The zero-Matsubara polarizations and ghost self-energy use the currently set regulator, and the high-level functions built on these inherit the same settings.",
["configurations","histories"],"all combinations of tolerance, iteration limit and regulator from a finite set, for every default thermal function, over a lattice of arguments, reached from the initial settings and back",
"The tests only use the initial settings.",
[TH+"gluon.rs",TH+"ghost.rs",Q+"consts.rs",Q+"qcd/thermal.rs",Q+"ym/thermal.rs"],[("default method looked up at call time",TH+"gluon.rs"),("relaxed tolerance for uncustomised settings",TH+"gluon.rs")],
observe=["default functions versus their explicit-method versions"])
add("C07","The C interface returns exactly what the Rust interface returns",
"Every exported C symbol exists, and returns for all arguments, real or complex, the value of the Rust function of the same name, with arguments in the same order, reading and writing the same global settings. The generated C, C++ and Cython headers declare every exported function with its signature, and the Python module built from them returns the same values.",
["inputs"],"every exported symbol, called by symbol name, over a lattice of distinct argument values (so that argument permutations are visible), under several global settings",
"The tests check a handful of points per exported function, often with coinciding arguments or with the settings at their initial values, and never link against the header.",
[Q+"ffi.rs",Q+"ym",Q+"qcd",Q+"common",Q+"low_level","qcd-sme/build.rs","python/pyqcd_sme_so.pyx"],[("extern wrappers around the shared inline implementations",Q+"ffi.rs"),("header generation","qcd-sme/build.rs")],
observe=["unmangled symbols","generated header"])
add("C08","Real and complex evaluation agree and respect reflection symmetry",
"For every function that accepts real or complex arguments, evaluating a real argument as real and as complex gives the same value (where the real value exists), and conjugating all complex arguments conjugates the result away from branch cuts (for the single thermal logarithms together with reflecting the frequency). All other thermal functions are even in the frequency.",
["inputs"],"every generic function over a lattice of real and complex arguments, including small, large, equal and zero-imaginary-part values",
"The tests compare a few real and complex points with tabulated numbers; no relation between real and complex, conjugate or frequency-reflected arguments is checked.",
[Q+"types.rs",Q+"low_level/oneloop",Q+"ym",Q+"qcd"],[("single generic implementation over a number trait",Q+"types.rs")])
add("C09","Special-mass loop functions are cases of the general ones",
"Each one-loop thermal function provided for equal, one-vanishing or all-vanishing masses, and each vacuum Landau-gauge or fixed-gauge special function, equals the general function evaluated at those masses or that gauge parameter. Two-mass loop integrands that are not mass derivatives are symmetric under exchange of the masses.",
["inputs"],"all functions with special-case versions (general, zero-frequency and zero-momentum families; scalar, longitudinal and transverse; plain and mass-derivative) over a lattice of momenta, frequencies, masses and temperatures",
"The tests tabulate a few points per special-case function.",
[TH+"mod.rs",TH+"zero_matsubara.rs",TH+"zero_momentum.rs",Q+"low_level/oneloop/gluon.rs",Q+"low_level/oneloop/ghost.rs"],[("hand-specialised formulas",TH+"mod.rs")])
add("C10","Mass-derivative loop functions are the derivatives of the plain ones",
"Integrated over the loop momentum, every thermal loop function documented as a first or second mass derivative equals the corresponding derivative, with respect to the squared (first) mass, of the integrated plain function.",
["inputs"],"every derivative function over a lattice of frequencies, momenta, masses and temperatures",
"The tests only tabulate values of the derivative integrands; no relation with the function being differentiated is checked.",
[TH+"mod.rs",TH+"zero_matsubara.rs",TH+"zero_momentum.rs"],[("derivatives integrated by parts by hand",TH+"mod.rs")])
add("C11","Zero-frequency and zero-momentum families are limits of the general one",
"Every function of the zero-Matsubara family is the limit of the general function for vanishing frequency, and every function of the zero-momentum family is the limit for vanishing momentum; longitudinal and transverse projections coincide at zero momentum.",
["inputs"],"every function with a zero-frequency or zero-momentum counterpart, low-level and high-level, over a lattice of arguments",
"The tests compare a few high-level functions at one or two points.",
[TH+"zero_matsubara.rs",TH+"zero_momentum.rs",TH+"gluon.rs",TH+"ghost.rs",Q+"qcd/thermal.rs",Q+"ym/thermal.rs"],[("separately coded limits",TH+"zero_momentum.rs")])
add("C12","Gauge and flavour structure is consistent across all field functions",
"In every QCD gluon function the quarks contribute additively to the inverse dressing: no quarks gives pure Yang-Mills, grouping, splitting or permuting flavours of equal mass changes nothing, a flavour counts with its multiplicity over the number of colours, and a one-flavour configuration agrees with the global-settings function at the same parameters. General-gauge functions at vanishing gauge parameter equal the Landau-gauge functions.",
["configurations","inputs"],"all field configurations up to three quark species from a finite alphabet of multiplicities and masses, all numbers of colours in a set, over a lattice of arguments, for every vacuum and thermal gluon function",
"The tests use two or three fixed configurations and settings.",
[Q+"qcd/gluon.rs",Q+"qcd/thermal.rs",Q+"qcd/types.rs",Q+"low_level/oneloop/gluon.rs"],[("per-quark sums",Q+"qcd/gluon.rs")])
add("C13","Inverse dressing, dressing and propagator are mutually consistent",
"In every family (vacuum and thermal, ghost and gluon, longitudinal and transverse, with and without field configuration, crossed, zero temperature), the dressing function is the reciprocal of the inverse dressing at the same arguments, and the propagator is the dressing divided by the squared momentum (in units of the squared gluon mass in vacuum).",
["inputs"],"every dressing/propagator function over a lattice of arguments and settings",
"The tests tabulate a few points for some of the functions.",
[Q+"ym",Q+"qcd"],[("one-line wrappers repeated in every family",Q+"qcd/thermal.rs")])
add("C14","Thermal self-energies equal the one-loop integrals defining them",
"The thermal parts of the ghost self-energy and of the gluon polarization (glue and quark; longitudinal and transverse; general, zero-frequency and zero-momentum; finite and zero temperature), their integrands and the loop functions they are made of agree with an independent evaluation of the one-loop momentum integrals, and the thermal dressing functions combine them with the vacuum part with the correct coefficients, to within the requested integration accuracy.",
["inputs"],"every thermal loop function, integrand, integral and thermal dressing function over a lattice of frequencies (real and complex), momenta, masses, temperatures and chemical potentials including degenerate and extreme combinations",
"The tests tabulate integrands at five or six nearby points and hardly evaluate integrals; regions of large or small momenta, temperature, or chemical potential are not sampled.",
[TH+"mod.rs",TH+"gluon.rs",TH+"ghost.rs",TH+"zero_matsubara.rs",TH+"zero_momentum.rs",Q+"qcd/thermal.rs",Q+"ym/thermal.rs"],[("closed angular integrals and numerical radial integral",TH+"gluon.rs")])
add("C15","Quark charge density and chemical potential are inverse, odd and monotonic",
"The quark charge density equals the integrated difference of quark and antiquark distributions times the number of colours over pi squared, is odd and non-decreasing in the chemical potential, vanishes at zero chemical potential and tends to the zero-temperature density as the temperature vanishes. The chemical potential functions return the value at which the corresponding density function gives the requested density, odd in the density and zero at zero density, all to within the accuracy of the quadrature.",
["inputs","configurations"],"a lattice of masses, temperatures, chemical potentials and densities, and all numbers of colours in a set",
"The tests do not evaluate these functions at finite temperature beyond single points.",
[Q+"qcd/thermal.rs",Q+"utils.rs",Q+"common/thermal.rs"],[("root finding on the density",Q+"qcd/thermal.rs")])
add("C16","Statistical distributions obey their identities without overflow",
"Bose and Fermi distributions equal their defining formulas for all real and complex arguments; for real arguments Fermi occupation lies between 0 and 1, particle plus hole occupation is one, the doubled distribution is the sum over both signs of the chemical potential, zero-chemical-potential and zero-temperature versions are the corresponding special cases and limits, and no finite real argument gives NaN except the Bose pole.",
["inputs"],"a lattice of energies, temperatures and chemical potentials of both signs including exact thresholds, very large and very small products",
"The tests check a few points in the middle of the range.",
[Q+"common/thermal.rs",Q+"common/mod.rs",Q+"low_level/common/mod.rs"],[("direct evaluation of exponentials",Q+"low_level/common/mod.rs")])
add("C17","Root finder, residue and spectral utilities honour their contracts",
"Whatever values the searched function returns, the root finder terminates within its iteration budget, and if it returns a point then the returned function value is the function's value at that point and is smaller than the tolerance; it returns nothing otherwise, in particular after a NaN, and refuses equal guesses and non-positive tolerances. On linear functions it finds the root; residues and spectral functions of functions with known poles and cuts come out right to the accuracy of their step.",
["programs","inputs"],"all answer sequences (function values from a finite alphabet including zero, equal values, tiny, huge, infinite and NaN) an adversarial function can give up to a depth, for real and complex arguments, and a lattice of rational functions",
"The tests search two or three smooth functions.",
[Q+"utils.rs"],[("secant iteration with convergence test before each step",Q+"utils.rs")])
add("C18","The critical temperature is the first global maximum of the data",
"For any lists of temperatures and values, the critical temperature returned is the temperature of the first occurrence of the largest value (when no value is NaN), taken over the common length of the lists, and does not depend on anything else.",
["inputs"],"all value sequences over a finite alphabet (with repeats, negative, infinite and signed zero values) up to a length, with distinct, repeated and unsorted temperatures",
"The function has no tests.",
["tc_long_prop/src/lib.rs"],[("single scan",  "tc_long_prop/src/lib.rs")])
add("C19","Phase-boundary reduction and phase classification follow the boundary",
"Reducing a phase boundary returns exactly the points before the first vanishing temperature and is idempotent. A point is classified as deconfined exactly when it lies strictly above the linearly interpolated boundary (or beyond its last chemical potential); points on the boundary are confined, classification is monotonic in temperature and unaffected by prior reduction, and chemical potentials below the first one are refused.",
["inputs"],"all phase boundaries over a grid of temperatures (with plateaus and zero tails) up to a number of points, with uniform and non-uniform chemical potentials, and all query points on and between grid lines",
"The functions have no tests.",
["tc_long_prop/src/lib.rs"],[("prefix up to the first zero","tc_long_prop/src/lib.rs"),("scan and interpolate","tc_long_prop/src/lib.rs")])
add("C20","Phase-boundary parametrisation reproduces polynomial boundaries",
"Fitting a phase boundary sampled from a polynomial of degree at most the requested one returns that polynomial's coefficients, lowest order first, for any sampling with more distinct points than coefficients, to the accuracy the conditioning of the least-squares problem allows; the number of coefficients is the degree plus one, points after the first vanishing temperature do not influence the result, and requesting a plot does not change it.",
["inputs"],"all polynomials with coefficients from a finite alphabet, degrees, numbers and spacings of sample points, with and without data beyond the first vanishing temperature",
"The function has no tests.",
["tc_long_prop/src/lib.rs"],[("least-squares fit of a Horner-evaluated polynomial","tc_long_prop/src/lib.rs")])
add("C21","The phase-diagram program computes what its configuration says",
"For every valid configuration (all fields present and well formed, grids with a positive step, temperature grids starting at zero, at least five chemical potentials for the boundary, a positive critical temperature at the first of them) the physical-temperature program terminates successfully, echoes a configuration equivalent to the one it used (without a configuration file, the documented defaults), and writes, for every requested temperature, chemical-potential and momentum grid point (minimum plus multiples of the step, as many as the rounded ratio of range and step) and quark sector (the corrected masses applying to deconfined points), exactly the propagator values the library gives for those parameters, renormalised at the renormalisation point, the critical temperatures as the maxima of those values, and the second derivatives and fit of the phase boundary derived from them. Results do not depend on the number of worker threads, on how the configuration is written, or on files left by earlier runs, and a malformed configuration or one lacking a field is refused.",
["configurations","schedules","histories"],"an enumerated set of small configurations (single deviations and pairs of deviations from a small base), worker-thread counts, and prior contents of the output directory",
"The program has no tests.",
["tc_long_prop/src/bin/physical_tc.rs","tc_long_prop/src/lib.rs","tc_long_prop/configs/default_config.yml"],[("configuration parsing with defaults","tc_long_prop/src/bin/physical_tc.rs"),("parallel evaluation collected in order","tc_long_prop/src/bin/physical_tc.rs")],
observe=["output files","process exit status"])
add("C22","Vacuum functions match their closed forms and are analytic off the cut",
"The vacuum one-loop ghost, gluon and quark functions and the dressing functions built from them equal the known closed-form expressions for all momenta, real or complex, and gauge parameters; versions taking precomputed logarithms agree with those computing them. As functions of the squared momentum they are analytic away from the negative real axis: their contour integral around any region not touching it vanishes.",
["inputs"],"a lattice of real and complex squared momenta from deep infrared to deep ultraviolet, gauge parameters and mass ratios, and all cells of a grid in the cut plane",
"The tests tabulate four real and five complex points per function.",
[Q+"low_level/oneloop/gluon.rs",Q+"low_level/oneloop/ghost.rs",Q+"ym/gluon.rs",Q+"ym/ghost.rs",Q+"qcd/gluon.rs",Q+"qcd/ghost.rs"],[("closed-form expressions with shared logarithms",Q+"low_level/oneloop/gluon.rs")])
add("C23","Thermal parts vanish or freeze correctly as temperature goes to zero",
"As the temperature goes to zero the thermal parts of ghost and gluon self-energies vanish and the thermal quark parts tend to the zero-temperature functions, which are exactly zero for chemical potentials below the quark mass; thermal dressing functions tend to the vacuum or zero-temperature dense ones accordingly. Everything is even in the chemical potential and in each mass.",
["inputs"],"a lattice of low temperatures, masses, chemical potentials of both signs around and at the mass threshold, momenta and frequencies, for every thermal function",
"The tests check two limits at one point each.",
[TH+"gluon.rs",TH+"ghost.rs",Q+"qcd/thermal.rs",Q+"ym/thermal.rs"],[("separate zero-temperature integrals up to the Fermi momentum",TH+"gluon.rs")])
add("C24","The overall programs plot and tabulate what they announce",
"Both overall programs (one and two quark masses) terminate successfully and, for every listed quark number, choice of masses and chemical potential, plot at zero and at every listed temperature the longitudinal gluon propagator which the library gives for these fields at every grid momentum, renormalised at the renormalisation point, in the figure and under the labels that name these parameters. The table lists, for every sector and chemical potential in turn, the temperature at which the low-momentum propagator has its maximum, and the figures of the critical temperature show the same values. None of this depends on the number of worker threads, on the number of fermions and the quark mass set globally before, or on files left by earlier runs.",
["schedules","histories"],"every sector, chemical potential, temperature and momentum of both programs (all of their output), worker-thread counts, global settings (integration tolerance and limit, colours, fermions, quark mass) before the start, and prior contents of the output directory",
"The programs have no tests.",
["tc_long_prop/src/bin/one_mass_overall.rs","tc_long_prop/src/bin/two_masses_overall.rs","tc_long_prop/src/lib.rs"],[("curves evaluated in parallel and collected in order","tc_long_prop/src/bin/one_mass_overall.rs"),("the critical temperature as the maximum of the infrared data","tc_long_prop/src/lib.rs")],
observe=["tc.out","plotted data of every figure","process exit status"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
    print(len(P))
import re
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
    n=len(re.findall(r"[.](?= [A-Z]|$)",d["statement"]))
    if n>3: print(d["id"],"sentences",n)
