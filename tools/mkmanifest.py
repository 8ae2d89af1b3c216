#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMS: property -> (technique, note)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LAT = ("Exhaustive over the stated lattice of arguments (all regimes, scales, signs, real/complex variants, "
       "boundary values), on the real code; nothing is claimed between lattice points. ")
REF = "Trusts the independently written reference model (refm.rs) and its forward error bounds. "
CLAIMS = {
"C01": ("explicit-state exploration: all sequences of setter calls up to a depth, and their values, replayed on the real register file against a model of six registers",
        "Exhaustive over all operation sequences up to the depth and value alphabet; refusals of invalid values (abort or panic) explored in forked processes."),
"C02": ("explicit-state exploration: all ordered pairs and triples of (settings change, evaluation) histories, and passes over the lattices of arguments in both directions under several settings, against evaluations in fresh processes, bit for bit",
        "Every public function is the last call of histories made of every other class of function and settings change; baselines come from a process that did nothing else."),
"C03": ("stateless exploration of the real code under a controlled scheduler (thread-sanitizer instrumentation, own run time): the shared-memory footprint of every function, and all schedules of two and three threads up to a preemption bound, results compared bit for bit with lone calls",
        "Evaluations whose footprint has no writes commute; all others are explored with the conflicting accesses as scheduling points (sequentially consistent memory)."),
"C04": ("explicit-state exploration: every *_w_field_config function in every combination of the global settings, compared with its value in the initial state; and all schedules up to a preemption bound of such evaluations with a thread that changes these settings, under a controlled scheduler",
        "Exhaustive over a product of global settings and configurations, and over schedules within the stated bounds."),
"C05": ("explicit-state exploration: all sequences of construction, clone, assignment, field mutation and evaluation up to a depth on the real type, against a specification that keeps the visible fields only and evaluates freshly built configurations",
        "Exhaustive over operation sequences up to the stated depth."),
"C06": ("explicit-state exploration: all settings of tolerance, iteration limit and regulator; default functions against explicit-method ones, bit for bit",
        "Compares library functions with each other in every reachable settings state of the grid; high-level functions are reassembled from the low-level ones with the set method."),
"C07": ("exhaustive enumeration: every exported symbol, called by name from the same process and, through the generated headers and the shared library, from C, C++ and Cython, on a lattice of distinct arguments in every one of a set of global settings, against the Rust functions",
        "Exhaustive over the lattice; the declared signatures are decided by the C and C++ compilers. Trusts gcc, g++ and Cython."),
"C08": ("exhaustive enumeration of a lattice of argument points: every function in every real/complex instantiation, and reflected", LAT + "Instantiations are compared with one another to conditioning-based tolerances."),
"C09": ("exhaustive enumeration of a lattice of argument points: special-mass, special-gauge functions against the general ones", LAT + REF),
"C10": ("exhaustive enumeration of a lattice: each mass-derivative function integrated with our own quadrature against Richardson differences of the integrated plain function", LAT + "Trusts our quadrature and its error estimate."),
"C11": ("exhaustive enumeration of a lattice: limit families against the general functions extrapolated to the limit", LAT + REF),
"C12": ("exhaustive enumeration of field configurations (all multisets, permutations, splittings up to a size) on a lattice of arguments", LAT),
"C13": ("exhaustive enumeration of a lattice: inverse dressing, dressing and propagator of every family against each other", LAT),
"C14": ("exhaustive enumeration of a lattice: integrands against the reference model, integrals against our own quadrature of the reference integrands, dressings against their assembly", LAT + REF),
"C15": ("exhaustive enumeration of a lattice: densities against our own quadrature; inversion, oddness, monotonicity on ordered grids", LAT + "Trusts our quadrature."),
"C16": ("exhaustive enumeration of a lattice of arguments including overflow and underflow boundaries against a reference with forward error bounds", LAT + REF),
"C17": ("explicit-state exploration of adversarial answer trees: the searched function answers every combination of values up to a depth, the contract is monitored on each execution", "Exhaustive over answer alphabets up to the stated depth; residues and spectral functions on enumerated families of functions with known poles and cuts."),
"C18": ("exhaustive enumeration: all lists of values over an alphabet up to a length, with all kinds of temperature lists, and long lists with all positions of equal maxima, against the definition of the first maximum",
        "Exhaustive over the stated alphabets and lengths."),
"C19": ("exhaustive enumeration of phase boundaries (all sequences of temperatures over an alphabet up to a length) and of the points on, beside and between their nodes, against an exact rational model", "Exhaustive over boundaries up to a length and alphabet of temperatures."),
"C20": ("exhaustive enumeration of polynomials over an alphabet of coefficients, samplings, scales and degrees of fit: recovered coefficients against the generating ones",
        "Exhaustive over the stated lattice; the accuracy demanded follows from the conditioning of the least-squares problem."),
"C21": ("explicit-state exploration of configurations (base, all single deviations and pairs), worker counts, and histories of runs in one directory, and stateless exploration of all orders and preemption-bounded schedules of the parallel parts under a stand-in thread pool: every output of the real program against an assembly from library functions",
        "Exhaustive over the stated set of small configurations; rayon itself is replaced when schedules are explored (sequentially consistent memory)."),
"C22": ("exhaustive enumeration of a lattice: closed forms from the reference model; contour integrals around all cells of a partition of the cut plane", LAT + REF),
"C24": ("explicit-state exploration of worker counts, global settings before the start and histories of runs in one directory: all of the output (every row, every point of every curve) of both real programs, whose integrals are given cheap settings by an initialiser, against an assembly from library functions",
        "Exhaustive over the output of the programs; schedules vary by worker counts only."),
"C23": ("exhaustive enumeration of a lattice: sequences of temperatures to zero; parity in chemical potential and masses", LAT),
}
NA = {}
import sys
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
PENDING = "The machinery for this property is being built; it is not claimed yet."
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                 "technique": CLAIMS[p][0], "level": "model_checking", "level_note": CLAIMS[p][1]} for p in ids if p in CLAIMS],
     "not_applicable": [{"property": p, "reason": NA.get(p, PENDING)} for p in ids if p not in CLAIMS]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
