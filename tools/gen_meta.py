#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, C, S, A = ["cuprates_transport/" + f + ".py" for f in ("bandstructure", "conductivity", "scattering", "admr")]
P1, PM, S1, SM = ["cuprates_transport/fitting_admr_" + f + ".py" for f in ("parallel_oneT", "parallel_multiT", "series_oneT", "series_multi_T")]
ENUM = "bounded exhaustive enumeration of real executions, judged by an independent reference"
STATE = "explicit-state model checking of the real objects (breadth first over all operation orders, states merged on identity) against a reference model"
FIN = "The named finite space is enumerated completely; nothing is sampled. Values outside it are covered only as far as the alphabet of models, grids and settings represents them. Trusts numpy, scipy and the reference in mc/ref.py."
MCN = "All operation orders within the bounds are executed on the real object; in every state its observables are compared with the model state (a new object, and the reference). Evidence says whether the fixpoint or the bound was reached."

P = []


def p(id, title, statement, over, text, why, files, mech, tech, level, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]},
                  _tech=tech, _level=level, _note=note))


p("C01", "The band velocity is the exact gradient of the band energy",
  "For any dispersion written as a formula of kx, ky, kz, the lattice constants and named parameters, the energy equals the formula with every parameter multiplied by the energy scale, whatever the order in which parameters were given or later edited, and the velocity equals its exact gradient divided by hbar, in m/s. Both hold at every wave vector and for every shape of input arrays, also when a component is zero or constant.",
  ["inputs", "histories", "programs"], "every dispersion of an alphabet, parameter order, edit sequence up to two edits, wave vector of a grid in and beyond the zone, array shape, compiled and interpreted build",
  "Tests evaluate one model with one parameter order and compare final conductivities.", [B],
  [("energy_velocity_definition", B), ("bandParameters", B), ("energy_func, velocity_func", B)], ENUM, "exploration", FIN)
p("C02", "Fermi surface points lie on the surface and none of it is missed",
  "Every discretized Fermi surface point has the requested energy to the accuracy of the grid interpolation and lies inside the chosen k window; every pair of neighbouring grid points on opposite sides of that energy has a surface point between them (cube algorithm), and every contour of every kz slice is sampled all around with the promised density (slice algorithm). The velocity and the density of states stored with a point are those of that point.",
  ["inputs", "configurations"], "every model, grid (even and odd), k window, energy level and discretization algorithm of a set, on fresh and edited objects",
  "Tests look at a sum over the surface of two bands.", [B], [("marching_cube", B), ("marching_square", B), ("discretize_fermi_surface", B)], ENUM, "exploration", FIN)
p("C03", "Surface weights measure area, density of states and cyclotron mass",
  "The weights of the surface points sum, over any part of the surface, to its area in inverse square Angstrom; slice by slice they are arc length times slice spacing. The density of states at the level and the cyclotron mass equal the corresponding surface and contour integrals, in the documented units, for tetragonal and orthorhombic lattices.",
  ["inputs", "configurations"], "every model, grid, level and algorithm of a set",
  "Tests compare a few conductivities with stored numbers.", [B], [("marching_cube weights", B), ("marching_square arc length", B), ("mass_func, dos_epsilon_func", B)], ENUM, "exploration",
  FIN + " Known finding: the two end slices of the slice algorithm carry a full spacing.")
p("C04", "Filling and doping count the occupied states",
  "The filling of a band is two times the fraction of k-grid states at or below the Fermi level divided by the number of zones, and the hole doping is one minus the filling, through every entry point, per slice and in total. The total doping of several bands is one minus the sum of their fillings whatever their order, and discretizing at another energy level does not change it.",
  ["inputs", "configurations", "histories"], "every model, k window, grid and chemical potential of a set; every ordered selection of up to three bands",
  "Tests check one filling.", [B], [("update_filling, doping, filling, doping_per_kz", B), ("doping of several bands", B)], ENUM, "exploration", FIN + " Default grids are capped at 60 points per axis, others are not.")
p("C05", "Solving for a doping gives the chemical potential that has it",
  "After the chemical potential of a band, or the common one of several bands, was solved for a target doping, the doping crosses the target within the requested tolerance of the returned chemical potential, every band holds that chemical potential, and no other parameter changed. A target outside the attainable range is refused with an error, and no Fermi surface of another chemical potential remains visible.",
  ["inputs", "histories", "configurations"], "every model, target of a ladder across and beyond the attainable range, tolerance and prior history of the object; every selection of bands",
  "Tests solve one target on one band.", [B], [("set_mu_to_doping (method and function)", B), ("diff_doping, dopingCondition", B)], ENUM, "exploration", FIN)
p("C06", "A band never shows a Fermi surface of other parameters",
  "After any sequence of parameter edits, energy scale changes, solving for a doping, discretizations and computations of derived quantities, everything the band shows about its Fermi surface (points, velocities, weights, densities of states, mass, filling, doping) is either absent or belongs to the present parameters and the energy level last asked for. A new discretization equals that of a new band created with the present parameters.",
  ["histories"], "every order of a set of operations, to the fixpoint or the stated depth",
  "Tests create a band, run it once and stop.", [B], [("erase_Fermi_surface", B), ("__setitem__, band_params and energy_scale setters", B), ("discretize_fermi_surface", B)], STATE, "model_checking", MCN,
  [("Fermi surface", "points, velocities, weights, derived numbers", B)])
p("C07", "Objects own their parameters",
  "Bands, conductivities and sweeps built from one dictionary, list or band neither change it nor are changed by later edits of it, and editing or running one object never changes another or the shared default values. A conductivity keeps its own copy of the band it was given.",
  ["histories", "programs"], "every program up to the depth bound over a world of shared dictionaries, two bands and two conductivities, constructor arguments and defaults",
  "Tests build each object once from fresh dictionaries.", [B, C, S, A], [("copies in the constructors and setters", B), ("deepcopy of the band", C), ("copies of scattering settings", S)], STATE, "model_checking", MCN)
p("C08", "The total scattering rate is the sum of the chosen rate models",
  "The total scattering rate at any wave vector is the sum of exactly the chosen rate models, each once per mention, with the present values of their parameters and independent of their order, and the lifetime is its inverse. The angle-dependent models follow the angle of the wave vector folded back to the first zone, the density-of-states model is proportional to the inverse velocity at the point and normalized to its maximum over the Fermi surface.",
  ["inputs", "configurations", "histories"], "every ordered selection of rate models up to three, every subset, every band, point set up to three zones away, parameter values and way of setting them",
  "Tests use two models in one order.", [S], [("tau_tot_func", S), ("rate models, phi_func", S), ("scattering_params setter", S)], ENUM, "exploration", FIN)
p("C09", "The field vector follows the field strength and the two angles",
  "At every moment the field vector is the strength times the unit vector of the present polar and azimuthal angles in degrees, whatever the order in which they were set, and it cannot be written directly.",
  ["histories", "inputs"], "every order of setting strength and angles (zero, negative, beyond a turn), attempts to write the vector and runs, to the fixpoint",
  "Tests never change the field of an object.", [C], [("B_func and the setters", C)], STATE, "model_checking", MCN)
p("C10", "Orbits follow the semiclassical equation of motion",
  "In a field every orbit starts at its Fermi surface point, obeys hbar dk/dt = -e v x B traced back in time, conserves energy and the wave vector component along the field, and carries the velocity of the points it visits. Without a field every orbit stays at its point.",
  ["inputs", "configurations"], "every model, discretization, field vector of both signs and all quadrants, lifetime and level of a set",
  "Tests look at the conductivity only.", [C], [("movement_equation, crossProductVectorized", C), ("solve_movement", C)], ENUM, "exploration", FIN)
p("C11", "Time window and survival exponent follow the scattering rate",
  "Time samples start at zero, are evenly spaced, and their number times their step is eight times the longest lifetime on the Fermi surface. The survival exponent along an orbit is zero at the start and grows by the step times the scattering rate along the orbit; the reported extreme rates are those of the Fermi surface.",
  ["inputs", "configurations"], "every model, field, rate model, lifetime, number of steps and discretization of a set",
  "Tests compare one tensor.", [C], [("reset_time, N_time setter", C), ("t_o_tau_func", C), ("tau_total_max, tau_total_min", C)], ENUM, "exploration", FIN)
p("C12", "Zero-field conductivity is the Boltzmann surface integral",
  "Without a field the conductivity tensor in Siemens per metre is the sum over the Fermi surface of v_i v_j times the lifetime, divided by hbar times the speed, with the spin factor and divided by the number of zones; it is symmetric, positive semidefinite and independent of the field angles.",
  ["inputs", "configurations"], "every model, grid, discretization, rate model, level, number of zones and field angle of a set",
  "Tests hold one stored tensor at one setting.", [C], [("sigma_epsilon, velocity_product", C), ("units_chambers", C)], ENUM, "exploration", FIN)
p("C13", "Conductivity in a field is the Chambers integral",
  "In a field the conductivity tensor equals the Chambers integral of the initial velocity times the velocity along the orbit weighted with the survival probability, with the right index order, sign and units, on the documented time samples.",
  ["inputs", "configurations"], "every model, field vector, rate model, lifetime, number of steps, discretization, level and number of zones of a set",
  "Tests hold stored tensors at two settings.", [C], [("velocity_product", C), ("sigma_epsilon, chambers_func", C)], ENUM, "exploration", FIN)
p("C14", "Conductivity obeys Onsager reciprocity, symmetry and scaling laws",
  "The tensor at the reversed field is the transpose of the tensor, crystal symmetries applied to the field act on the tensor as they should, and the tensor scales exactly under rescaling of field with scattering rates, of energies with field, of lengths with field and of the number of zones.",
  ["inputs", "configurations"], "every model, field vector, rate model, discretization and scale factor of a set",
  "No test relates two runs.", [C, B], [("crossProductVectorized", C), ("velocity_product", C), ("units_chambers", C)], ENUM, "exploration", FIN)
p("C15", "Temperature averages use the Fermi window of the level conductivities",
  "At a temperature above zero the electrical, thermoelectric and thermal tensors are the sums over the level grid of the level conductivities weighted with minus the derivative of the Fermi function, times one, energy over (-e T) and energy squared over (e squared T). The level grid is symmetric, has the requested number of levels and ends where the weight falls to the requested fraction, and afterwards the band is back at the Fermi level.",
  ["inputs", "configurations"], "every band, temperature, number of levels, cut-off, field, rate model and discretization of a set",
  "Tests hold one stored tensor at one temperature.", [C], [("runTransport at T > 0", C), ("dfdE, energyCutOff, integrand_coeff", C), ("T, N_epsilon and cut-off setters", C)], ENUM, "exploration", FIN)
p("C16", "Transport results do not depend on the history of the object",
  "After any order of changing field, temperature, time steps, level grid, rates, rate models, band parameters and re-running, the results of a run equal those of a new object created with the present settings.",
  ["histories"], "every order of changes and runs for every pair (thorough: triple) of setting groups, to the fixpoint",
  "Tests run each object once.", [C, S, B], [("setters", C), ("runTransport, reset_time", C), ("scattering_params setter", S)], STATE, "model_checking", MCN,
  [("results", "tensors, orbits, exponents, window, extreme rates", C)])
p("C17", "Free carriers reproduce the textbook results",
  "For quadratic bands the conductivity is n e^2 tau / m along every axis, the tensor in a field is the Drude tensor of the (anisotropic) mass, the Hall coefficient is 1/(n e) with the sign of the carriers, and above zero temperature the Mott and Wiedemann-Franz relations hold. The cyclotron product reported per surface point is built from e B over the mass and the lifetime.",
  ["inputs", "configurations"], "masses, lattices, energy scales, carriers, zones, lifetimes, fields and temperatures of a set, both discretizations",
  "No test has a closed form to compare with.", [C, B], [("Chambers formula end to end", C), ("omegac_tau_func", C)], ENUM, "exploration", FIN + " Known finding: the cyclotron product is divided by the lifetime twice (omega_c / tau).")
p("C18", "The angle sweep is the inverse of the summed conductivity at each angle",
  "Every entry of a sweep is the zz element of the inverse of the sum of the bands' conductivities at exactly that polar and azimuthal angle, and the normalized sweep is divided by its own value interpolated at the chosen angle, azimuth by azimuth. The polar angles start at the first angle, have equal steps and end at the first grid angle at or beyond the last one, the total filling and doping are those of the bands of the last run, and sweeping again after any change equals a new sweep.",
  ["inputs", "configurations", "histories"], "every angle grid of a table, band list, azimuth list, normalization angle, field and temperature of a set, and every order of changes and sweeps to the fixpoint",
  "Tests run one sweep of one band.", [A, C], [("runADMR", A), ("Btheta_array", A), ("update_total_doping", A)], STATE, "model_checking", MCN)
p("C19", "Exported sweeps read back as what was computed",
  "The exported table has one row per polar angle and labelled columns holding the angle, the resistivity of each azimuth, field, energy scale, band parameters and resolution, equal to the computed ones to the printed digits, in a file that is completely rewritten by each export. The default file name carries doping, temperature, field, energy scale, band parameters and band names, so that settings that differ in these to the printed digits get different files.",
  ["inputs", "configurations", "histories"], "band lists, azimuth lists, angle grids, value patterns, settings and naming of a set; all pairs of settings for the names",
  "No test reads an exported file.", [A], [("fileADMR", A), ("file_name_func", A)], ENUM, "exploration", FIN)
p("C20", "Measured curves enter the fits as they are in the files",
  "For each fit the azimuths, the polar angles and the absolute and normalized data it compares with are those of the data files: the named columns, sorted by angle whatever the row order, interpolated linearly at the simulated angles, normalized at the documented angle, scaled by the given resistivity, for exactly the temperature and azimuths asked for and up to the smallest cut angle.",
  ["inputs", "configurations"], "file layouts, row orders, comments, temperatures, azimuths, cuts, grids and prefactors of a set, for the four fitters",
  "Tests never load data (or crash before they do).", [P1, PM, S1, SM], [("load_and_interp_data, load_Btheta_data, load_Bphi_data", P1), ("FitAnglesADMR, DataADMR", PM)], ENUM, "exploration", FIN)
p("C21", "Every free parameter of a fit reaches the simulation compared with data",
  "The residual of a fit at given parameter values equals the residual of a simulation assembled by hand with exactly these values, for any choice of free band, scattering, lattice, energy-scale, field and temperature parameters, shared or per temperature and band, with the doping held or free, normalized or absolute. Each parameter is searched within its own bounds, and the dictionaries handed in by the caller stay unchanged.",
  ["configurations", "inputs"], "every single, pair (thorough: triple) of free parameters for the four fitters, declaration order, doping held or free, kind of data, temperatures and bands",
  "The one fitting test that passes looks at one parameter set.", [P1, PM, S1, SM], [("generate_admr / produce_ADMR_object", P1), ("compute_diff, compute_diff2", S1), ("update_parameters, update_params", PM)], ENUM, "exploration", FIN)
p("C22", "The objective of a fit depends on the parameters only",
  "Evaluating the same parameter values gives the same residual whatever was evaluated, saved, reloaded or failed before on that object, and however the candidates are distributed over worker processes.",
  ["histories", "schedules"], "every order of evaluating three points and a failing point, building, saving and reloading, to the fixpoint; every chunking over up to three real workers",
  "Tests evaluate the objective once.", [P1, PM, S1, SM], [("compute_diff2, compute_fitness", P1), ("params_dict setter", PM)], STATE, "model_checking", MCN + " Worker schedules follow from closure: all reachable states evaluate alike; real pools are run as conformance.",
  [("member", "current parameters of the fit object", P1)])
p("C23", "A fit returns, saves and reloads its best candidate",
  "Whatever the order in which candidates were evaluated and by which worker, the parameters a fit returns and writes to its file are those of the candidate the optimizer declared best, and a new fit that reloads the file simulates that candidate. The optimizer gets the bounds, settings, method and objective asked for, and files go to the chosen folder and name.",
  ["schedules", "configurations", "histories"], "every choice of the best candidate among those evaluated, evaluation order and chunking, for each fitter, free parameter set and method",
  "No test runs a fit to its end.", [P1, PM, S1, SM], [("fit_admr_parallel", P1), ("runFit", S1), ("save_member_to_json, load_member_from_json", SM)], "bounded exhaustive enumeration of optimizer answers and worker chunkings under a controlled optimizer and pool", "exploration", FIN)
p("C24", "Drawing a figure shows what was computed and changes nothing",
  "Drawing any figure of a band, conductivity, sweep or fit, in any order, leaves every result and setting and all later runs as they would have been without it. The curves, points, arrows, colours and tables drawn are the computed ones, and saved figures go to the named file only.",
  ["histories", "configurations"], "every figure and every ordered pair (quick: neighbouring pairs) of figures on objects of a set of settings",
  "Tests never draw.", [B, C, A, P1, S1, SM, PM], [("fig* methods", C), ("figADMR", A), ("fig_compare", P1)], ENUM, "exploration", FIN)
p("C25", "What is printed about a computation is what was computed",
  "Fillings, dopings and chemical potentials printed for a band or a list of bands, the parameter values and call number printed by each evaluation of a series fit, and the iterations and new best candidates announced during a parallel fit are those of the computation. Members of a parallel fit are numbered 1, 2, 3... once each, with their generation, in every interleaving of the workers.",
  ["schedules", "histories"], "every interleaving of two workers on the shared counter (three with up to two preemptions), every sequence of candidates and of evaluations to a depth, band lists x grids",
  "Tests do not read the output and run no two workers.", [B, P1, PM, S1, SM], [("filling, doping, set_mu_to_doping", B), ("compute_diff2 (shared_num_member)", P1), ("callback", PM), ("compute_diff", S1)],
  "stateless model checking: the real workers' evaluation run under a controlled scheduler, every interleaving at the shared counter and its lock; enumeration of candidate and evaluation sequences", "model_checking", MCN)
import sys
sys.path.insert(0, os.path.join(HERE, "tools"))
try:
    from more_props import more
    more(p, dict(B=B, C=C, S=S, A=A, P1=P1, PM=PM, S1=S1, SM=SM, ENUM=ENUM, STATE=STATE, FIN=FIN, MCN=MCN))
except ImportError:
    pass

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps({k: v for k, v in x.items() if k[0] != "_"}) + "\n")
man = {"version": 1,
       "setup_cmd": "NUMBA_DISABLE_JIT=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import mc.target'",
       "checks": [{"property": x["id"], "quick_cmd": "./check " + x["id"], "thorough_cmd": "./check %s --tier thorough" % x["id"],
                   "technique": x["_tech"], "level": x["_level"], "level_note": x["_note"]} for x in P],
       "not_applicable": [],
       "notes": "All checks run the code of /repo's working tree directly (no hooks, no build products); see DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
