"""The properties (single source; gen.py writes properties.jsonl and MANIFEST.json)."""
I, CF, HI = "inputs", "configurations", "histories"
PROPS = []


def P(id, title, statement, over, q, why, files, mech, note=""):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, note=note))


P("C01", "A mapping's reported derivative is the derivative of its transform",
  "For every mapping, model and direction, the derivative the mapping reports (as a matrix, and applied to a vector) equals the "
  "true derivative of its transform at that model, and composing, summing or concatenating mappings keeps this true. Asking again "
  "with another model, or after the caller reuses its array, gives the answer for the current values, and no call modifies the "
  "arrays it is given.",
  [I, CF, HI], "all models and directions in the domain of the mapping, every mapping class in its configurations, call sequences on one mapping object",
  "The tests take one random model per class and accept a first-order Taylor decay, which misses wrong columns, wrong branches, stale caches and whole configurations.",
  ["simpeg/maps/_base.py", "simpeg/maps/_parametric.py", "simpeg/maps/_surjection.py", "simpeg/maps/_injection.py",
   "simpeg/maps/_mesh_interpolation.py", "simpeg/maps/_property_maps.py", "simpeg/maps/_clustering.py"],
  [("deriv of each map class and of the combinators", "simpeg/maps/*.py")],
  "Bounds: 77 map configurations, up to ~27 cells, models in the boxes of harness/c01_maps.py.")

P("C16", "Frequency-domain EM: fields solve Maxwell's equations, sensitivities are exact",
  "For every admissible conductivity/resistivity and permeability model, the computed frequency-domain fields satisfy the discrete "
  "Faraday and Ampere laws and constitutive relations with the given sources, and the predicted data are the receivers' projections of "
  "them. The sensitivity product equals the true derivative of the predicted data along any direction, its transpose product is the exact "
  "adjoint, and the explicit sensitivity matrix and the Hessian-diagonal agree with them.",
  [I, CF], "all models, directions and data weights, four formulations, source and receiver types, several sources and frequencies",
  "Tests draw one random model per configuration and compare derivatives by Taylor tests with loose tolerances; the inverse tests of this part are not even in the stable suite.",
  ["simpeg/electromagnetics/frequency_domain/simulation.py", "simpeg/electromagnetics/frequency_domain/fields.py",
   "simpeg/electromagnetics/frequency_domain/sources.py", "simpeg/electromagnetics/frequency_domain/receivers.py"],
  [("system matrices, right-hand sides and their derivatives", "simpeg/electromagnetics/frequency_domain/simulation.py"),
   ("field conversions and derivatives", "simpeg/electromagnetics/frequency_domain/fields.py")],
  "Bounds: tensor meshes up to 2x2x2 and cylindrical up to 2x2/2x3 cells, at most 2 frequencies and 2 sources per case; linear solves are exact inverses.")

P("C17", "Time-domain EM: each time step solves the equations, sensitivities are exact",
  "For every admissible model, the fields computed at each time satisfy the backward-Euler discretisation of Faraday's and Ampere's laws "
  "with the source waveform at that time, starting from the source's initial fields, and the data are the receivers' projections. "
  "The sensitivity product equals the true derivative of the predicted data along any direction and its transpose product is the exact adjoint, "
  "including the model dependence of the initial fields.",
  [I, CF], "all models, directions and data weights, four formulations, source and waveform types, non-uniform time steps",
  "Tests draw one random model per configuration with loose tolerances, on uniform set-ups; the time-domain suite is not part of the stable tests.",
  ["simpeg/electromagnetics/time_domain/simulation.py", "simpeg/electromagnetics/time_domain/fields.py",
   "simpeg/electromagnetics/time_domain/sources.py", "simpeg/electromagnetics/time_domain/receivers.py"],
  [("time stepping and its adjoint", "simpeg/electromagnetics/time_domain/simulation.py"),
   ("initial fields and waveforms", "simpeg/electromagnetics/time_domain/sources.py")],
  "Bounds: tensor meshes up to 2x2x2 and cylindrical up to 2x3 cells, 3 time steps with at least two step lengths.")

P("C15", "DC resistivity: current is conserved, data and sensitivities are exact",
  "For every admissible conductivity/resistivity model, the DC potentials balance the injected current at every node or cell under the "
  "stated boundary condition, and the data are the electrodes' potential differences (or apparent resistivities). The sensitivity product "
  "equals the true derivative of the data, its transpose product is the exact adjoint, the stored sensitivity and the Hessian diagonal "
  "agree with them, nothing computed for an earlier model leaks into a later one, and solving the reduced set of electrode pairs gives "
  "the same results.",
  [I, CF, HI], "all models, directions and data weights, 3D/2.5D cell-centred and nodal, 1D layers, boundary conditions, electrode arrays, two successive models",
  "Tests use one random model per configuration with Taylor tests, pole/dipole arrays of unit current, and never reuse a simulation with another model.",
  ["simpeg/electromagnetics/static/resistivity/simulation.py", "simpeg/electromagnetics/static/resistivity/simulation_2d.py",
   "simpeg/electromagnetics/static/resistivity/simulation_1d.py", "simpeg/electromagnetics/static/resistivity/fields.py",
   "simpeg/electromagnetics/static/resistivity/fields_2d.py", "simpeg/electromagnetics/static/resistivity/sources.py",
   "simpeg/electromagnetics/static/resistivity/receivers.py", "simpeg/electromagnetics/static/resistivity/utils.py"],
  [("system matrices, boundary conditions, sensitivities", "simpeg/electromagnetics/static/resistivity/simulation*.py"),
   ("electrode terms and projections", "simpeg/electromagnetics/static/resistivity/sources.py, receivers.py")],
  "Bounds: meshes of at most 2x2x2 / 3x2 cells and a two-level tree mesh, at most 2 sources; the quadrature over wavenumbers is taken as given.")

P("C03", "Combining objective functions keeps value, gradient and Hessian consistent",
  "For every model, an L2 objective function returns the squared norm of its weighted mapped model, its gradient is the true derivative of its "
  "value and its Hessian (matrix or product) is the Gauss-Newton one. Adding, scaling, dividing and nesting objective functions gives exactly the weighted "
  "sum of the parts' values, gradients and Hessians, terms scaled by zero contribute nothing, and building a combination leaves its parts unchanged.",
  [I, CF], "all models, directions and multipliers, mappings, weight matrices and ways of combining",
  "Tests compare a few fixed multipliers and random models with Taylor tests.",
  ["simpeg/objective_function.py"],
  [("algebra and derivatives of objective functions", "simpeg/objective_function.py")],
  "Bounds: 3 parameters, up to three terms and two nesting levels.")

P("C04", "The inversion objective is misfit plus beta times regularization, exactly",
  "For every model, data, uncertainties, weights and trade-off, the data misfit is the squared norm of the weighted difference of predicted and observed "
  "data; its gradient is the true derivative and its Hessian product the Gauss-Newton one, with or without precomputed fields. The inverse "
  "problem returns misfit plus beta times regularization with the matching gradient, Hessian and predicted data for the model it is given, whatever the order and kind "
  "of the misfit terms and whichever models were evaluated before.",
  [I, CF, HI], "all models, directions, data, uncertainties, weights and beta; misfit combinations; successive evaluations",
  "Tests use diagonal weights, one misfit and single evaluations with loose tolerances.",
  ["simpeg/data_misfit.py", "simpeg/inverse_problem.py", "simpeg/simulation.py"],
  [("misfit value, gradient, Hessian", "simpeg/data_misfit.py"), ("evalFunction, getFields, warm start", "simpeg/inverse_problem.py"),
   ("linear simulations", "simpeg/simulation.py")],
  "Bounds: 4 data, 3 parameters, up to three misfit terms, two successive models.")

P("C05", "Data, uncertainties and survey indexing stay aligned",
  "For every survey, each source-receiver pair owns one contiguous block of the data vector, in order, covering it exactly, for reading and writing. "
  "The standard deviation is sqrt((relative_error*|d|)^2 + noise_floor^2), follows later changes of data or uncertainties, and negative "
  "uncertainties are rejected. Data counts and receiver projections follow the sources, locations, times and grids in use, "
  "and noise-free synthetic data equal the predicted data.",
  [I, CF, HI], "all data and uncertainty values, survey layouts including empty receivers, sequences of changes",
  "Tests check one layout and a handful of values.",
  ["simpeg/data.py", "simpeg/survey.py", "simpeg/simulation.py"],
  [("standard deviation and indexing", "simpeg/data.py"), ("counts, slices, projections", "simpeg/survey.py")],
  "Bounds: up to 3 sources with up to 3 receivers, 9 data.")

P("C06", "Smallness and smoothness terms: declared value, exact gradient and Hessian",
  "For every model, reference model, mapping, weights, active cells and mesh, smallness, first and second order smoothness, the directional gradient term and their least-squares combinations "
  "return the declared volume-weighted sum of squares: non-negative, zero at the reference model or at constant (second order: linear) models, and without contributions of inactive cells. "
  "Gradient and Hessian (matrix or product) are the derivatives of that value. Weights multiply together and can be removed, alphas and length scales are tied by the cell size, "
  "and settings changed on a combination reach all of its terms, also after an earlier evaluation.",
  [I, CF, HI], "all models, reference models, weights and directions; each term, meshes of each type, mappings, active cells; sequences of setting and evaluating",
  "Tests run Taylor tests for one random model per class, mostly with identity maps and all cells active, and rarely evaluate, change and evaluate again.",
  ["simpeg/regularization/base.py", "simpeg/regularization/rotated.py", "simpeg/regularization/regularization_mesh.py"],
  [("value, deriv and deriv2 of each term", "simpeg/regularization/base.py"), ("gradient and averaging operators on active cells", "simpeg/regularization/regularization_mesh.py")],
  "Bounds: meshes of at most 3x2 / 2x2x3 cells and a two-level tree mesh.")

P("C07", "Sparse regularization: reweighting follows the stated norm, gradients are exact",
  "For every model, norm (one per term or per cell), threshold and scaling flag, the iteratively reweighted weights are those of the stated approximate norm at the model of the last update: "
  "positive, finite at the reference model, one when the norm is two, and evaluated with the chosen gradient type (components or total). The value is the volume-weighted sum of squares with "
  "these weights, gradient and Hessian are its derivatives with the weights held fixed, a later update replaces the earlier weights, invalid norms are rejected without side effects, "
  "and norms, thresholds and scaling set on the combination reach every term.",
  [I, CF, HI], "all models and directions; norms 0 to 2, thresholds, gradient types, active cells; sequences of updates",
  "Tests compare a single model and norm.",
  ["simpeg/regularization/sparse.py", "simpeg/regularization/base.py"],
  [("IRLS weights", "simpeg/regularization/sparse.py"), ("weights and multipliers", "simpeg/regularization/base.py")],
  "Bounds: meshes of at most 4 / 3x2 cells, two updates.")

P("C08", "Vector and coupling regularizations: declared value, exact gradient and Hessian",
  "For every model, reference, weights and active cells, the amplitude (vector) terms, the cross-reference term, the cross-gradient, joint total variation and linear correspondence couplings return "
  "their declared value: non-negative, and zero for models at the reference, parallel to the reference direction, with parallel gradients, or obeying the linear relation. "
  "Their gradients are the derivatives of that value, their Hessians (matrix or product) are symmetric and the declared ones, and set or removed weights act as factors.",
  [I, CF], "all models, reference models, weights and directions; meshes of each type, two or three coupled models, active cells",
  "Tests run Taylor tests for one random model per class with all cells active.",
  ["simpeg/regularization/vector.py", "simpeg/regularization/cross_gradient.py", "simpeg/regularization/correspondence.py", "simpeg/regularization/jtv.py",
   "simpeg/regularization/base.py"],
  [("value, deriv and deriv2 of each coupling", "simpeg/regularization/*.py")],
  "Bounds: meshes of at most 3x2 / 2x2x1 cells and a two-level tree mesh.")

P("C09", "Bounded optimizers stay within the bounds and take the projected step",
  "For every objective, start, bounds (scalar, per-parameter, one-sided, none) and search direction, every model a bounded optimizer evaluates, accepts or returns is within the "
  "bounds; the projection is the nearest feasible model; active and binding sets are exactly those defined. Binding variables do not move, free ones take the (converged) Newton "
  "step of the reduced problem whatever the preconditioner, variables on a bound with an inward gradient move inwards, and the step is a descent direction.",
  [I, CF, HI], "all models, gradients, bounds patterns; two iterations of an arbitrary objective",
  "Tests minimise one or two functions and look at the final point.",
  ["simpeg/optimization.py"],
  [("projection, active and binding sets, ProjectedGNCG and ProjectedGradient directions", "simpeg/optimization.py")],
  "Bounds: 1-3 variables, fixed SPD Hessians, up to 2 iterations and 2 line-search trials.")

P("C10", "Line searches only accept sufficient decrease; stopping rules are obeyed",
  "For every objective function, an accepted iterate satisfies the Armijo condition (and the curvature condition when asked), trial steps shrink by the given factor, at most the allowed "
  "number of trials and iterations is made, a failed line search returns the last accepted model, and the reported value belongs to the returned model. The iterations end exactly when the "
  "stopping rules hold, no step component exceeds maxStep, Newton directions solve the Newton system, BFGS obeys the secant equation, and a root finder returns a root or reports failure.",
  [I, CF, HI], "all objective values and gradients at every evaluation (an arbitrary function), starts, settings; up to three iterations",
  "Tests minimise convex quadratics where the first trial is nearly always accepted.",
  ["simpeg/optimization.py", "simpeg/utils/code_utils.py"],
  [("minimize loop, line search, stopping rules, BFGS, NewtonRoot", "simpeg/optimization.py")],
  "Bounds: 1-3 variables, up to 3 iterations and 5 trials.")

P("C13", "Results depend on current inputs only, never on what was computed before",
  "For every sequence of assignments of models, mappings and physical properties to a simulation, every property, derivative and mass matrix it returns afterwards is the one a new "
  "simulation with the last assignments returns. Forward data, sensitivity products and matrices depend on the model and fields passed in and not on the calls made before, with and "
  "without stored sensitivities, also when fields computed earlier for another model are passed in again.",
  [I, CF, HI], "all models, property values, directions; sequences of up to eight operations",
  "Tests build a new simulation for each assertion, so a stale cache or factorization is invisible to them.",
  ["simpeg/props.py", "simpeg/base/pde_simulation.py", "simpeg/electromagnetics/static/resistivity", "simpeg/electromagnetics/frequency_domain/simulation.py", "simpeg/electromagnetics/time_domain/simulation.py"],
  [("property/mapping/model assignment", "simpeg/props.py"), ("cached mass matrices", "simpeg/base/pde_simulation.py"), ("cached factors and sensitivities", "simpeg/electromagnetics/*/simulation.py")],
  "Bounds: sequences of up to 8 operations; meshes of at most 8 cells; call histories with two fixed models and all directions.")

P("C14", "Mass matrices are the property inner products; derivative forms all agree",
  "For every conductivity, resistivity, permeability or reciprocal permeability (isotropic, diagonal and full anisotropy where supported), the cell, node, face and edge mass matrices "
  "are the volume-weighted averages of that property on the mesh, the inverses are their inverses, and every form of their derivatives (matrix, product, adjoint, several right-hand sides, "
  "of the matrix and of its inverse) is the derivative with respect to the model through the mapping.",
  [I, CF], "all property values, models, vectors",
  "Tests take one random vector per matrix and a few mesh types.",
  ["simpeg/base/pde_simulation.py", "simpeg/props.py"],
  [("mass matrices and derivatives", "simpeg/base/pde_simulation.py")],
  "Bounds: tensor, tree and cylindrical meshes of at most 8 cells.")

P("C20", "Gravity and magnetic data are the exact linear response, for every engine",
  "For every model, the data of the integral gravity and magnetic simulations are the sum over active cells of the analytic prism response times the mapped property, one datum per "
  "(receiver, location, component) in survey order, for every component, scalar, vector and amplitude data, 3D and equivalent-layer meshes, engine (geoana, choclo), parallel flag and storage "
  "mode (ram, disk, forward only). Jvec, Jtvec, getJ and getJtJdiag (with any data weights, after any earlier model or weights) are those of that map. The finite volume magnetic simulation "
  "returns a divergence free flux whose field is a gradient, and its sensitivities are the derivatives of its data, also for later models and with stored sensitivities.",
  [I, CF, HI], "all models, remanence, permeability, data weights, directions",
  "Tests compare one component on one model per engine, with unit or uniform weights.",
  ["simpeg/potential_fields"],
  [("integral simulations", "simpeg/potential_fields/gravity/simulation.py"), ("magnetics", "simpeg/potential_fields/magnetics/simulation.py"), ("kernels", "simpeg/potential_fields/magnetics/_numba/_3d_mesh.py"), ("base", "simpeg/potential_fields/base.py")],
  "Bounds: 2-13 cells, 3 locations in 2 receivers, all components; kernel values evaluated numerically at fixed geometry (locations outside the cells).")

P("C19", "IP and SP data are the linear response of the resistivity problem",
  "For every background conductivity and chargeability, IP data are the derivative of the DC data of that background in the direction of the chargeability (divided by the DC voltage for "
  "apparent chargeability), spectral IP data are that response to the decayed chargeability at each time and pulse train, and self potential data are the potential of the given charge "
  "accumulation. Jvec, Jtvec, getJ and getJtJdiag are those of these data with any weights, with stored sensitivities or not, with given fields, and after the model or background changes.",
  [I, CF, HI], "all chargeabilities, decay parameters, sources, directions, weights",
  "Tests use one source and one receiver, where a wrong data order cannot be seen, never store 3D sensitivities, and never reuse a simulation.",
  ["simpeg/electromagnetics/static/induced_polarization", "simpeg/electromagnetics/static/spectral_induced_polarization", "simpeg/electromagnetics/static/self_potential"],
  [("IP", "simpeg/electromagnetics/static/induced_polarization/simulation.py"), ("spectral IP", "simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py"), ("self potential", "simpeg/electromagnetics/static/self_potential/simulation.py")],
  "Bounds: meshes of at most 8 cells, up to two sources, two receivers, two times; fixed background; spectral parameters fixed where they are nonlinear, directions and data symbolic; all receivers with the same times.")

P("C23", "Meta simulations: combined simulations behave as one exact simulation",
  "For every model, list of simulations and list of mappings, a meta simulation's data are the data of each simulation at its mapped model, in order (summed in the summing variant; one "
  "simulation used for every mapping in the repeated variant). Jvec is the derivative of these data through the mappings, Jtvec its exact adjoint with each block of data given to the simulation it belongs to, "
  "and the Hessian diagonal is that of the combined problem, for the weights passed in, whenever each parameter enters each simulation once. This holds after other models, weights or mappings "
  "were used, after one of the simulations was used on its own and with fields computed earlier; inconsistent lists are rejected.",
  [I, CF, HI], "all models, vectors and data weights; linear, non-linear and mixed lists of simulations, projections, scaled and dense mappings; sequences of calls",
  "Tests compare one random model of each variant with a single large simulation, always with unit weights and freshly made objects.",
  ["simpeg/meta/simulation.py"],
  [("data, sensitivities and Hessian diagonal", "simpeg/meta/simulation.py")],
  "Bounds: 2 or 3 simulations of 4 or 8 cells; gravity and DC. The dask and multiprocessing variants run other processes and are not encoded.")

P("C12", "Directives follow their documented schedules, estimates and stopping rules",
  "Whatever the history of an inversion: the trade-off is cooled by the given factor every given number of iterations and at no other time; a target misfit stops the inversion exactly when the data misfit "
  "(every one of them, with several) is below its target; the initial trade-off is the given ratio of the largest derivatives or of the largest-eigenvalue estimates of misfit and regularization, and the scalings of smoothness "
  "terms and joint misfits are the corresponding ratios; sensitivity weights are the root of the summed squared weighted sensitivities per volume, thresholded and normalised as chosen, updated when asked; the preconditioner is the inverse of the current "
  "Hessian diagonal; IRLS starts, cools, adjusts the trade-off and stops according to its documented rules for every history of misfits; joint inversions adjust each trade-off from its own misfit; "
  "and the saved history holds the values of each iteration. Orders of directives that would use outdated quantities are refused.",
  [I, HI, CF], "all models, misfit histories, factors, ratios, targets, trade-offs and weights; all schedule settings sampled by the test-suite's options",
  "Tests run one inversion per directive on one data set and check that it ends or that a few numbers agree.",
  ["simpeg/directives/_directives.py", "simpeg/directives/_regularization.py", "simpeg/directives/_sim_directives.py"],
  [("schedules, estimates, stopping, sensitivity weights, saving", "simpeg/directives/_directives.py"), ("IRLS control", "simpeg/directives/_regularization.py"), ("joint inversion directives", "simpeg/directives/_sim_directives.py")],
  "Bounds: 3 parameters, 4+2 data, up to 7 (schedules), 4 (IRLS) and 2 (joint) iterations, 1-2 power iterations. Eigenvalue estimates of non-linear problems use one model. PGI directives and files on disk are not encoded.")

P("C25", "Transmitter waveforms: current and rate of change agree at every time",
  "For every time and every choice of parameters, each transmitter waveform returns the documented current (on, off and ramps in their own time windows, zero before it starts and after its off time, continuous where pieces meet), its derivative is the exact time "
  "derivative of that current away from the corner times, for one time and for arrays of times, its corner times are the reported time nodes, and only waveforms that are on at the beginning have initial fields.",
  [I, CF], "all times, ramp, peak and off times, decay constants, piecewise-linear times (in any order) and currents",
  "Tests evaluate each waveform at a few times with one set of parameters.",
  ["simpeg/electromagnetics/time_domain/sources.py"],
  [("waveform classes", "simpeg/electromagnetics/time_domain/sources.py")],
  "Bounds: three or four corner times in -5..2 s; times at least 1 ms from a corner (continuity at the corners is a separate obligation); the VTEM ramp rate is one value.")

P("C26", "Line-current sources represent the wire exactly and conserve charge",
  "For every wire inside a 3D tensor mesh, the source term of a line current is the exact integral of the edge basis functions along the wire: current enters and leaves only at the wire's ends (interpolated to the surrounding nodes), a closed wire has no "
  "sources of charge, the moment of each segment is the vector between its ends (and a loop's magnetic moment its area), reversing the wire changes the sign, and the contributions of segments add up. The source carries its current on whichever mesh it is used with, also after it was moved, "
  "given another current or used on another mesh, and wires that leave the mesh are refused.",
  [I, HI, CF], "all wire positions in general, axis-aligned, in-face, on-edge and border configurations; currents; histories of use",
  "Tests compare a few fixed wires with stored numbers or analytic fields at coarse tolerance.",
  ["simpeg/electromagnetics/utils/current_utils.py", "simpeg/electromagnetics/frequency_domain/sources.py", "simpeg/electromagnetics/time_domain/sources.py"],
  [("integration along the wire", "simpeg/electromagnetics/utils/current_utils.py"), ("LineCurrent", "simpeg/electromagnetics/frequency_domain/sources.py"), ("LineCurrent", "simpeg/electromagnetics/time_domain/sources.py")],
  "Bounds: 2x2x2 cells, up to 5 vertices, up to 6 symbolic coordinates within one cell and up to 4 across cells. Tree meshes (cells found by compiled code) and wires through faces are not encoded.")

P("C18", "Natural-source EM fields, receivers and sensitivities are exact",
  "For every model, the 1D natural source fields satisfy the discrete Faraday and Ampere laws and the boundary conditions, and over a layered earth the 2D problem is solved by the 1D solution. Impedance, tipper, admittance and apparent conductivity data satisfy "
  "their documented tensor definitions for both polarizations (apparent resistivity and phase follow from the impedance). Jvec is the derivative of the predicted data, Jtvec its transpose and getJ the same operator, for conductivity, resistivity and permeability models, whether the "
  "boundary fields are given or come from the 1D solution, for scalar or cell-wise fixed properties; nothing is carried over from another model, mesh or primary conductivity.",
  [I, HI, CF], "all models, fields, vectors; configurations; histories of use",
  "Tests use random models and loose tolerances, mostly over half-spaces where off-diagonal terms vanish.",
  ["simpeg/electromagnetics/natural_source/simulation.py", "simpeg/electromagnetics/natural_source/fields.py", "simpeg/electromagnetics/natural_source/receivers.py", "simpeg/electromagnetics/natural_source/sources.py"],
  [("Simulation1DElectricField", "simpeg/electromagnetics/natural_source/simulation.py"), ("Impedance", "simpeg/electromagnetics/natural_source/receivers.py"), ("Admittance", "simpeg/electromagnetics/natural_source/receivers.py"), ("PlanewaveXYPrimary", "simpeg/electromagnetics/natural_source/sources.py")],
  "Bounds: 3-4 cells in 1D, up to 3x3 in 2D, 2x2x2 in 3D, 1-2 frequencies, 2-3 receiver locations; receivers on fields with up to four symbolic entries; 2D problems with computed boundary fields and 3D problems at a fixed model with symbolic direction and weights. Tree meshes are not encoded.")

P("C21", "Viscous magnetization and ray data are exact integrals in survey order",
  "Viscous remanent magnetization data equal decay times geometry times model, receiver by receiver, location by location, time by time, restricted to the active times of the survey; Jvec is their derivative and Jtvec its transpose. "
  "The cell kernels are those of uniformly magnetized prisms, loop receivers integrate them over their area, refining cells does not change a uniform field, and the source fields are those of a dipole, a circular loop or a line current for every moment and current. "
  "dh/dt data are the time derivative of h data, b and db/dt are mu0 times h and dh/dt, a pulse is the difference of two steps, a piecewise linear current integrates its kernel, and the log-uniform simulation uses the same rows in the same order. "
  "Straight-ray travel times are the integral of the slowness along each ray: each cell contributes the length of the ray inside it, once, in the order source, receiver, location.",
  [I, CF], "all models, vectors, times, currents and moments; configurations of sources, receivers, waveforms, refinement and active times",
  "Tests check one receiver per survey, square-like currents and single points against loose tolerances.",
  ["simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py", "simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py", "simpeg/electromagnetics/viscous_remanent_magnetization/sources.py", "simpeg/electromagnetics/viscous_remanent_magnetization/survey.py", "simpeg/seismic/straight_ray_tomography/simulation.py"],
  [("Simulation3DLinear", "simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py"), ("Simulation3DLogUniform", "simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py"), ("ArbitraryPiecewise", "simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py"), ("Simulation2DIntegral", "simpeg/seismic/straight_ray_tomography/simulation.py")],
  "Bounds: 2x2x2 cells, up to two sources of three receivers with two locations and two to three times; geometry of sources, receivers and rays at chosen positions, models, currents, moments, waveform amplitudes and times symbolic. Step-off waveforms only define dh/dt and db/dt.")

P("C22", "Richards flow conserves mass and its curves and sensitivities are exact",
  "For every parameter model and pressure head, the Haverkamp and van Genuchten curves have their documented values (saturated above zero head) and their reported derivatives with respect to head and to each parameter, alone or together, are the true ones. "
  "The residual is the mass balance of each cell: storage change minus Darcy fluxes with harmonically averaged conductivity, boundary heads and gravity; the Newton matrix is its derivative. The computed heads satisfy it at every time step, "
  "Jvec is the derivative of the pressure and saturation data, Jtvec its transpose and Jfull the same operator, with or without given fields and for one or several steps.",
  [I, CF], "all heads, parameters, boundary values, steps, directions and weights",
  "Tests use one soil, random directions and Taylor decay; saturated cells, several inverted parameters and single steps are not sampled.",
  ["simpeg/flow/richards/simulation.py", "simpeg/flow/richards/empirical.py", "simpeg/flow/richards/receivers.py", "simpeg/flow/richards/survey.py"],
  [("SimulationNDCellCentered", "simpeg/flow/richards/simulation.py"), ("Vangenuchten_k", "simpeg/flow/richards/empirical.py"), ("Saturation", "simpeg/flow/richards/receivers.py")],
  "Bounds: up to 3 cells (1D), 2x2 and 2x1x2 in 2D and 3D, 1-3 time steps; exponents of the curves at fixed values; sensitivities at a fixed model with every direction and weight, mixed form (the sensitivities of the head-based form are not claimed).")

P("C24", "Layered-earth EM data are exact transforms with exact sensitivities",
  "For every reflection coefficient of the layers, frequency-domain data of magnetic dipoles (any orientation and moment), circular loops and wire paths (any current) are the Hankel transforms of the documented kernels at the heights of source and receiver, "
  "total fields add and ppm data divide by the free-space field of that source; step-off data are the cosine transform, other waveforms the superposition by their slope, one row per time and location in survey order. "
  "The complex conductivity and permeability follow the documented relaxation models for single or per-layer parameters. Jvec is the derivative of the data in conductivity or resistivity (also of chargeable layers), permeability, thicknesses and source heights; "
  "Jtvec is its transpose, getJ and the JtJ diagonal the same operator. The data of a survey are those of its sources one by one, also after another survey is set.",
  [I, CF], "all reflection coefficients, models, directions, weights, orientations, moments and currents",
  "Tests compare with reference values for single-location receivers at heights near zero and check Taylor decay in random directions; chargeable layers, heights, several locations and oblique receivers are not sampled.",
  ["simpeg/electromagnetics/base_1d.py", "simpeg/electromagnetics/frequency_domain/simulation_1d.py", "simpeg/electromagnetics/time_domain/simulation_1d.py", "simpeg/electromagnetics/utils/em1d_utils.py", "simpeg/electromagnetics/frequency_domain/sources.py"],
  [("_compute_hankel_coefficients", "simpeg/electromagnetics/base_1d.py"), ("compute_complex_sigma", "simpeg/electromagnetics/base_1d.py"), ("Simulation1DLayered", "simpeg/electromagnetics/frequency_domain/simulation_1d.py"), ("Simulation1DLayered", "simpeg/electromagnetics/time_domain/simulation_1d.py")],
  "Bounds: up to 3 layers, 2 locations, 4 sources; digital filters shortened to 3 and 4 points (data are linear in the filter weights); the reflection coefficient is an arbitrary table, or a smooth function with exact derivatives in place of the compiled kernel of geoana; wire paths with vertical receivers; positive currents.")


NOT_APPLICABLE = {}
