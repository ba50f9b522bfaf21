"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
F = "jax_am/fem/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

T5 = "The five stable tests solve one fixed mesh each (HEX8/TET and one load) and compare with stored FEniCSx results; "

p("C01", "Element interpolation and volume quadrature are exact on every valid mesh",
  "For every supported element type and every valid mesh, shape-function interpolation from nodal values to the integration points reproduces every polynomial in the element's space exactly: values, physical gradients and the positions of the integration points. The volume integration weights are positive and sum to the true volume of the mesh, and polynomials that the element's quadrature rule is meant to integrate are integrated exactly.",
  ["inputs", "configurations"], "all nine element types; affine and distorted meshes of any size, orientation-preserving map and node/cell numbering; all polynomials of the element space",
  T5 + "no test looks at the 2D, HEX20, HEX27, TET10 or distorted cases, nor at interpolation itself.",
  [F+"basis.py", F+"core.py"],
  [("reference shape functions reordered from basix to meshio ordering", F+"basis.py:get_elements,get_shape_vals_and_grads"),
   ("isoparametric gradient and JxW", F+"core.py:FEM.get_shape_grads"), ("dof to quad / gradient conversion", F+"core.py:FEM.convert_from_dof_to_quad,sol_to_grad")],
  ["get_physical_quad_points()", "convert_from_dof_to_quad()", "sol_to_grad()", "JxW"])

p("C02", "Boundary faces are selected exactly and surface integrals are geometric truth",
  "For every mesh and location predicate, the selected boundary faces are exactly the element faces whose corner nodes all satisfy the predicate, each reported once per owning element, and the face count agrees. Surface quadrature points lie on those faces, surface weights are positive and sum to the true face area, nodal fields are interpolated correctly onto them, and the reported surface area, surface integrals of functions of the field gradient and the traction on faces with normal +z equal their exact values.",
  ["inputs", "configurations"], "all element types, affine and distorted meshes, all location predicates, all polynomial fields",
  T5 + "they integrate over one flat side of one box; other faces, element types and predicates never occur.",
  [F+"core.py", F+"basis.py", F+"models.py", F+"generate_mesh.py"],
  [("face tables and facet Jacobians", F+"basis.py:get_face_shape_vals_and_grads"), ("face selection", F+"core.py:get_boundary_conditions_inds"),
   ("Nanson surface measure", F+"core.py:get_face_shape_grads"), ("surface post-processing", F+"models.py:Mechanics"), ("face count", F+"generate_mesh.py:Mesh.count_selected_faces")],
  ["get_boundary_conditions_inds()", "get_face_shape_grads()", "get_physical_surface_quad_points()", "surface_integral()/compute_traction()/compute_surface_area()", "convert_neumann_from_dof()"])

p("C03", "The assembled residual is the discrete weak form",
  "For every mesh, field and problem definition, the residual vector equals the sum over all elements and boundary parts of the quadrature of the specified weak form: flux term plus mass/reaction term plus solution-dependent boundary term minus body source minus prescribed traction, including per-quadrature-point internal variables. Every element contributes exactly once whatever the number of elements, and every part of the boundary exactly once.",
  ["inputs", "configurations"], "all element types, cell counts (also around the internal batching granularity), vector sizes, (non)linear flux, mass, source, Neumann and Cauchy terms, internal variables and solution fields",
  T5 + "they never combine terms, never use mass, Cauchy or internal Neumann variables, and use one cell count.",
  [F+"core.py"],
  [("cell kernel, batching and scatter-add", F+"core.py:split_and_compute_cell,compute_residual_vars_helper"), ("Neumann integral", F+"core.py:compute_Neumann_integral_vars"),
   ("body force", F+"core.py:compute_body_force_by_fn"), ("Cauchy faces", F+"core.py:compute_face")],
  ["compute_residual(sol)", "newton_update(sol) return value"])

p("C04", "The assembled tangent matrix is the exact derivative of the residual",
  "For every problem and every state at which the residual is differentiable, the assembled sparse tangent matrix equals the Jacobian of the residual with respect to the nodal unknowns, including contributions of mass terms, solution-dependent boundary terms and internal variables, and assembling it returns the same residual as the plain residual evaluation.",
  ["inputs", "configurations"], "same domain as C03; all directions of perturbation, all states",
  T5 + "Newton still converges to the right answer with a slightly wrong tangent, so result comparisons cannot see it.",
  [F+"core.py"],
  [("forward-mode element Jacobians", F+"core.py:split_and_compute_cell"), ("triplet assembly", F+"core.py:compute_newton_vars")],
  ["newton_update(sol) then triplets (I, J, V)"])

p("C05", "Solves satisfy the discrete equations and Dirichlet data for every solver path",
  "For every well-posed problem the returned solution carries the prescribed Dirichlet value at every constrained unknown and annihilates the residual at every free unknown, up to the documented solver tolerance. The answer does not depend on the linear/nonlinear path, the linear-solver backend, the preconditioner flag or the initial guess, nor on what was solved or prescribed before: after boundary conditions, internal variables or parameters are updated, the next solve equals that of a freshly built problem. Dynamic relaxation reaches the same equilibrium to its requested tolerance for problems that have an energy.",
  ["inputs", "configurations", "histories"], "well-posed linear and mildly nonlinear problems, every combination of solver options, and sequences of boundary-condition/parameter updates and solves on one problem object",
  T5 + "each takes a single option combination and a single solve; no history of updates is exercised.",
  [F+"solver.py", F+"core.py"],
  [("row-elimination Newton solver", F+"solver.py:solver_row_elimination"), ("Dirichlet bookkeeping", F+"core.py:Dirichlet_boundary_conditions,update_Dirichlet_boundary_conditions"), ("linear solvers", F+"solver.py:petsc_solve,jax_solve,get_A_fn")],
  ["solver(problem, ...) return value"])

p("C06", "FEM answers do not depend on numbering, frame or units, and pass the patch test",
  "Renumbering nodes or cells, or translating, rotating or uniformly rescaling the geometry (with the data transformed accordingly), changes the solution and its reported integral quantities only by the corresponding transformation. Any linear field that satisfies the equations is reproduced exactly when its boundary values are prescribed, on every valid mesh, and the reported L2 and H1 errors equal the true norms of the error.",
  ["inputs", "configurations"], "all permutations of nodes and cells, rigid motions and scalings, all linear exact fields, distorted meshes of every element type",
  T5 + "they use one numbering and one frame of reference.",
  [F+"core.py", F+"solver.py", F+"models.py"],
  [("index-driven gather/scatter", F+"core.py"), ("error norms", F+"models.py:LinearPoisson.compute_l2_norm_error,compute_h1_norm_error")],
  ["solver()", "compute_l2_norm_error()", "compute_h1_norm_error()"])

p("C07", "Periodic boundary conditions are satisfied and optimal",
  "When periodicity between two boundary parts is requested, the returned solution takes equal values at each pair of matched points for the requested components only, also satisfies all Dirichlet conditions, and equals the constrained solution of the discrete problem (on the nonlinear path, with a residual in the admissible directions below the Newton tolerance of 1e-6). Point matching follows the user's mapping whatever the node numbering on either side and however small the mesh, with both solver backends and on both the linear and nonlinear path.",
  ["inputs", "configurations"], "meshes with matching boundaries in any numbering, any subset of components and boundary pairs, both backends, linear and nonlinear path",
  "No test uses periodic conditions at all; the periodic application script crashed in the PETSc path.",
  [F+"core.py", F+"solver.py"],
  [("pair matching", F+"core.py:periodic_boundary_conditions"), ("Lagrange-multiplier saddle-point solver", F+"solver.py:solver_lagrange_multiplier,get_A_fn_and_res_aug,compute_residual_lm")],
  ["solver(problem with periodic_bc_info)"])

p("C08", "Differentiating through a solve gives the true sensitivities",
  "For every differentiable problem and parameter array, the gradient, Jacobian-vector product and Hessian-vector product obtained by differentiating a functional of the solution through the solver wrappers equal the true derivatives of that functional with respect to the parameters. This holds for both linear-solver backends, for parameters entering stiffness, source, traction or Dirichlet data, and for repeated calls with different parameters on the same wrapper.",
  ["inputs", "configurations", "histories"], "parameter values and shapes, objective functionals, problem kinds, wrapper kind and backend, sequences of calls on one wrapper",
  "The repository's only gradient test samples one point and is not among the reliably passing tests.",
  [F+"solver.py", F+"autodiff_utils.py"],
  [("implicit adjoint", F+"solver.py:implicit_vjp,ad_wrapper"), ("custom JVP", F+"autodiff_utils.py:ad_wrapper_jvp,implicit_jvp_helper")],
  ["jax.grad / jax.jvp / jax.linearize of functionals of ad_wrapper(...) and ad_wrapper_jvp(...)"])

p("C09", "Elastic constitutive laws are objective and derive from their energy",
  "For every displacement gradient the linear-elastic law returns the isotropic Hooke stress for the documented moduli, and the hyperelastic law returns the derivative of the documented stored energy: it is symmetric/objective under superposed rotations, isotropic, stress free in the reference state and linearises to the same isotropic elasticity. Work done around any closed deformation cycle is zero.",
  ["inputs"], "all displacement gradients with positive volume ratio, all rotations",
  T5 + "they sample the laws at one load state per test.",
  [F+"models.py"], [("stress functions", F+"models.py:LinearElasticity.get_tensor_map,HyperElasticity.get_tensor_map")],
  ["get_tensor_map()(u_grad)"])

p("C10", "Plastic stress stays admissible and follows the flow rule on every load path",
  "Along every load history the stored stress never exceeds the yield surface, evolves elastically inside it and otherwise by radial return of the deviatoric trial stress with the pressure untouched, and equals an independent point-wise integration of the same strain path. State is advanced exactly once per update and never by merely evaluating residuals or solving, and the reported average stress is the volume average of the stored stress.",
  ["histories", "inputs"], "arbitrary sequences of displacement increments (loading, unloading, reversal, rotation of direction), interleaved with residual/tangent evaluations, on arbitrary meshes",
  "One plasticity test runs one loading-unloading path of a box and checks the average stress only.",
  [F+"models.py", F+"core.py"], [("return map", F+"models.py:Plasticity.get_maps"), ("history update", F+"models.py:Plasticity.update_stress_strain")],
  ["internal_vars after update_stress_strain()", "compute_avg_stress()", "compute_residual()"],
  [("sigmas_old, epsilons_old", "stress and strain at the last accepted step", F+"models.py:Plasticity")])

p("C11", "Topology-optimisation updates solve the MMA subproblem within all bounds",
  "Every optimiser update returns design variables inside the design bounds, the move limit and the asymptotes, and (up to solver tolerance) at a KKT point of the convex moving-asymptote approximation built from the supplied objective and constraint values and gradients, with the asymptotes adapted from the iterate history by the documented rule. Both the library's optimiser and the copy the topology-optimisation application uses behave so. Filter weights are the linear cone of radius 1.5 mean element sizes around every designable element, sensitivities are filtered with those weights normalised per element (scaled by density/max(density, 0.001)), and the driver evaluates objective and constraints once per iteration at the current densities, uses the filtered sensitivities, and never leaves the bounds or the move limit.",
  ["inputs", "histories"], "numbers of variables and constraints, values and gradients of any sign and scale, bounds, move limits, and sequences of iterations",
  "No test covers the optimiser.",
  [F+"mma.py", "applications/fem/top_opt/mma.py"], [("subproblem and primal-dual Newton solver", F+"mma.py:MMA"), ("filter", F+"mma.py:compute_filter_kd_tree,applySensitivityFilter"), ("driver", F+"mma.py:optimize")],
  ["MMA getters after mmasub()", "compute_filter_kd_tree()", "applySensitivityFilter()", "optimize()"])

p("C12", "Generated meshes are valid, conforming and fill the requested domain",
  "For every size and element type, the mesh generators return a conforming mesh of the requested box, rectangle or cylinder: coordinates span exactly the requested extents, no node is duplicated or unused, every cell has positive orientation in the documented node ordering, the number of cells is the requested one, cells fill the domain without overlap, and interior faces are shared by exactly two cells. Structured grids enumerate points and cells in the documented order.",
  ["inputs", "configurations"], "all positive divisions, extents and supported element types, and cylinder parameters",
  "Tests load prebuilt meshes or one default size.",
  ["jax_am/common.py", F+"generate_mesh.py"],
  [("structured meshes", "jax_am/common.py:box_mesh,rectangle_mesh"), ("gmsh meshes", F+"generate_mesh.py:box_mesh,cylinder_mesh"), ("orientation report", F+"generate_mesh.py:check_mesh_TET4")],
  ["returned meshio meshes"])

p("C13", "Written result files and parsed inputs carry exactly the data given",
  "Saving a solution with optional cell and point data and reading the file back yields the same mesh, the same solution and the same named data to single precision, for every element type and existing or missing target directory; converting the file version changes nothing else. Parsed parameter files equal their content, timing decorators return exactly what the wrapped function returns, and the tabular export contains one row per node and output file with the right coordinates, values and times in chronological order.",
  ["inputs", "configurations", "histories"], "all meshes, field shapes, names, numbers of fields, directory states, file-creation orders and parameter documents",
  "Tests write files but never read them back.",
  [F+"utils.py", "jax_am/common.py", "jax_am/phase_field/yaml_parser.py"],
  [("VTU writer", F+"utils.py:save_sol,modify_vtu_file"), ("tabular export", "jax_am/common.py:to_data_frame"), ("parsers/decorators", "jax_am/common.py:json_parse,yaml_parse,timeit,walltime")],
  ["files on disk", "returned DataFrame"])

C = "jax_am/cfd/cfd_am.py"
p("C14", "Finite-volume grids and operators are conservative and consistent",
  "On every structured grid, cell and face connectivity, centroids, areas, volumes and boundary surfaces describe the same box; boundary ghost values reproduce the prescribed Dirichlet value or Neumann flux at the face. The discrete gradient, divergence and diffusion operators are exact for linear fields (diffusion for constant flux with variable conductivity), face velocities are face averages, and every operator conserves: the volume sum of a flux balance equals the net boundary flux.",
  ["inputs", "configurations"], "grid sizes and spacings in 2D/3D, boundary-condition combinations, cell and face fields",
  "No test imports the CFD module.",
  [C], [("meshes", C+":mesh2d,mesh3d"), ("operators", C+":ghost_cell,get_GC_values,laplace,div,gradient,get_face_vels")],
  ["mesh attributes", "operator return values"])

p("C15", "CFD equation solves satisfy their discrete balance laws",
  "Each Poisson, energy and velocity step returns the solution of its implicit discrete equation for the supplied coefficients, previous state, source and boundary conditions. Total energy changes by exactly what boundaries and sources supply, a uniform state without forcing stays put, the velocity step is implicit viscous prediction with Darcy drag in solid followed by a projection whose face velocities are divergence-free, and neither the result nor the mesh passed in is affected by earlier solves.",
  ["inputs", "configurations", "histories"], "grid sizes, coefficients, time steps, sources, initial fields and all supported boundary-condition types, over repeated steps",
  "No test imports the CFD module.",
  [C], [("equations", C+":poisson,energy_eqn,velocity_eqn,solver_linear,solver_nonlinear")], ["solve()/update results"])

p("C16", "Coupled melt-pool runs keep energy, window and phase history consistent",
  "At every step of every laser history, the total stored energy changes by the absorbed laser power minus boundary losses, the laser heats only while switched on and around its current position, and a scene symmetric about the scan line stays symmetric. The moving fine window stays inside the domain and leaves everything outside untouched by flow, the solidified-region marker is the running maximum of the liquid fraction, and liquid velocity vanishes in solid cells.",
  ["histories", "inputs"], "laser path, power, timing, material and window parameters; sequences of steps",
  "No test runs this simulation.",
  [C], [("time stepping", C+":AM_3d.time_integration"), ("heat source", C+":AM_3d heat source and window")], ["fields after each step", "written VTK files"])

p("C17", "The explicit thermal solver advances the heat equation with its stated fluxes",
  "Each step of the explicit finite-difference thermal solver equals forward Euler on the discrete heat equation with temperature-dependent conductivity, heat capacity and latent heat, convection and radiation on all six faces and the Gaussian laser flux on the top face, for the supplied material, laser and position. A body at ambient temperature without laser stays at ambient, with constant properties the energy change equals the net boundary flux, without laser temperatures stay between ambient and the previous maximum, and mirroring or exchanging x and y of the scene does the same to the answer.",
  ["inputs", "histories"], "grid sizes, materials, laser parameters and numbers of steps",
  "No test imports this module.",
  ["jax_am/cfd/gamma.py"], [("explicit update", "jax_am/cfd/gamma.py")], ["state after each step"])

A = "jax_am/phase_field/allen_cahn.py"
p("C18", "Grain evolution follows the multi-phase-field gradient flow",
  "The phase-field right-hand side equals temperature-dependent mobility times the negative variational derivative of the grain free energy (bulk plus gradient terms) at the local temperature, the gradient term being scaled, where anisotropy is enabled, by the factor belonging to the angle between the interface normal and the nearest crystal axis, on cells of any shape. Evolution is equivariant under relabelling grains and mirroring the domain, never increases the isotropic free energy for a stable time step, leaves a uniform solid grain and a fully molten region unchanged, anisotropy respects cubic crystal symmetry, each solver step advances state and time once, order parameters are forced to zero exactly in liquid cells, and the time integrators are forward Euler and classical Runge-Kutta on any system.",
  ["inputs", "histories"], "grain layouts, orientations, temperature fields, parameters and numbers of steps",
  "No test imports the phase-field module.",
  [A, "jax_am/phase_field/utils.py"], [("energy and rhs", A+":phase_field"), ("integrators", A+":explicit_euler,rk4 (odeint)")], ["rhs function", "state after each step"])

p("C19", "Polycrystal ingest, output and grain statistics are faithful",
  "A polycrystal description read from disk gives every cell exactly the grain of the file, every grain one orientation out of the given set, on a structured grid whose dimensions are inferred from the points; crystal axes are those of the orientation and the initial order parameters are one-hot in it. Written results, stacked layers, face adjacency and grain statistics (connected solid components, volumes, aspect ratios) agree with a direct recomputation from the cell labels, cleaning output removes only old solution files, and an existing polycrystal mesh is never regenerated.",
  ["inputs", "configurations", "histories"], "grid sizes, grain labelings, orientation sets, output directories",
  "No test imports the phase-field module.",
  ["jax_am/phase_field/utils.py", A], [("ingest", "jax_am/phase_field/utils.py:Field"), ("statistics", "jax_am/phase_field/utils.py:BFS, aspect ratios")], ["returned polycrystal", "files on disk"])

L = "jax_am/lbm/core.py"
p("C20", "Free-surface LBM conserves mass and keeps every cell in a legal state",
  "At every step of every free-surface run, as long as interface cells exist, the total mass (density of liquid cells plus fill of interface cells) equals the initial one. Walls never change; gas and wall cells carry no mass, motion or heat; every cell is liquid, interface, gas or wall. Initially exactly the gas cells touching liquid become half-full interface cells. The melted marker is exactly the history of cells whose temperature exceeded the solidus and never reverts, velocity is reported only in liquid, and fluid that nothing drives, or that is solid, stays at rest unchanged.",
  ["histories", "inputs"], "initial phase layouts, fluid parameters, forces, thermal and laser histories",
  "No test imports the LBM module.",
  [L, "jax_am/lbm/utils.py"], [("phase transitions and excess-mass redistribution", L), ("mass exchange", L)], ["written states at every output step"])

p("C21", "LBM dynamics equal the documented lattice Boltzmann scheme",
  "Each step equals an independent implementation of the scheme: BGK collision with forcing, streaming with bounce-back at walls and free-surface reconstruction at gas, mass exchange and cell-state conversion, height-function curvature, enthalpy transport with phase change and fixed-temperature walls, gravity, surface tension, Marangoni and recoil forces, surface heat loss and the moving, switchable laser, all in lattice units converted from the physical parameters. Mirroring the scene mirrors the results; states are written at exactly the requested step intervals, and starting a run empties its own vtk output folder and deletes nothing else.",
  ["inputs", "histories"], "initial phase layouts, physical parameters, laser paths, numbers of steps",
  "No test imports the LBM module.",
  [L, "jax_am/lbm/utils.py"], [("update", L+":simulation")], ["written states at every output step"])

T = "applications/fem/thermal/models.py"
p("C22", "Element-birth heat conduction keeps an exact account of the built part",
  "However cells are born (any order, any grouping, any element type and numbering), the active mesh of the build-up model consists of exactly the born cells and their points, with correct maps to the full mesh, and its external faces are exactly the faces owned by one active cell, each once. Each time step is the backward-Euler heat balance of the active cells with the model's heat capacity and conductivity, the first boundary flux acting on every external face and the second one, present only while the laser is on, on the horizontal external faces above the base, fluxes being evaluated at the old temperature; the old temperature is the one last handed over, also when one problem object is reused for several steps.",
  ["inputs", "histories"], "meshes, birth sequences, sequences of heated and unheated time steps, flux functions, initial temperatures",
  "No test imports the applications.",
  [T], [("active mesh and external faces", T+":initialize_hash_map,update_hash_map,get_active_mesh"), ("heat step", T+":Thermal,solver interplay update_int_vars/update_Neumann_boundary_inds")],
  ["get_active_mesh()", "external faces", "temperatures after each step"])

X = "applications/fem/crystal_plasticity/models.py"
p("C23", "Crystal plasticity obeys its constitutive laws, equilibrium and rotations",
  "For every crystal orientation, deformation history and time step, the stress returned by the crystal-plasticity model follows the cubic elastic law of the elastic part of the deformation; slip increments follow the power-law flow rule at that stress and the old slip resistance; slip resistance follows the hardening rule; the plastic deformation is the accumulated slip; internal variables advance consistently over a history of steps; and rotating body and crystal rotates the stress. The tangent is the derivative of that stress update. Solved polycrystals are in equilibrium with these stresses, start undeformed with each cell in its grain's orientation, and report volume-averaged Cauchy stresses per cell.",
  ["inputs", "histories"], "orientations, deformation paths, time steps, internal states, grain assignments",
  "No test imports the applications.",
  [X], [("constitutive update", X+":CrystalPlasticity.get_maps"), ("state and averages", X+":update_int_vars_gp,compute_avg_stress")],
  ["stress map", "internal variables after update", "compute_avg_stress()", "tangent"])

E_ = "applications/fem/top_opt/fem_model.py"
p("C24", "Density-based elasticity: interpolation, compliance and sensitivities agree",
  "For every density field, designable subset, mesh and load, the topology-optimisation elasticity model places the design densities in the designable cells (others stay full material), applies Hooke's law with the penalised modulus of the chosen case, measures compliance as the work of the boundary load, reports volume-averaged von Mises stress in three dimensions, and the gradient of the compliance with respect to the densities equals the exact adjoint sensitivity at the computed solution, also over repeated designs on one object.",
  ["inputs", "histories"], "cases, meshes, densities, designable subsets, loads, sequences of designs",
  "No test imports the applications.",
  [E_], [("interpolation and stress", E_+":Elasticity.get_tensor_map"), ("measures", E_+":compute_compliance,compute_von_mises_stress"), ("design placement", E_+":set_params")],
  ["residual", "compute_compliance()", "compute_von_mises_stress()", "gradient through the differentiable solver"])

Y = "applications/fem/top_opt/plasticity.py"
p("C25", "Plastic designs: stress update, load histories and design gradients agree",
  "For every density and yield-strength design, mesh and load history, the plastic topology-optimisation model places the design in the designable cells (others full), takes modulus and yield stress from it by its interpolation laws, and updates stresses by radial return on the perfectly plastic von Mises surface; stresses stay admissible, stress and strain are handed from step to step, every load step is in equilibrium, and the gradient of the final compliance with respect to the design, through the whole history, is the exact sensitivity and finite also where the material is stress-free.",
  ["inputs", "histories"], "meshes, designs, designable subsets, loading and unloading histories, repeated evaluations",
  "No test imports the applications.",
  [Y, E_], [("interpolation and return map", Y+":Plasticity.get_maps"), ("history", Y+":init_params,update_stress_strain,set_params")],
  ["stress map and its derivatives", "update_stress_strain()", "displacements of every step", "compliance and gradient"])

Z = "demos/fem/phase_field_fracture/eigen.py"
p("C26", "Spectral tensor functions and their derivatives are right for all spectra",
  "For every symmetric matrix (distinct, repeated, nearly repeated or zero eigenvalues, any size and scale) and scalar function smooth at its eigenvalues, the spectral tensor function used by the phase-field fracture model returns the function of the matrix, and its forward- and reverse-mode derivatives, batched and compiled too, are the derivative of that matrix function.",
  ["inputs"], "matrices with every kind of spectrum, scalar functions and directions",
  "No test imports this module.",
  [Z], [("value and derivative rule", Z+":get_eigen_f_custom")], ["value, JVP, Jacobian and gradient of the tensor function"])

MS = "applications/fem/multi_scale"
p("C27", "Homogenisation of a composite: unit cell, full-scale and surrogate models agree",
  "For every unit cell (size, resolution, inclusion, moduli) and macroscopic deformation, the solved fluctuation is the periodic equilibrium of the neo-Hookean composite at that deformation, independent of what was solved before and also when the direct solve fails and the deformation is applied in steps, and the recorded energy is its stored energy. Full-scale composites put the inclusion modulus exactly inside the inclusions, energy, internal forces and the force through horizontal faces following from the same energy; with a surrogate they follow from the network as a function of the right Cauchy-Green tensor. Stored samples, their transformation, split, batches and the stored network are read back faithfully.",
  ["inputs", "histories"], "unit cells, deformations, composite blocks, displacement fields, sample sets and networks",
  "No test imports the applications.",
  [MS], [("unit cell", MS+"/rve.py:rve_problem,solve_rve_problem"), ("models", MS+"/fem_model.py:HyperElasticity"), ("surrogate data", MS+"/trainer.py,"+MS+"/utils.py")],
  ["fluctuation and energy", "residual, energy and traction", "data sets and network outputs"])

AP = "applications/phase_field"
p("C28", "Process drivers feed the grain solver the right temperature at the right time",
  "For every grid, domain, pair of time steps and output interval, the coupled driver advances the temperature solver on the crystal's own grid just far enough that each grain step gets, cell by cell, the temperature history interpolated linearly in time at the step's time. The multi-scan driver moves the laser along every path segment at the given speed, never leaving the path, with the right direction, and every driver (coupled, multi-scan, single track with constant or ramped laser, solidification) makes one grain step per time level, each starting from the previous result and using the temperature field of its prescribed time, and writes and inspects exactly the requested steps with the state that belongs to them.",
  ["inputs", "histories"], "grids, domains, time-step ratios, output intervals, temperature histories and laser paths",
  "No test imports the applications.",
  [AP], [("coupling", AP+"/coupled/example.py:coupled_integrator"), ("laser path", AP+"/multi_scan/example.py:read_path,get_T_fn,integrator"), ("single track, solidification", AP+"/simple/example.py,"+AP+"/simple/example_grf.py,"+AP+"/solidification/example.py")],
  ["temperature and state passed to each grain step", "steps written"])

for q in P:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
    print(json.dumps(q))
