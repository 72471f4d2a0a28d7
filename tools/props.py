"""writes /verif/properties.jsonl (the single source for titles and statements)"""
import json, os
H = "hydraxmpm/"
SF = [H + "shapefunctions/mapping.py", H + "shapefunctions/linear.py", H + "shapefunctions/quadratic.py", H + "shapefunctions/cubic.py"]
SOL = [H + "solvers/usl.py", H + "solvers/usl_asflip.py"]
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Interpolation weights form a partition of unity",
     "For every particle position inside the part of the grid that holds its whole stencil, the interpolation weights of its nodes are non-negative and sum to one, for the linear, quadratic and cubic kernels in 1D, 2D and 3D. The weight gradients sum to the zero vector, and gradient components outside the simulated dimensions are zero.",
     ["inputs", "configurations"], "every particle position, grid origin, cell size, kernel, dimension",
     "Tests evaluate the kernels at a few positions and compare printed values; the identity must hold at every real position, including every polynomial piece and its seams.",
     SF, [("kernel polynomials", H + "shapefunctions/{linear,quadratic,cubic}.py"), ("stencil base and validity mask", H + "shapefunctions/mapping.py: compute")],
     ["ShapeFunctionMapping.compute"])
prop("C02", "Interpolation reproduces linear fields and its gradients are exact",
     "Interpolating any linear nodal field returns its exact value and exact gradient at the particle, and every weight gradient is the true derivative of the weight with respect to the particle position. Each interaction names the node it belongs to and the exact particle-node offset in cells.",
     ["inputs", "configurations"], "every position, origin, cell size, nodal linear field, kernel and dimension",
     "Linear completeness is an identity over all positions and all linear fields; tests sample single positions and do not check it (linear kernel gradient is set-valued exactly on nodes, which is excluded).",
     SF, [("value/gradient polynomials", H + "shapefunctions/*.py"), ("offset, node hash, rel_dist", H + "shapefunctions/mapping.py: compute")],
     ["ShapeFunctionMapping.compute"])
prop("C03", "Grids cover the declared domain and index nodes consistently",
     "A created grid covers the whole declared extent plus padding on both sides, its node numbering and node coordinates agree with the numbering used by interactions, and a particle anywhere in the declared domain sees its complete stencil when padding is at least the kernel's. A particle outside the grid contributes nothing, and never to a wrong node.",
     ["inputs", "configurations"], "every extent, cell size and padding; every particle position inside or outside",
     "The node count is a floating-point division plus truncation: whether a node row is lost depends on the exact values chosen, which a handful of tests cannot cover.",
     [H + "grid/grid.py", H + "shapefunctions/mapping.py"], [("node count", H + "grid/grid.py: GridDomain.create"), ("row-major node positions", H + "grid/grid.py: position_mesh"), ("hash and validity", H + "shapefunctions/mapping.py: compute")],
     ["GridDomain.create", "GridDomain.position_stack", "ShapeFunctionMapping.compute"])
prop("C04", "Particle-grid transfer conserves mass and momentum",
     "The grid receives exactly the total particle mass and linear momentum, internal forces sum to zero, and external particle forces sum to themselves. Over a whole step with no blending of unresolved nodes the total particle momentum changes by exactly the time step times the sum of external forces, for every scheme and also when several bodies share a grid.",
     ["inputs", "configurations"], "every particle position, velocity, mass, volume, stress, force, affine state, number of bodies on a grid",
     "Conservation quantifies over all states and over body configurations; existing tests only check construction of states.",
     SOL + SF, [("P2G scatter", H + "solvers/usl.py: _p2g"), ("affine P2G scatter", H + "solvers/usl_asflip.py: _p2g"), ("G2P gather", H + "solvers/*.py: _g2p")],
     ["USLSolver.__call__", "USLAFLIP.__call__"])
prop("C05", "Rigid translation is preserved exactly (Galilean invariance)",
     "A stress-free body moving with one uniform velocity keeps exactly that velocity, moves by velocity times the time step, and stays undeformed: no velocity gradient, unchanged deformation, volume and stress. Adding a uniform velocity to any body changes its new velocities by that velocity and nothing in its deformation.",
     ["inputs", "configurations"], "every velocity, particle arrangement, mass, kernel, scheme and blending parameter",
     "It is an invariance over all states; no test advances a solver over more than canned states.",
     SOL, [("FLIP/PIC update", H + "solvers/usl.py: _g2p"), ("AFLIP update", H + "solvers/usl_asflip.py: _g2p")], ["USLSolver.__call__", "USLAFLIP.__call__"])
prop("C06", "Velocity gradients and affine fields are recovered exactly",
     "When the grid carries a linear velocity field, every particle receives exactly that field's gradient (in the library's compression-positive sign and with row = velocity component, column = direction) and exactly its value. In the affine scheme the stored affine state then re-creates the same field on the grid.",
     ["inputs", "configurations"], "every linear velocity field, position, kernel, scheme (gradient-based and classic affine update)",
     "The recovered gradient is an identity over all fields and positions; a transposed or mis-signed gradient is invisible for the symmetric or isotropic flows used in tests.",
     SOL, [("weighted_L", H + "solvers/usl.py: _g2p"), ("affine term", H + "solvers/usl_asflip.py: _g2p, _p2g")], ["L_stack", "Bp_stack"])
prop("C07", "Deformation, volume and velocity gradient stay consistent",
     "After a step every particle's deformation is the compression-positive velocity-gradient increment applied to its previous deformation, its volume is the determinant of that deformation times the initial volume, and in 2D the out-of-plane stretch stays one. Resetting accumulated shear preserves the volume change, stored deformation history keeps accumulating, and array shapes are the same after a step as before for any number of particles.",
     ["inputs", "configurations", "histories"], "every velocity field, previous deformation, dimension, scheme, number of particles including one",
     "Kinematic consistency must hold for every deformation history; tests never check the update against the definition.",
     SOL + [H + "constitutive_laws/constitutive_law.py"], [("F and volume update", H + "solvers/*.py: _g2p"), ("shear reset", H + "constitutive_laws/constitutive_law.py: remove_accumulated_shear")], ["F_stack", "volume_stack", "L_stack"])
prop("C08", "Gravity accelerates everything at exactly g",
     "A free stress-free body gains exactly gravity times the time step in velocity per step, whatever its mass, and does not deform. Applying gravity on the grid or on the particles gives the same motion, and bodies or grids not selected for gravity are not affected.",
     ["inputs", "configurations"], "every gravity vector, mass, position, velocity, body selection and application mode",
     "The equivalence of modes and mass independence are universally quantified; tests cover creation only.",
     [H + "forces/gravity.py"] + SOL, [("grid mode", H + "forces/gravity.py: apply_grid_forces"), ("particle mode", H + "forces/gravity.py: apply_pre_p2g")], ["velocity_stack"])
prop("C09", "Local damping only removes energy",
     "Local damping adds a force that never has positive power: component by component it opposes the current velocity, with magnitude equal to the damping factor times the magnitude of the acting force. It leaves unselected bodies and grids alone and vanishes for zero damping or zero velocity.",
     ["inputs", "configurations"], "every force, velocity, mass, damping factor, application mode",
     "Dissipation is an inequality over all states; a sign or ordering slip only shows for some sign combinations.",
     [H + "forces/damping.py"], [("damping force", H + "forces/damping.py")], ["force_stack"])
prop("C10", "Rigid-object contact obeys non-penetration and Coulomb friction",
     "At nodes touched by a rigid object the new velocity never approaches the object, contact never pulls, the tangential change opposes sliding and never exceeds the friction coefficient times the normal change nor reverses sliding. Elsewhere, and for separating nodes, the velocity is unchanged; the result does not depend on a common added velocity of object and material.",
     ["inputs", "configurations"], "every node velocity, wall velocity, unit normal, distance, friction coefficient",
     "The contact law is a set of inequalities over all velocities; tests do not exercise it.",
     [H + "forces/sdf_collider.py", H + "common/builder.py"], [("contact projection", H + "forces/sdf_collider.py: apply_frictional_contact"), ("node selection", H + "forces/sdf_collider.py: _collide_node")], ["moment_nt_stack"])
prop("C11", "Signed distances have the right sign, zero set and normals",
     "Every primitive shape reports a negative distance inside, positive outside and zero on its surface, and for shapes with exact distances the value equals the Euclidean distance to the surface. Normals point outwards.",
     ["inputs", "configurations"], "every query point and shape dimension in 2D and 3D",
     "Shape membership must be right at every point in space and for every dimension; tests do not query the shapes.",
     [H + "sdf/sdfcollection.py", H + "sdf/sdfobject.py"], [("local distances", H + "sdf/sdfcollection.py: signed_distance_local"), ("normals", H + "sdf/sdfobject.py")], ["get_signed_distance_stack", "get_normal_stack"])
prop("C12", "Rigid objects move rigidly and report their own surface velocity",
     "Distances are unchanged when object and query point are moved by the same rigid motion. The reported velocity at a point is the object's linear velocity plus angular velocity cross offset, and advancing the object in time moves its centre by velocity times the step and its rotation by its angular velocity, keeping the rotation normalised.",
     ["inputs", "histories"], "every pose, velocity, angular velocity, time step, query point",
     "Invariance over all rigid motions and every history of motion; tests only use objects at rest.",
     [H + "sdf/sdfobject.py", H + "utils/math_helpers.py"], [("world-local transform", H + "sdf/sdfobject.py"), ("kinematic update", H + "sdf/sdfobject.py: update_kinematics"), ("quaternion rotation", H + "utils/math_helpers.py")], ["get_signed_distance_stack", "get_velocity_stack", "update_kinematics"])
prop("C13", "Assembling a simulation is independent of registration order",
     "Each body uses the grid, material law, solver state and forces it was coupled with, regardless of the order in which bodies, laws, grids, couplings, colliders and forces were registered or how many share a grid; indices left out mean the entity registered last (for forces and solvers: all registered so far). Options given to the builder (friction, gap, gravity, damping, scheme parameters) are the ones in effect.",
     ["configurations", "inputs"], "every order of registration, sharing pattern, subset selection, and state",
     "Index wiring is only wrong for particular registration orders and sharing patterns; tests assemble single-body problems.",
     [H + "common/builder.py"] + SOL, [("index wiring", H + "common/builder.py: couple, set_solver, add_*"), ("index use", H + "solvers/*.py")], ["SimBuilder.build", "solver call"])
prop("C14", "Linear elasticity obeys Hooke's law in every increment",
     "Each stress increment is the isotropic Hooke response to the symmetric strain increment with the configured moduli, in compression-positive sign; a velocity gradient that is pure spin adds no elastic strain and so no stress. Stress stays symmetric, increments are additive and reversible for opposite strain increments.",
     ["inputs", "histories"], "every modulus, velocity gradient, previous stress, time step",
     "The relation is over all strain increments; the tests check one uniaxial increment.",
     [H + "constitutive_laws/linearelastic.py"], [("stress update", H + "constitutive_laws/linearelastic.py: update")], ["stress_stack"])
prop("C15", "Fluid pressure follows the equation of state and never pulls",
     "The fluid's pressure is the configured power-law function of its density ratio, zero at reference density and monotone in density, and never negative. Viscous stress is proportional to the deviatoric rate of deformation with the configured viscosity, and pressure and density initialisation are mutually inverse.",
     ["inputs"], "every density ratio, velocity gradient, viscosity, bulk modulus, exponent",
     "The law is over all densities and rates; tests check one state.",
     [H + "constitutive_laws/newtonfluid.py"], [("EOS", H + "constitutive_laws/newtonfluid.py"), ("viscous stress", H + "constitutive_laws/newtonfluid.py: update")], ["stress_stack"])
prop("C16", "Granular flow stress satisfies the friction law of the inertial number",
     "In flow, the shear-to-pressure ratio equals the configured friction function of the inertial number, lying between its static and dynamic limits and growing with the rate. Pressure is non-negative and follows the density law, and the deviatoric stress is aligned with the deviatoric rate of deformation.",
     ["inputs"], "every velocity gradient, density, material parameters",
     "A constitutive inequality over all rates and densities; factor errors are invisible to smoke tests.",
     [H + "constitutive_laws/mu_i_rheology.py"], [("mu(I) stress", H + "constitutive_laws/mu_i_rheology.py: update")], ["stress_stack"])
prop("C17", "Frictional plasticity never leaves its yield surface",
     "After every update the stress satisfies the cone yield condition and tension limit; elastic trial states inside the surface are returned unchanged. The return moves stress along the flow direction, dissipates energy, and the hardening variable never decreases.",
     ["inputs", "histories"], "every previous stress, strain increment, elastic and strength parameters",
     "Admissibility is an inequality over all stresses and increments; tests do not exercise plastic returns over that range.",
     [H + "constitutive_laws/druckerprager.py"], [("return mapping", H + "constitutive_laws/druckerprager.py: update")], ["stress_stack"])
prop("C18", "Critical-state clay stays elastic inside its yield surface",
     "Inside the yield surface the clay model gives the pressure-dependent elastic response with the configured swelling index and Poisson ratio, leaving its history variables unchanged. States created from a given overconsolidation ratio lie on or inside the yield surface with that ratio, and yield function and its limits are consistent.",
     ["inputs", "histories"], "every in-surface stress, elastic increment, overconsolidation ratio, parameters",
     "The elastic region and initialisation quantify over all stresses; tests check a single state.",
     [H + "constitutive_laws/modifiedcamclay.py"], [("yield function, elastic law, state creation", H + "constitutive_laws/modifiedcamclay.py")], ["stress_stack", "ModifiedCamClayState"])
prop("C19", "Tensor invariants and helpers satisfy their definitions",
     "Pressure, deviators, equivalent stresses and strains, symmetric/spin parts, objective increments and triaxial reconstruction satisfy their defining identities for every tensor: deviators are trace-free, splits add up, invariants are unchanged by rotation, and round trips return the input. Batched versions agree with single-tensor versions.",
     ["inputs"], "every symmetric or general 3x3 tensor, batch",
     "Identities over all tensors; tests cover only isolated values of a few helpers.",
     [H + "utils/math_helpers.py"], [("invariants", H + "utils/math_helpers.py")], ["hydraxmpm.get_* helpers"])
prop("C20", "Robust small inverses are true inverses away from singularity",
     "The guarded small-matrix inverse and norm helpers agree with the exact inverse and norm for every well-conditioned input and stay finite for singular or zero input. Their derivatives are finite as well.",
     ["inputs"], "every 2x2 (3x3) matrix and vector incl. singular ones",
     "Guarding must be right at and around the singular set, a measure-zero set tests do not hit.",
     [H + "utils/math_helpers.py"], [("inv_2x2_robust, safe_norm, ...", H + "utils/math_helpers.py")], ["inv_2x2_robust", "safe_norm"])
prop("C21", "The critical time step never exceeds the stability limit",
     "For every material law the suggested critical time step is positive and at most the safety factor times the cell size over the material's wave speed plus particle speed; it never grows when stiffness or speed grows, and shrinks in proportion to the cell size.",
     ["inputs", "configurations"], "every state, cell size, safety factor and material",
     "A bound over all states and materials; no test evaluates it for most laws.",
     [H + "constitutive_laws/*.py"], [("get_dt_crit", H + "constitutive_laws/*.py: get_dt_crit")], ["get_dt_crit"])
prop("C22", "Blending, support and speed limiters act as configured",
     "The updated velocity is the configured blend of the grid velocity and the particle's own velocity plus grid change, with both extremes as documented and the support-based reduction between its configured limits. No particle leaves a step faster than the configured fraction of a cell per step, and slower particles are not altered by the limiter.",
     ["inputs", "configurations"], "every particle/grid velocity, mass support, blending, limits and time step",
     "The blend and limits are over all states and option values; tests use defaults only.",
     SOL, [("blend, dynamic alpha, CFL clamp", H + "solvers/usl_asflip.py: _g2p"), ("blend", H + "solvers/usl.py: _g2p")], ["velocity_stack", "position_stack"])
prop("C23", "Finite valid states never turn into non-finite ones",
     "Starting from finite physically valid state, one step of any scheme, force or material law that does not turn a particle inside out yields finite values for every field, including for isolated particles, zero velocities, zero stress, empty grid nodes and nodes with vanishing mass.",
     ["inputs", "configurations"], "every finite valid state including degenerate ones",
     "Division and square-root guards matter only on degenerate states that tests do not visit.",
     SOL + [H + "constitutive_laws/*.py", H + "forces/*.py"], [("mass cutoffs", H + "solvers/*.py"), ("guards", H + "constitutive_laws/*.py")], ["whole step"])
prop("C24", "Particle order is irrelevant and clocks advance once per step",
     "Permuting the particles of a body permutes the results and changes nothing else, and unrelated bodies do not influence each other. Each step advances the time by the time step and the step counter by one, and leaves inputs that are not evolved (mass, initial volume, parameters) unchanged.",
     ["inputs", "histories", "configurations"], "every state, permutation and step",
     "Equivariance over all permutations and states.",
     SOL, [("point ids in scatter/gather", H + "shapefunctions/mapping.py"), ("time/step update", H + "solvers/usl.py: __call__")], ["SimState"])
prop("C25", "The single-point driver integrates exactly like the simulation",
     "Driving a material point with a prescribed velocity gradient updates deformation, volume and stress by the same rules as a simulation step, honours its integration options, and repeated steps accumulate.",
     ["inputs", "histories"], "every velocity gradient, state, number of steps up to the bound",
     "Agreement over all gradients and histories; not covered by tests.",
     [H + "element_tests/driver.py", H + "element_tests/triaxial_test.py"], [("driver step", H + "element_tests/driver.py")], ["ElementTestDriver"])
prop("C26", "Material response is isotropic and follows rigid rotation",
     "Rotating the stress, history and velocity gradient of a material point by any rotation rotates the new stress and strain history by that rotation and leaves pressures and hardening variables unchanged, for every material law. Under pure spin the laws with an objective rate rotate the stored stress and elastic strain with the material spin, without changing their invariants to first order.",
     ["inputs"], "every rotation, stress, velocity gradient, material parameters",
     "Frame indifference quantifies over all rotations and states; a wrong spin sign or a mixed-up tensor index is invisible in axis-aligned tests.",
     [H + "constitutive_laws/*.py", H + "utils/math_helpers.py"], [("objective increment", H + "utils/math_helpers.py: get_jaumann_increment"), ("spin", H + "constitutive_laws/druckerprager.py, modifiedcamclay.py")], ["stress_stack", "eps_e_stack"])
prop("C27", "Material-point creation and derived quantities are consistent",
     "Created material points have the requested or documented default mass, volume, density and identity deformation, with mass equal to density times volume; derived pressure, densities and strain measures agree with the stored fields for every state.",
     ["inputs", "configurations"], "every position, density, volume, cell size, particles per cell, dimension",
     "Consistency over all argument combinations; tests cover default creation only.",
     [H + "material_points/material_points.py"], [("create", H + "material_points/material_points.py")], ["MaterialPointState.create"])
prop("C28", "Generic scatter and gather are adjoint averages",
     "Mass-weighted scattering of a constant reproduces it on every node with mass, unnormalised scatter conserves the weighted total, and gathering a constant reproduces it on every particle. Gather and unnormalised scatter are adjoint, for scalar, vector and tensor data.",
     ["inputs", "configurations"], "every particle data, mass, position, data rank",
     "Identities over all data; tests do not use the generic transfers.",
     [H + "shapefunctions/mapping.py"], [("scatter_to_grid, gather_from_grid", H + "shapefunctions/mapping.py")], ["scatter_to_grid", "gather_from_grid"])
prop("C29", "The simulation has no preferred axis or direction",
     "Relabelling the coordinate axes, or mirroring one axis about the grid, before a step gives the relabelled or mirrored result of that step, for positions, velocities, stresses, deformation and forces.",
     ["inputs", "configurations"], "every state; every axis permutation and reflection, kernel and scheme",
     "Symmetry quantifies over all states; index mix-ups show up only for asymmetric states.",
     SOL + SF, [("tensor index conventions", H + "solvers/*.py")], ["whole step"])
prop("C30", "Saved simulation states load back identically",
     "A state written to disk and read back equals the original in every field. Loading a step returns the state last saved under exactly that step number in that directory, with the solver configuration last saved there; a step that was never saved is an error, not another state. Re-opening a directory without overwriting keeps what is in it, overwriting removes only that directory, and recorders of different directories do not affect each other.",
     ["histories"], "every history of saves, re-opened recorders and loads, every step number",
     "Which file a load reads depends on how step numbers turn into names, for all numbers and orders of saves; tests that save a few small steps cannot tell.",
     [H + "common/sim_io.py"], [("save, load and directory handling", H + "common/sim_io.py: SimIO, load_simulation")], ["SimIO", "load_simulation"])
prop("C31", "Two-grid contact conserves momentum and prevents interpenetration",
     "Contact between bodies on separate grids exchanges equal and opposite momentum, never pulls, and leaves no approach velocity.",
     ["inputs"], "every nodal state of both grids", "Inequalities over all states.", [H + "forces/gridcontact.py"], [("contact", H + "forces/gridcontact.py")], ["GridContact"])
prop("C32", "Plastic clay updates return to the yield surface consistently",
     "A plastic increment of the critical-state model (Modified Cam-Clay) with a regular solution ends on the yield surface of the new preconsolidation pressure: plastic volume strain hardens or softens along the compression line (lambda - kappa), plastic strain follows the associated flow rule, pressure and shear stress follow the elastic moduli at the new pressure, and the stored elastic strain is the stress change from the reference state over those moduli. Near the solution every pass of the iterative return shrinks the remaining error, so that all its passes together make it negligible.",
     ["inputs"], "every admissible state, increment, wet and dry of critical, and material parameters",
     "An implicit solve with exponentials in the unknowns: that its solution satisfies yield, flow and hardening for every state and material is not visible in a few printed stresses.",
     [H + "constitutive_laws/modifiedcamclay.py", H + "utils/math_helpers.py"], [("Newton return", H + "constitutive_laws/modifiedcamclay.py: _update_stress"), ("inverse of the Jacobian", H + "utils/math_helpers.py: inv_2x2_robust")], ["stress_stack", "p_c_stack", "eps_e_stack"])
prop("C33", "Internal forces do exactly the stress power and exert no torque",
     "For every state and every grid velocity field, the power of the nodal forces is that of the external particle forces on the gathered velocities minus the sum over particles of volume times stress contracted with the (compression-positive) velocity gradient the particle gathers from that field, also where the grid boundary cuts a stencil or bodies share a grid. For symmetric stresses and complete stencils the nodal forces exert exactly the torque of the external forces. The transfer to the grid keeps angular momentum, that of the affine part included, and a whole unblended step of the classic affine scheme keeps it too.",
     ["inputs"], "every particle state, stress and nodal velocity field",
     "Energy and angular-momentum balance are bilinear identities between two transfers that meet only through the grid: a wrong sign, factor, volume or index in either is not visible in sums, and simulations merely gain or lose energy.",
     SOL + SF, [("internal forces", H + "solvers/usl.py: _p2g, usl_asflip.py: _p2g"), ("velocity gradients", H + "solvers/usl.py: _g2p, usl_asflip.py: _g2p"), ("affine scatter", H + "solvers/usl_asflip.py: _p2g")], ["grid forces", "L_stack", "Bp_stack"])
prop("C34", "Filling a shape with particles yields exactly the points inside it",
     "Regular filling returns, once each and nothing else, the centres of the equal sub-cells (the smallest equal subdivision with at least the requested points per cell, scaled with the cell size) of all cells overlapping the bounds whose signed distance is negative. Random filling returns exactly those of the sampled points of the bounds that lie inside. The shape is asked in the given state or centre, by default the middle of the bounds.",
     ["inputs"], "every shape, bounds, cell size, points per cell and random draw",
     "Which candidates survive depends on data-dependent masks; a wrong spacing, shift or missing boundary cell only shows for cell sizes and bounds a test does not try.",
     [H + "utils/generate_body.py"], [("candidates and filter", H + "utils/generate_body.py: generate_particles_in_sdf")], ["generate_particles_in_sdf"])

prop("C35", "Exports show the state they were given",
     "What is written for a state (VTK files, Rerun stream) is its positions (in 2D padded with a zero, or with y flipped in Rerun's 2D view), the requested values (colours: normalised over the given or the data's range), per particle the radius of the disc or ball with its initial volume times the scale, and the time; VTK keeps one file per label and step number holding what was logged last. The domain box spans origin to end plus one cell. Extracted surfaces lie where the shape was sampled, the samples span the window, and normals belong to their surface. Inputs are not modified.",
     ["inputs", "histories"], "every state, window, shape, step number and sequence of exports",
     "Figures are never asserted on by tests; a wrong offset, radius, colour range or overwritten file only misleads whoever looks at the result.",
     [H + "common/vtk_io.py", H + "common/rerun.py"], [("exports to VTK", H + "common/vtk_io.py: VTKVisualizer"), ("exports to Rerun", H + "common/rerun.py: RerunVisualizer")], ["log_particles", "log_static_domain", "log_sdf"])

prop("C36", "A step depends on neither its place, its time nor what its solver did before",
     "Shifting grid, particles and rigid objects together by any vector, starting at another time and step number, or using a solver that has stepped other states before, leaves every result of a step the same (positions and object centres shifted, clocks advanced alike): velocities, forces, deformation, stress, material history, signed distances, surface velocities.",
     ["inputs", "histories"], "every state and motion, for shifts by whole and fractional cells",
     "Tests sit at one origin and start at time zero; an origin left out of one formula, a hidden cache or an undeclared time dependence shows only elsewhere or later.",
     [H + "solvers/usl.py", H + "solvers/usl_asflip.py", H + "grid/grid.py", H + "sdf/sdfobject.py", H + "forces"], [("step", H + "solvers/usl.py: USLSolver.__call__"), ("rigid objects", H + "sdf/sdfobject.py: SDFObjectBase"), ("grid", H + "grid/grid.py: GridDomain.create")], ["__call__", "transform_to_local"])

prop("C37", "Bodies and particles that share no grid node do not influence each other",
     "A particle evolves exactly as if every particle whose stencil shares no node with its own were absent: other cells of the same grid, outside the grid on any side, another body on the same grid, another body on a grid of its own; in either order of storage, however heavy, fast or stressed the others are, for both schemes, with gravity, damping, walls, limiters and blending. Materials treat every particle on its own.",
     ["inputs"], "every state of both particles, both orders, every side of the grid",
     "A reduction over all particles or nodes, a wrapped index or a shared cut-off looks right with the uniform bodies of a test.",
     [H + "shapefunctions/mapping.py", H + "solvers/usl.py", H + "solvers/usl_asflip.py", H + "forces"], [("node indices", H + "shapefunctions/mapping.py: ShapeFunctionMapping.compute"), ("transfers", H + "solvers/usl_asflip.py: USLAFLIP")], ["compute", "__call__"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
