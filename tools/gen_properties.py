#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

EIG, MIX, TOOL = "weac/eigensystem.py", "weac/mixins.py", "weac/tools.py"
LAY, INV, PLT = "weac/layered.py", "weac/inverse.py", "weac/plot.py"

prop("C01", "Slab stiffnesses are the exact laminate integrals and admissible",
 "For every slab of positive layer thicknesses, densities and Poisson ratio below 1/2, the extensional, coupling, bending and shear stiffness of the model equal the through-thickness integrals of E/(1-nu^2), z*E/(1-nu^2), z^2*E/(1-nu^2) and 5/6*G over all layers about the slab mid-plane. They are thermodynamically admissible (A11 > 0, D11 > 0, kA55 > 0, A11*D11 > B11^2), the characteristic stiffness K0 is B11^2 - A11*D11, and a homogeneous slab has B11 = 0.",
 ["inputs", "configurations"], "every number of layers up to the bound, all thicknesses, densities, moduli and Poisson ratios",
 "The tests only assert that the slab matrix has as many rows as layers; no test reads a stiffness value.",
 [EIG], [("layer-wise integration", EIG+":calc_laminate_stiffness_matrix"), ("ply coordinates", EIG+":get_ply_coordinates")],
 [("A11,B11,D11,kA55,K0", "laminate stiffnesses", EIG)], ["attributes A11, B11, D11, kA55, K0 of a model after construction or update"])

prop("C02", "Splitting or flipping layers changes nothing but orientation",
 "Describing one physical layer as several adjacent sub-layers of the same density leaves every slab quantity unchanged: thickness, center of gravity, all stiffnesses, weight load, the ODE system matrix and load vector, and the weight and center of gravity of vertical-face wedges. Reversing the layer order negates the center of gravity and the coupling stiffness and leaves thickness, weight load and the other stiffnesses unchanged.",
 ["inputs", "configurations"], "all profiles up to the layer bound, every split position, all slopes and surface loads",
 "Needs pairs of runs over all profiles; tests use one or three fixed layers and never compare two models.",
 [EIG, TOOL], [("center of gravity", TOOL+":calc_center_of_gravity"), ("laminate", EIG+":calc_laminate_stiffness_matrix"), ("wedge", TOOL+":calc_vertical_bc_center_of_gravity")],
 [], ["model attributes h, zs, A11, B11, D11, kA55, K0; get_weight_load; calc_system_matrix; get_load_vector"])

prop("C03", "Slab geometry and loads follow mass, gravity and slope",
 "The slab thickness is the sum of layer thicknesses and the center of gravity is the mass-weighted mean layer mid-depth, strictly inside the slab. Weight, surface and skier loads have magnitudes sum(rho*g*h), p and m*g/lski (in N/mm resp. N) and are split into a normal part F*cos(phi) and a tangential part -F*sin(phi); the touchdown line loads are the sum of weight and surface load at the slope given to the segment calculation.",
 ["inputs", "configurations"], "all profiles up to the layer bound, all slopes, surface loads and skier masses (scalars or sequences)",
 "No test asserts a load, a center of gravity or their sign; all tests but one use phi = 0.",
 [EIG, TOOL, MIX], [("weight load", EIG+":get_weight_load"), ("surface load", EIG+":get_surface_load"), ("skier load", EIG+":get_skier_load"), ("center of gravity", TOOL+":calc_center_of_gravity"), ("touchdown loads", MIX+":calc_qn, calc_qt")],
 [], ["h, zs, get_weight_load, get_surface_load, get_skier_load, calc_qn, calc_qt"])

prop("C04", "Elastic properties follow the documented parametrisations",
 "Each slab layer gets Young's modulus C0*1e3*(rho/917)^C1 MPa (Bergfeld) from its own density, shear modulus E/(2(1+nu)) and the given Poisson ratio, in top-to-bottom order, and the modulus is positive and strictly increases with density; database profiles carry their tabulated layers and moduli. The weak layer's stiffnesses are the plane-strain values kn = E/((1-nu^2)t) and kt = E/(2(1+nu)t), both positive. The helper parametrisations (Gerling, Scapozza, tensile strength) evaluate to their published power laws in the documented units.",
 ["inputs", "configurations"], "all densities, parameters C0, C1, nu, E, t and all named database profiles",
 "Tests check Bergfeld at four densities for sign and monotonicity, and nothing about foundation stiffness values.",
 [EIG, TOOL], [("parametrisation", TOOL+":bergfeld, gerling, scapozza, tensile_strength_slab"), ("slab matrix", EIG+":set_beam_properties"), ("foundation", EIG+":calc_foundation_stiffness"), ("database", TOOL+":load_dummy_profile")],
 [], ["slab attribute, kn, kt, return values of the helpers"])

prop("C05", "The governing ODE is the static equilibrium of slab and weak layer",
 "For every state of a supported slab, the first derivative the model assigns to the solution vector balances forces and moments: N' = tau - (qt+pt), V' = -sigma - (qn+pn) and M' = V + tau*(h+t)/2 - qt*zs + pt*h/2, with N, M, V, tau, sigma as the model itself reports them, and the derivatives of u, w, psi are the vector's own second, fourth and sixth entries. The second derivative is the derivative of the first.",
 ["inputs", "configurations"], "all solution vectors, slab and weak-layer properties, slopes and surface loads",
 "No test evaluates the system matrix, the load vector or any derivative field; equilibrium couples several modules over all states.",
 [EIG, MIX], [("system matrix", EIG+":calc_system_matrix"), ("load vector", EIG+":get_load_vector"), ("derivatives", MIX+":dz_dx, dz_dxdx, du0_dxdx, dpsi_dxdx, du0_dxdxdx, dpsi_dxdxdx"), ("section forces", MIX+":N, M, V, sig, tau")],
 [], ["dz_dx, dz_dxdx, du0_dxdx, ..., N, M, V, sig, tau"])

prop("C06", "Supported-segment solutions satisfy the ODE and never blow up",
 "For any free constants, the solution the model evaluates on a supported segment satisfies the governing ODE at every position, for every possible split of the eigenvalues into real and complex-conjugate ones. The particular integral alone satisfies the loaded ODE. Every basis function stays bounded by its eigenvector over the whole segment whatever the segment length (no exponential growth).",
 ["inputs", "configurations"], "all positions 0<=x<=l, lengths, constants, slopes, loads and all eigenvalue patterns an eigen-solver may return in any order",
 "Tests only check the shape of the constants; eigen-patterns and long segments are never exercised.",
 [EIG], [("eigen classification", EIG+":calc_eigensystem"), ("complementary solution", EIG+":zh"), ("particular integral", EIG+":zp"), ("superposition", EIG+":z")],
 [("ewC,ewR,evC,evR,sC,sR", "eigen-decomposition and stability shifts", EIG)], ["z, zh, zp (bed=True)"])

prop("C07", "Unsupported-segment solutions satisfy free-beam equilibrium",
 "For any free constants, the solution on an unsupported segment satisfies equilibrium of the slab without weak layer at every position: N' = -(qt+pt), V' = -(qn+pn), M' = V - qt*zs + pt*h/2, and its entries are consistent derivatives of u, w and psi. This includes layered (asymmetric) slabs under surface load on a slope.",
 ["inputs", "configurations"], "all positions, constants, slabs, slopes, weight and surface loads",
 "No test looks at a field value on an unsupported segment, and no test uses a surface load.",
 [EIG], [("polynomial complementary solution", EIG+":zh"), ("particular integral", EIG+":zp")],
 [], ["z, zh, zp (bed=False), N, M, V"])

prop("C08", "Segments join continuously and point loads enter exactly once",
 "In every solved assembly, u, w and psi are continuous across each segment boundary, and N, M, V jump there exactly by the skier load: N by -Ft, V by -Fn and M by +Ft*h/2 for the skier standing at that boundary (zero without skier). This holds for every sequence of supported and unsupported segments and every load distribution.",
 ["inputs", "configurations"], "all segment lengths, support patterns, skier weights, slopes, slabs, up to the segment bound",
 "The tests assert the shape (6, 2) of the constants for one PST; no skier assembly is ever solved.",
 [MIX], [("assembly", MIX+":assemble_and_solve"), ("transmission equations", MIX+":eqs"), ("skier load", EIG+":get_skier_load")],
 [("zh0, zp0, rhs", "linear system", MIX+":assemble_and_solve")], ["assemble_and_solve, z, u, w, psi, N, M, V at both sides of every boundary"])

prop("C09", "Each system type gets its documented end conditions",
 "Solved PSTs with slope-normal faces have stress-free ends (N = M = V = 0), vertical-face PSTs carry at both ends exactly the section forces of the triangular wedge that is cut off or added, and skier systems have the undisturbed infinite-slab state (u, w, psi of the particular integral) at both ends. Cutting from the left or the right only decides which end is unsupported.",
 ["inputs", "configurations"], "all systems, slopes (both signs and zero), layerings, surface loads, lengths and crack lengths",
 "No test evaluates an end section force or displacement of any solved system.",
 [MIX, TOOL], [("boundary conditions", MIX+":bc, eqs"), ("right-hand side", MIX+":assemble_and_solve"), ("wedge", TOOL+":calc_vertical_bc_center_of_gravity")],
 [], ["assemble_and_solve + z at both ends"])

prop("C10", "Vertical-face wedge: exact weight and center of gravity",
 "For every layered slab and slope, the triangular wedge between a slope-normal and a vertical face has the reported weight sum over layers of rho times the cross-section area, and its reported center of gravity is the mass centroid of that layered triangle in both directions. Weight and horizontal offset change sign with the slope; both vanish on flat terrain.",
 ["inputs"], "all layer densities and thicknesses up to the layer bound and all slopes",
 "The helper and the vertical-face systems are not exercised by any test.",
 [TOOL], [("wedge integration", TOOL+":calc_vertical_bc_center_of_gravity")], [], ["calc_vertical_bc_center_of_gravity"])

prop("C11", "Segment lists tile the specimen and encode crack and skier",
 "For every length L and crack 0 <= a <= L, without touchdown the segments are non-negative, sum to L, and exactly a of it is unsupported in the cracked and none in the uncracked configuration; the crack lies at the side named by the PST type, and for a skier it is centred below the one skier load. List lengths always match (one support flag per segment, one load per inner boundary), multi-skier input is passed through unchanged, and with touchdown only the overhanging part of a flat-faced PST's crack is kept as segment (vertical-faced ones keep it all).",
 ["inputs", "configurations"], "all L, a, m, phi, all system types, touchdown on or off",
 "Tests sample one length/crack pair for three of six systems.",
 [MIX], [("segment assembly", MIX+":calc_segments")], [], ["calc_segments"])

prop("C12", "Rasterised solution samples the true solution on an ordered grid",
 "The rasterised x-coordinates start at 0, end at the total length, never decrease, and hit every segment boundary; each solution column equals the segment solution at that coordinate. A coordinate is reported as supported exactly if it lies on a supported segment or at its boundary (crack tips included), all others are NaN; zero-length segments contribute nothing.",
 ["inputs", "configurations"], "all segment lengths (including zero), support patterns and grid sizes up to the bound",
 "One uniform PST raster is checked for shape and range only.",
 [MIX], [("raster", MIX+":rasterize_solution")], [], ["rasterize_solution"])

prop("C13", "Differential energy release rates are energetically consistent",
 "Mode I and II rates at a crack tip equal sigma^2/(2 kn) and tau^2/(2 kt) of the weak-layer stresses there, hence are never negative and scale with the unit (1 kJ/m^2 = 1000 J/m^2 = 1 N/mm). The total over a configuration is mode I plus mode II, sums all and only transitions between supported and unsupported segments, and weights each tip by one half unless the crack reaches a free end or there is only one tip.",
 ["inputs", "configurations"], "all states, support patterns up to the segment bound, units",
 "One single-tip PST at phi = 0 is checked for length 3 and non-negative mode II.",
 [MIX], [("tip detection and weighting", MIX+":gdif"), ("rates", MIX+":Gi, Gii")], [], ["gdif, Gi, Gii"])

prop("C14", "Incremental energy release rate is the crack-opening work",
 "The incremental energy release rate equals the work of the uncracked weak-layer tractions on the crack-face displacements of the cracked state, divided by twice the new crack length: mode I from normal stress and deflection, mode II from shear stress and sliding with the same sign convention, total = I + II. Only segments that lose support count; when the cracked field coincides with the uncracked one, it is the mean of sigma^2/(2 kn) and tau^2/(2 kt), hence non-negative in both modes.",
 ["inputs", "configurations"], "all pairs of fields, support patterns up to the segment bound, slopes",
 "One PST at phi = 0 is checked, where the mode II part is identically zero.",
 [MIX], [("crack opening integral", MIX+":ginc, int1, int2"), ("weak-layer strains", MIX+":eps, gamma")], [], ["ginc, int1, int2, eps, gamma"])

prop("C15", "Slab stress fields carry the section forces and meet the weak layer",
 "At every supported position the shear stress at the slab bottom equals the weak-layer shear stress and the transverse normal stress there equals the weak-layer normal stress minus t/2 times the gradient of the shear stress (equilibrium of the weak layer's upper half), both vanish at the free surface (no surface load), and the axial stress integrates over the thickness to N with first moment M, up to the mesh-size error (at most the slab's tangential weight times one mesh spacing for the axial stress, second order in the spacing for the transverse one). Units kPa and MPa differ by exactly 1000.",
 ["inputs", "configurations"], "all states, layerings up to the bound, slopes, mesh spacings up to the grid bound",
 "No test evaluates a slab stress; the identity couples four routines over all states.",
 [MIX], [("stress integration", MIX+":Sxx, Txz, Szz"), ("mesh", MIX+":get_zmesh")], [], ["Sxx, Txz, Szz, sig, tau, N, M"])

prop("C16", "Principal stresses are the stress tensor's eigenvalues",
 "Maximum and minimum principal stress, in slab and weak layer, are the larger and smaller eigenvalue of the plane stress tensor built from the model's own stress components, in the requested unit. Normalised values are the ratio to the strength (slab: layer tensile strength from the layer's own density; weak layer: given compressive strength in kPa) and do not depend on the stress unit; normalising the wrong component or asking for an unknown one raises ValueError.",
 ["inputs", "configurations"], "all states, layerings, slopes, units, components, strengths",
 "No test calls the principal stress routines directly.",
 [MIX, TOOL], [("principal stresses", MIX+":principal_stress_slab, principal_stress_weaklayer"), ("strength", TOOL+":tensile_strength_slab")], [], ["principal_stress_slab, principal_stress_weaklayer"])

prop("C17", "Output quantities agree across routines and units",
 "Displacements, rotations, stresses and strains are the documented linear functions of the solution vector: u(z0) = u0 + z0*psi, sigma = kn*t*eps, tau proportional to the weak-layer shear strain by kt*t in magnitude, top/mid/bottom displacements at -h/2, 0, h/2. Changing the unit multiplies by the exact conversion factor (mm/cm/m/um, rad/deg, MPa/kPa), coordinates are returned in cm, and weak-layer stresses are NaN or removed exactly at unsupported coordinates, without modifying the inputs.",
 ["inputs", "configurations"], "all solution vectors, model parameters, units, locations and support masks up to the bound",
 "Tests check w and psi for one constant vector and two units.",
 [MIX], [("field quantities", MIX+":FieldQuantitiesMixin"), ("output lists", MIX+":OutputMixin")], [], ["w, u, psi, sig, tau, eps, gamma, du_dx, N, M, V, get_*"])

prop("C18", "Touchdown lengths are the physical contact thresholds",
 "At the first-contact crack length, the overhanging slab on its substitute springs (normal loads only) sags at its free end by exactly the available collapse height; at the full-contact length it additionally lands with zero slope, as does the overhang length in full contact with the rotational spring of the rested part. The substitute springs are the reciprocal displacement or rotation under a unit load and depend only on slab, foundation and length, not on weight or surface loads.",
 ["inputs", "configurations"], "all slabs, spring stiffnesses, loads, crack heights and lengths",
 "No test enables touchdown.",
 [MIX], [("thresholds", MIX+":calc_a1, calc_a2, calc_lC"), ("springs", MIX+":substitute_stiffness"), ("collapse height", MIX+":set_tc")], [], ["calc_a1, calc_a2, calc_lC, substitute_stiffness"])

prop("C19", "Touchdown stages partition crack lengths and set contact conditions",
 "With touchdown enabled a PST crack is in stage A up to the first-contact length, in B up to the full-contact length and in C beyond, with overhang a in A and B and the computed touchdown length in C; without touchdown it is always A. The solved slab then has a free end in A, deflection equal to the collapse height and no moment in B, and in C the same deflection, the rested part's rotational spring moment opposing the rotation, and the rested part's tangential weight as normal force, mirrored for cuts from the left. Vertical-face PSTs keep their wedge end forces.",
 ["inputs", "configurations"], "all crack lengths, slabs, slopes, stages and both cut directions",
 "No test enables touchdown, so stages B and C are never executed.",
 [MIX], [("stage selection", MIX+":calc_touchdown_mode, calc_touchdown_length"), ("contact conditions", MIX+":bc, assemble_and_solve")],
 [("mode, td, tc, a", "touchdown stage, overhang, collapse height, crack length", MIX)], ["mode, td, assemble_and_solve + z at the cut end"])

prop("C20", "Results depend on the current inputs only, not on call history",
 "After any sequence of property changes with update and of queries, a model is indistinguishable from a new one built with the final properties. Queries (segments with or without touchdown, solving, rasterising, stresses, energy release rates) neither change the model's material and foundation properties, eigen-system or system type nor modify the arrays passed to them, and repeating a query repeats its result.",
 ["histories", "inputs"], "all sequences of setters and queries up to the history bound with arbitrary arguments",
 "Tests build one model per case and never compare a re-parametrised model with a fresh one.",
 [EIG, MIX, LAY], [("update", EIG+":set_beam_properties, set_foundation_properties, calc_fundamental_system"), ("temporary substitution", MIX+":substitute_stiffness")],
 [("kn, kt, system, ew*, ev*", "temporarily replaced during touchdown evaluation", MIX+":substitute_stiffness")], ["all model attributes and outputs before and after"])

prop("C21", "Equivalent inputs and entry points give the same model",
 "The inverse model built from layers and fitting parameters (C0, C1, E) yields the same slab, foundation, segments, solutions and outputs as the standard model configured with these parameters, for every system type. Profiles given as list, tuple rows or array are equivalent, and the default profile is one layer [240, 200]; this includes the touchdown-distance helper. Whole numbers and floats, and short and long names of a segment's position, are equivalent.",
 ["inputs", "configurations"], "all layerings up to the bound, parameters, systems and input representations",
 "The inverse model is never instantiated in the tests.",
 [INV, LAY, TOOL, EIG], [("inverse model", INV+":Inverse"), ("standard model", LAY+":Layered"), ("helper", TOOL+":touchdown_distance")], [], ["constructors, calc_segments, assemble_and_solve, touchdown_distance"])

prop("C22", "Mirroring the experiment mirrors the solution",
 "A PST cut from the left at slope -phi is the mirror image of the PST cut from the right at slope phi: with u, w', psi, x and the tangential loads changing sign and the rest kept, every governing equation, free-segment field, segment list, transmission, end and contact condition maps onto its counterpart. The same holds for reversing a skier assembly and negating the slope.",
 ["inputs", "configurations"], "all slabs, slopes, loads, systems and assemblies up to the segment bound",
 "Relates two runs of different system types over all inputs; no test compares the two cut directions.",
 [EIG, MIX], [("ODE", EIG+":calc_system_matrix, get_load_vector"), ("free solution", EIG+":zh, zp"), ("assembly", MIX+":assemble_and_solve, eqs, bc, calc_segments")], [], ["dz_dx, calc_segments, assemble_and_solve"])

prop("C23", "The through-thickness mesh covers each layer with its own properties",
 "For every layering and spacing dz > 0 the mesh runs from -h/2 to h/2 without decreasing, contains top and bottom of every layer, steps by at most dz within a layer, and each point carries modulus, Poisson ratio and density of the layer it belongs to.",
 ["inputs"], "all thicknesses, spacings and properties up to the grid bound",
 "Not exercised directly by any test.",
 [MIX, EIG], [("mesh", MIX+":get_zmesh"), ("ply coordinates", EIG+":get_ply_coordinates")], [], ["get_zmesh, get_ply_coordinates"])

prop("C24", "Ill-posed requests are rejected instead of silently answered",
 "Solving raises ValueError when no segment is supported, when the numbers of segments, supports and loads do not match, when a skier system has an unsupported end segment, or when the system type is unknown; segment calculation raises ValueError for unknown systems, and unknown profiles, stress components, positions and plot fields are rejected. A rejected request leaves the model and its arguments as they were. Well-posed requests never raise these errors.",
 ["inputs", "configurations"], "all support patterns, list lengths up to the bound and system names",
 "No test provokes an error.",
 [MIX, TOOL, PLT], [("validation", MIX+":assemble_and_solve, bc, eqs, calc_segments, principal_stress_*"), ("profile database", TOOL+":load_dummy_profile"), ("field selection", PLT+":deformed")], [], ["raised exceptions"])

prop("C25", "Plots show the model's own quantities at the right places",
 "The displacement, section-force, stress, criterion and energy-release-rate plots draw the curves of the model's outputs in the stated units against x in cm, cracks are shaded exactly along unsupported segments and load lines stand at skier positions. Without segment lists nothing is marked; the finite-element comparison plots show the model's curves next to the reference data. The deformed contour plot draws the slab at position plus scaled displacement with the requested field on the through-thickness mesh, and the profile plot shows each layer's density over its height above the weak layer.",
 ["inputs", "configurations"], "all fields, segment lists and solution values up to the grid bound",
 "Tests only check that a png file appears.",
 [PLT], [("curves", PLT+":plot_data, displacements, section_forces, stresses, err_comp, err_modes"), ("contour", PLT+":deformed, outline"), ("profile", PLT+":slab_profile")], [], ["arguments of the drawing calls"])

prop("C26", "Responses superpose linearly in the loads",
 "For fixed geometry the solved fields are linear in the loads: the response to combined skier weights, surface load and slab weight is the sum of the separate responses, at every slope, for every system without contact. Scaling all loads scales all displacements, section forces and stresses by the same factor and energy release rates by its square.",
 ["inputs", "configurations"], "all load combinations, assemblies up to the segment bound, slopes",
 "Relates several solves over all loads; tests solve a single load case.",
 [MIX, EIG], [("assembly", MIX+":assemble_and_solve"), ("loads", EIG+":get_weight_load, get_surface_load, get_skier_load")], [], ["assemble_and_solve, z, gdif"])

prop("C27", "Potential energies are strain energy and work of the loads",
 "For a PST the internal potential is the strain energy of its solution: coupled stretching, bending and shear of the slab, the weak layer's normal and shear stresses over the supported length, and the rotational contact spring in stage C. The external potential is minus the work of the loads, slab weight at its center of gravity and surface load at the top face, including the part resting on the collapsed weak layer. The total potential is their sum. All lengths count fully; densities are averaged over the rasterised solution.",
 ["inputs", "configurations"], "all solution vectors, stiffnesses, loads and contact stages, rasters up to the sample bound",
 "Needs the energies of arbitrary solutions; the potentials are not tested at all.",
 [MIX], [("potentials", MIX+":internal_potential, external_potential, total_potential")], [], ["total_potential"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P))
