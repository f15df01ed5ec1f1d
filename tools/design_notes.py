NOTES = {
"C01": ("`Layered(...)` + `set_beam_properties` run on symbolic layers; A11, B11, D11, kA55, K0 are compared with sums of closed-form integrals of E/(1-nu²)·z^k over each layer written in the harness from the layer tops and bottoms; admissibility as strict inequalities over symbolic positive inputs (Cauchy-Schwarz is proved by z3 after expansion).", "Tests compare a few totals of fixed profiles; an error that cancels for equal layers or a homogeneous slab is invisible to them."),
"C02": ("Two symbolic runs, layering with one layer split in k parts (symbolic fractions) or reversed; all slab quantities, system matrix, load vector and wedge results are compared.", "A metamorphic claim over all layerings; tests contain no such pair."),
"C03": ("thickness, centre of gravity, weight, surface and skier loads against first-principles sums; touchdown line loads after a segment call.", "Slopes of either sign, arbitrary loads; tests use one slope."),
"C04": ("power laws and plane-strain stiffnesses written in the harness with the published constants; monotonicity by comparing two densities; every database profile.", "Arbitrary density, parameters and Poisson ratio."),
"C05": ("`dz_dx` on an arbitrary state; N', V', M' are formed with the model's own section-force functions applied to the derivative and compared with equilibrium of slab plus weak layer, derived in the harness.", "A sign or lever-arm error in one of 36 matrix entries shows only for asymmetric slabs or slopes."),
"C06": ("`zh`, `zp`, `z` on a supported segment with symbolic exact eigenpairs; derivative with respect to x is taken symbolically on the code's own terms and compared with the model's system matrix; boundedness: each exponent's real part is shown ≤ 0 on the segment.", "Covers every split into real and complex eigenvalues and every segment length; tests only see those of their slabs."),
"C07": ("as C06 for unsupported segments, against free-beam equilibrium with surface load.", "Layered slab with surface load on a slope is never tested; it was wrong (fixed)."),
"C08": ("`assemble_and_solve` with symbolic stiffnesses, lengths and skier loads; `solve` returns symbols constrained by A x = b, and jumps of the evaluated fields at each joint are compared with the skier load.", "Every pattern of supports and loads for up to 5 segments."),
"C09": ("as C08 at both ends; vertical faces against the wedge's weight and lever arm integrated in the harness.", "Ends of all six systems and either slope sign."),
"C10": ("wedge helper against exact integrals over the layered triangle.", "Layered wedges with symbolic slope; the horizontal centre was wrong (fixed)."),
"C11": ("segment lists from `calc_segments` with symbolic L, a, m.", "Every 0 ≤ a ≤ L instead of one pair."),
"C12": ("`rasterize_solution` with symbolic segment lengths; the code's own integer split of samples over the segments forks into every case; columns compared with `z` at the reported coordinate.", "Every split of samples including zero-length segments and adjoining cracks."),
"C13": ("`gdif`, `Gi`, `Gii` against sigma²/2kn, tau²/2kt of the model's stresses with the tip weights from the statement.", "Every support pattern; tests use one crack."),
"C14": ("`ginc` with an exact `quad`; harness integrates the same product of fields with the same contract; the non-negativity case fixes cracked = uncracked.", "All patterns of segments losing support; the sign of mode II was wrong (fixed)."),
"C15": ("stress routines on the code's own mesh with symbolic layering; bottom and top values and section-force integrals, with a discretisation-error bound proved as an inequality.", "For every layering and state."),
"C16": ("principal stresses against trace/determinant of the tensor (eigenvalues), units and normalisation.", "For every state; normalised weak-layer value depended on the unit (fixed)."),
"C17": ("output routines on arbitrary states and NaN patterns.", "Every unit × location × NaN pattern."),
"C18": ("threshold functions with `brentq` contract; the root's equation is compared with the deflection/slope of a spring-supported overhang derived in the harness; springs by solving the unit-load system.", "Nothing in the tests enables touchdown."),
"C19": ("stage selection with arbitrary thresholds; contact conditions of the solved slab. Replays place the crack at the same distance from the real thresholds.", "Stages B and C are never executed by tests."),
"C20": ("two models, one with a history, one new, from the same symbols; every public quantity compared; snapshots before and after each query. `restage` changes one input (L, a, phi, cf, ratio, surface load, weak-layer thickness) between two segment calls, `springs` does so for substitute springs, `edited`/`anew` change one of 22 inputs (or build a second model) after full use. The reference model lives in a package of its own, loaded after the history, so state kept on classes or modules shows too; where a history makes two inputs equal, equal to the other's negative or equal after rounding, that side is a path of its own.", "Stale state shows only in sequences, and a cache keyed too coarsely only for particular pairs of values."),
"C21": ("pairs of models/entry points from the same symbols.", "Inverse model and array profiles had never been exercised (three fixes)."),
"C22": ("two symbolic runs, mirrored; equations, fields, lists and conditions compared under the mirror map.", "Left-cut systems in contact are untested."),
"C23": ("mesh on symbolic layering and spacing; the number of elements per layer forks.", "Every thickness/spacing ratio in the bound."),
"C24": ("every list of segments/supports/loads up to the bound, every system type, and listed wrong names: raises exactly when ill-posed.", "Combinatorial; also requires that well-posed requests are answered."),
"C25": ("plot functions drawing on the recorder with arbitrary arrays; recorded curves, spans and lines compared with the quantities.", "Plots are not tested at all; FEA plots crashed (fixed)."),
"C26": ("three solved systems with loads 1, 2 and their combination, one set of stiffnesses.", "Needs any two load sets on any slope."),
"C27": ("both potentials on an arbitrary raster in every contact stage against forces times strains and loads times displacements.", "Untested; the concrete runs also compare work and energy of free PSTs (Clapeyron), which showed four defects (fixed)."),
}
