"""Per-property level, explanation and extra assumptions (used by evidence and MANIFEST)."""
TECH = "function contracts on /repo's C sources, verified deductively by symbolic execution + SMT (z3); bounded runtime contracts for wrappers"
LEVEL = {
    "C01": ("proof", "index/address conversion kernels discharged for all mesh sizes; listing through the Python grid class on bounded inputs"),
    "C02": ("proof", "every function of c/snf3x3.c and recgrid_get_snf3x3 discharged for all integer matrices (given that the two loops end before their iteration limits); the Python grid class on generated matrices (bounded)"),
    "C03": ("exploration", "orbit-partition contract evaluated on the compiled code and the Python API on generated meshes and rotation groups (bounded)"),
    "C04": ("exploration", "zone-grid contract evaluated on the compiled code and the Python grid class on generated lattices and meshes (bounded)"),
    "C05": ("exploration", "triplet contract evaluated on the compiled code and the Python API on generated groups and meshes (bounded)"),
    "C18": ("exploration", "reciprocal point-group contract evaluated on the compiled code and the Python API on generated groups and grids (bounded)"),
    "C08": ("proof", "full permutation symmetrization and the exchange of the last two compact indices discharged for all sizes; compact symmetrization and exchanges with the first index are bounded runtime contracts (not counted as proved)"),
    "C09": ("proof", "distribution and solution kernels discharged for all sizes; wrappers checked on bounded inputs"),
    "C11": ("proof", "contracts on the interaction-strength kernels discharged for all sizes; compiled functions checked against the same contracts on bounded inputs"),
    "C12": ("proof", "contracts on the self-energy kernels discharged for all sizes; compiled functions and Python wrappers checked against the same contracts on bounded inputs"),
    "C13": ("proof", "contracts on the collision-matrix kernels discharged for all sizes; compiled functions checked against the same contracts on bounded inputs"),
    "C14": ("proof", "contracts on the isotope kernels discharged for all sizes; compiled functions checked against the same contracts on bounded inputs"),
    "C15": ("proof", "contracts on the real self-energy kernels discharged for all sizes; compiled functions checked against the same contracts on bounded inputs"),
}
LEVEL.update({
    "C06": ("proof", "the weight of a generic tetrahedron discharged for all real vertex values and frequencies on every path of thm_get_integration_weight (rational-function identities with the defining integral; lemmas for sign, bounds, continuity, order); the Python callers on generated inputs (bounded)"),
    "C07": ("proof", "triplet weights equal their delta functions for all sizes given the contracts of the neighbour search and the tetrahedron weight, which are bounded"),
    "C10": ("proof", "dynamical-matrix kernels and the grid driver without correction discharged for all sizes; the drivers with correction are bounded runtime contracts"),
    "C16": ("proof", "every parallel loop of the functions under contract: different iterations use different cells, for all sizes; the remaining parallel loops run under ThreadSanitizer on bounded inputs"),
    "C17": ("proof", "array bounds, frame, initialisation and release obligations of the functions under contract for all sizes; the remaining functions run under AddressSanitizer on bounded inputs"),
})
LEVEL.update({
    "C19": ("exploration", "cumulative and density spectra of the Python classes against an independent tetrahedron reference on generated meshes and values (bounded)"),
    "C20": ("proof", "identities discharged on the symbolically executed Python source for all frequencies, temperatures and numbers of bands; numerical accuracy on generated inputs (bounded)"),
    "C21": ("exploration", "displacement datasets, their supercells and their files on generated crystals, cutoffs and forces (bounded)"),
    "C22": ("exploration", "files written and read back with generated contents, names and options (bounded)"),
    "C24": ("exploration", "conductivity classes evaluated on generated crystals against the mode sum and across symmetry reductions (bounded)"),
    "C25": ("exploration", "generated request histories compared with fresh objects (bounded)"),
})
ASSUME = {"C06": ["vf/pathex.py: C semantics of the executed subset on exact real numbers (doubles treated as mathematical); sympy polynomial arithmetic and z3 as provers",
                  "frequencies at least 1e-10 away from every vertex value (the code cuts off below that)",
                  "the sum over the 24 tetrahedra is taken pass by pass (loop invariant); the shape of the loop is checked"],
          "C02": ["vf/pathex.py: C semantics of the executed subset on integer polynomials; sympy Groebner reduction and z3 as provers",
                  "extended_gcd ends within its 1000 iterations and snf3x3 within its 100 (the remainder is proved to decrease; the number of rounds is checked on bounded inputs only)"],
          "C20": ["vf/pysym.py: Python semantics of the executed subset (real arithmetic, loops over array indices executed for one arbitrary index), sympy term arithmetic and limits, z3 nlsat",
                  "imported physical constants are positive unknowns; phonopy's mode_cv is executed from its installed source"]}
NA = {}
