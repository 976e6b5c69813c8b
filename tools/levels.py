TECH_DEFAULT = 'contracts on the real functions: verification conditions generated from the source of /repo on every run, loop invariants inferred, discharged by z3 and cvc5; runtime contracts (bounded) for the C++ counterparts and for failing inputs'
TECH = {}
LEVEL = {k: 'proof' for k in 'S01 M01 M02 M03 M04 B01 B02 G01 G02 D01 F01 T01 H01 C01 R01 O01'.split()}
_C = ' Bounded, not proved: the C++ counterparts, run as rebuilt modules against the same contracts on generated inputs.'
_R = ' Floating-point numbers are treated as real numbers.'
NOTE_DEFAULT = 'Proved for the Python functions listed in the evidence, for all inputs and any number of iterations, function by function against contracts of the callees.' + _R
NOTE = {
    'S01': 'Proved: every operation of the Python storage class, for every segment length, against a sequence model.' + _C,
    'M01': 'Proved: the Python movers and the species loops, any number of particles, segment length and deletion pattern.' + _C,
    'M02': 'Proved: the Python movers (all coordinate systems; the field configurations listed in the evidence).' + _R + _C,
    'M03': 'Proved: the cell-to-cell loop of the Python movers, from the contracts of the facet search and the inside test.' + _R + _C,
    'M04': 'Proved: the Python facet search for every non-degenerate simplex in 1D, 2D and 3D.' + _R + _C,
    'B01': 'Proved: the call at a crossing in the Python movers and the table of functions for any boundaries, species and user functions.' + _C,
    'B02': 'Proved: the Python boundary functions shipped with the repository.' + _R + _C,
    'G01': 'Proved: the Python dictionaries hold the mesh library\'s data of the right cell, facet and component; the library\'s own data is checked at run time (bounded).' + _C,
    'G02': 'Proved: cell location, the inside test and the initial assignment, relative to the mesh library\'s point-in-cell test.' + _C,
    'D01': 'Proved: the Python deposition functions and loops.' + _R + _C,
    'F01': 'Proved: field operations and interpolation to particles in Python.' + _R + _C,
    'T01': 'Proved: trajectory upkeep in the Python movers and the record functions.' + _C,
    'H01': 'Proved: the diagnostics sums and the history records.' + _R,
    'C01': 'Proved: list loading, Maxwellian loading, due dates of sources.' + _R,
    'R01': 'Proved: the region classes.' + _R,
    'O01': 'Proved: buffer slots, group numbering and parameter checks of the particle output.',
}
