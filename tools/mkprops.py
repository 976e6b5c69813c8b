#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (kept as code so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe], hook_needed=None)))
PM, SM, DM, RM, DT = 'Particle_Module.py', 'SegmentedArrayPair_Module.py', 'Dolfin_Module.py', 'RecordedData_Module.py', 'DT_Module.py'
CX = ['cpp/advance_charged_species_in_E_field_cartesian_x.cpp', 'cpp/advance_charged_species_in_E_field_cartesian_xy.cpp', 'cpp/advance_charged_species_in_E_field_spherical_r.cpp']
CN = ['cpp/advance_neutral_species_cartesian_xy.cpp', 'cpp/advance_neutral_species_cartesian_xyz.cpp']
CU = ['cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp']

p('S01', 'Segmented particle storage behaves as one growing sequence',
  'Particle storage made of fixed-length segments behaves as a single sequence: for any segment length and any interleaving of appends, indexed reads, segment-by-segment traversals and in/out updates, an appended particle keeps its index and value and no other stored particle changes. The reported particle, segment and capacity counts always agree with that sequence, a full traversal yields exactly the stored particles in order, and an update pass that writes n particles leaves exactly those n. Both the Python and the C++ storage give the same results, including after the storage has been emptied.',
  ['histories', 'inputs'], 'every segment length >= 1, every number of particles, every sequence of storage operations allowed by the in/out protocol',
  'tests use one segment length and counts that straddle one or two segment boundaries; the index arithmetic must hold at every boundary and after every history',
  [SM, 'cpp/SegmentedArrayPair.h'],
  [('append and its index', SM + ' push_back / cpp SegmentedArrayPair.h push_back'), ('full index <-> segment, offset', SM + ' get_segment_and_offset'), ('traversal', SM + ' init_out_loop/init_inout_loop/get_next_segment/get_next_out_segment'), ('counts', SM + ' get_number_of_items/get_number_of_segments/get_capacity/set_number_of_items')],
  'sap methods: return values and the segment views they hand out')

p('M01', 'An advance never loses, duplicates, reorders or resurrects particles',
  'After one advance of a species, the stored particles are exactly the particles that were stored before and were not flagged for deletion during the step, each once and in the same order, and the reported count equals their number. Particles flagged for deletion do not reappear, and the other species are untouched. This holds for every particle count, segment length and pattern of deletions, in the Python and in the C++ movers.',
  ['inputs', 'histories'], 'every number of particles including 0 and exact multiples of the segment length, every set of deleted particles, every mover',
  'the compaction bookkeeping has distinct cases at each segment boundary and deletion pattern; tests delete a handful of particles in short arrays',
  [PM] + CX + CN + CU + ['cpp/SegmentedArrayPair.h', SM],
  [('charged mover', PM + ' advance_charged_species_in_E_field, move_particles_in_electrostatic_field'), ('neutral mover', PM + ' advance_neutral_species'), ('uniform-field mover', PM + ' advance_charged_species_in_uniform_fields'), ('C++ movers', 'cpp/advance_*.cpp')],
  'contents of the storage of the species before and after the advance')

p('M02', 'Particle motion follows the equations of motion and nothing else changes',
  'In one step without boundary events, a charged particle\'s velocity changes by charge/mass times the sum of the applied field contributions at its position times dt, and every position coordinate changes by the new velocity times dt (unless only acceleration is requested); a neutral particle moves in a straight line with its velocity unchanged. A field that is absent or switched off for a species contributes nothing, and weight and identity never change. The result for one particle does not depend on the other particles, nor on where it sits in storage, and the Python and C++ movers agree.',
  ['inputs', 'configurations'], 'all positions, velocities, weights, charges, masses, time steps, field values and on/off choices of the fields, at every storage position',
  'tests compare a few particles with tabulated numbers; the relation must hold per component for all values and for the last particle of every segment',
  [PM] + CX + CN + CU,
  [('acceleration and move', PM + ' advance_charged_species_in_E_field'), ('neutral move', PM + ' advance_neutral_species'), ('uniform fields', PM + ' advance_charged_species_in_uniform_fields'), ('field selection per species', PM + ' advance_charged_species_in_E_field: apply_solved_electric_field / apply_random_external_electric_field')],
  'stored velocity and position before and after an advance')

p('M03', 'A surviving particle always knows the cell that contains it',
  'After an advance, every particle still stored lies inside the mesh cell whose index is recorded with it, for any displacement, number of cells crossed and mix of open facets and boundary facets along its path. A particle that would leave the mesh through a facet without a boundary condition is stopped with a diagnosed error or removed, never left with a stale or non-existent cell. A particle that exceeds the permitted number of facet crossings is reported rather than silently kept.',
  ['inputs', 'configurations'], 'all meshes, all start cells, all displacements (including paths across many cells), all boundary outcomes',
  'each test follows one or two chosen paths on one mesh; the cell update is a loop whose iteration count depends on the input',
  [PM] + CX + CN + [DM, 'cpp/dolfin_functions.cpp'],
  [('cell-to-cell loop', PM + ' advance_charged_species_in_E_field / advance_neutral_species: while not is_inside_cell'), ('C++ loops', 'cpp/advance_*_species_*.cpp')],
  'recorded cell index against the geometry of that cell')

p('M04', 'The exit facet of a straight path from a cell is found correctly',
  'For a path that starts inside a cell and ends outside it, the facet search returns a facet of that cell through which the path leaves and the fraction of the path at which it does; the crossing point lies in the plane of that facet and in the closed cell, the fraction is between 0 and 1, and the returned normal is that facet\'s outward unit normal. For a path that does not leave the cell, no facet is reported. Python and C++ searches agree.',
  ['inputs'], 'all non-degenerate simplex cells in 1, 2 and 3 dimensions, all start points in the cell, all displacement vectors',
  'the search has a branch per facet, direction sign and dimension; tests cover one cell shape and a few directions',
  [DM, 'cpp/dolfin_functions.cpp'],
  [('Python search', DM + ' Mesh_C.find_facet'), ('C++ search', 'cpp/dolfin_functions.cpp find_facet')],
  'return value of the facet search')

p('B01', 'Every marked boundary crossing calls the right boundary function once',
  'Each time a particle crosses a facet marked as a boundary, exactly one boundary function is called, with that particle, its species and that facet: the one written for this boundary and this species if there is one, otherwise the default of this boundary, otherwise the global default. Unmarked facets call none, and no function is called for a boundary the particle did not cross. The choice is the same in Python and C++.',
  ['inputs', 'configurations'], 'all species names, boundary names and subsets of user-supplied boundary functions; all crossings',
  'tests exercise one combination of function names; the priority must hold for every subset of supplied functions',
  [PM] + CX + CN + ['cpp/ParticleMeshBoundaryConditions.h'],
  [('selection of the function', PM + ' ParticleMeshBoundaryConditions_C.__init__ / cpp ParticleMeshBoundaryConditions.h'), ('the call at a crossing', PM + ' movers: bc_function_dict lookup')],
  'calls received by the user boundary functions')

p('B02', 'Reflection is specular and absorption only removes',
  'A reflecting boundary function returns a particle with its velocity component along the facet normal reversed, the tangential components kept and therefore the same kinetic energy, and its remaining displacement mirrored in the facet plane, so that the end point is the mirror image of the unreflected end point. An absorbing boundary function marks the particle as deleted and alters nothing else. This holds for facets of any orientation, in Python and C++.',
  ['inputs'], 'all unit normals, velocities, displacements and crossing fractions; all shipped reflecting and absorbing functions',
  'a test reflects one particle off one axis-aligned facet; the formula has to hold for every normal and crossing fraction',
  ['UserParticles_1D.py', 'UserParticles_2D_e.py', 'UserParticles_3D.py', 'cpp/UserParticleBoundaryFunctions.h', 'cpp/UserParticleBoundaryFunctions_2D_e.h', 'cpp/UPBFs_spherical_r.h'],
  [('reflect', 'UserParticles_1D.py default_bc_at_rmin, UserParticles_2D_e.py bc_at_rmin_for_test_electrons, cpp/UPBFs_spherical_r.h'), ('absorb', 'UserParticles_*.py default_bc*, cpp/UserParticleBoundaryFunctions.h')],
  'the particle record after the boundary function returns')

p('G01', 'Mesh connectivity and geometry tables match the mesh',
  'For every cell the tables of vertices, facets, neighbours, outward facet normals and volumes agree with the mesh: neighbouring is mutual and through the shared facet, a facet on the mesh edge has the no-cell mark in place of a neighbour, each normal is a unit vector pointing out of the cell, and cell volumes add up to the volume of the domain, in the coordinate system of the mesh. The Python dictionaries and the C++ arrays hold the same data.',
  ['inputs'], 'all meshes of 1, 2 or 3 dimensions, all cells and facets',
  'tests print or spot-check a single small mesh',
  [DM, 'cpp/MeshEntityArrays.cpp', 'cpp/MeshEntityArrays.h', 'cpp/dolfin_functions.cpp'],
  [('dictionaries', DM + ' compute_cell_*_dict'), ('C++ arrays', 'cpp/MeshEntityArrays.cpp')],
  'entries of the tables')

p('G02', 'Point location is sound and the inside test is exact',
  'Locating a point returns a cell that contains it, and a point outside the mesh is never given a cell. The inside test accepts a point exactly when the point is in the closed cell, for any cell shape and orientation, and the Python and C++ tests agree. Initial cell assignment gives each stored particle a cell that contains it.',
  ['inputs'], 'all points and all cells of all meshes in 1, 2 and 3 dimensions',
  'tests try a few points well inside a cell',
  [DM, 'cpp/dolfin_functions.cpp', PM],
  [('locate', DM + ' compute_cell_index'), ('inside test', DM + ' is_inside_cell, cpp/dolfin_functions.cpp particle_is_inside_cell / cell_contains_point'), ('initial assignment', PM + ' compute_mesh_cell_indices')],
  'returned cell index; boolean result')

p('D01', 'Density deposition conserves particle weight and charge',
  'Accumulating the particles of a species on the mesh adds, over all degrees of freedom, exactly the total weight of the stored particles, each particle contributing only to the degrees of freedom of its own cell and in proportion to the local basis functions at its position; the cell density is the weight in the cell divided by the cell volume. The charge density is the sum over species of charge times number density. Deposits accumulate linearly and do not depend on particle order, nor on whether the particles are held in Python or in C++ storage.',
  ['inputs', 'histories'], 'all particle sets, positions, weights, cells and species charges; repeated accumulation',
  'tests deposit one to three particles and compare with stored numbers',
  [PM, DM, 'cpp/dolfin_functions.cpp', 'cpp/Pstruct.h'],
  [('deposit', DM + ' interpolate_delta_function_to_dofs, integrate_delta_function, add_weight_to_cell, divide_by_cell_volumes'), ('loop over particles', PM + ' accumulate_number_density, accumulate_number_density_CPP'), ('charge', PM + ' accumulate_charge_density_from_particles')],
  'vectors of the density fields')

p('F01', 'Field operations and interpolation to particles are exact',
  'Setting, scaling and adding fields act on every degree of freedom of the addressed region with the stated formula and on no other, and leave the operand fields unchanged. Interpolating a field to particle positions yields, for each particle, the value of that field at that particle\'s position, in the right vector component and array slot, or, for the random variant, a random multiple of that value (the C++ interpolation, documented for fields that are constant in each cell, uses the cell recorded with the particle).',
  ['inputs'], 'all fields, multipliers, regions, particle sets and cells',
  'tests check one field on one mesh; slot and component correspondence must hold for all counts',
  [DM, 'cpp/dolfin_functions.cpp', DT],
  [('field arithmetic', DM + ' Field_C.set_values, multiply_values, multiply_add'), ('interpolation', DM + ' Field_C.interpolate_field_to_points, interpolate_random_field_to_points; cpp/dolfin_functions.cpp interpolate_field_to_points')],
  'field vectors and the array of field values at particles')

p('T01', 'Trajectory records stay attached to the right particle',
  'A trajectory marked for a particle records, at each recorded step, the state of that same particle (position, velocity and the field acting on it) with the matching step and time, however many other particles are deleted, moved in storage or recorded. When the particle is deleted its last state is recorded once and its trajectory receives nothing more; other trajectories continue, and a trajectory that is full never stops or disturbs others.',
  ['histories', 'inputs'], 'all sets of tracked particles, all deletion patterns, all segment lengths, all recording intervals and maximum record counts',
  'compaction changes the storage position of a tracked particle in many ways over a run; tests track a few particles with at most one deletion',
  [PM, RM, 'cpp/Pstruct.h'] + CX + CN,
  [('index upkeep', PM + ' update_trajectory_particleId, remove_trajectory_particleId'), ('recording', PM + ' record_trajectory_datum, record_trajectory_data'), ('storage', RM + ' Trajectory_C.create_trajectory')],
  'trajectory_T data lists')

p('H01', 'Diagnostics count every particle exactly once',
  'The species particle count, the total count, the species number (sum of weights) and the species kinetic energy equal the same sums taken over the stored particles, whatever the segment length, the number of particles, earlier deletions and unused storage. History records hold those values with the step and time they were taken at, in order and within the requested limits.',
  ['inputs', 'histories'], 'all particle populations, weights, velocities, masses and segment fill levels; all recording histories',
  'tests sum over a nearly empty first segment and never after deletions',
  [PM, RM, DT],
  [('sums', PM + ' get_species_number, get_species_particle_count, get_total_particle_count, get_species_KE'), ('history', PM + ' record_history_data; ' + RM + ' History_C')],
  'returned sums; history lists')

p('C01', 'Particle creation adds exactly the requested population when it is due',
  'Creating particles over a region adds the requested number per cell in every cell of the region and nowhere else, each located in its recorded cell, with weights that add up to number density times the volume of the region (per unit solid angle in spherical geometry) and without disturbing particles already stored. Loading from a list adds exactly the listed particles in order. A source runs exactly on the steps that are multiples of its interval.',
  ['inputs', 'histories'], 'all regions, particles per cell, densities, drift and thermal speeds, step intervals and lists',
  'tests create one small population and check counts for one configuration',
  [PM, DM],
  [('sources', PM + ' create_maxwellian_particles, add_more_particles'), ('initial loading', PM + ' initialize_particles, create_from_list')],
  'storage before and after creation')

p('R01', 'Regions select exactly the cells they describe',
  'A rectangular region is the set of cells whose midpoints lie in the closed box, to rounding, a spherical region (of a radial mesh) the set of cells whose midpoints lie within the radius of the centre, and the whole-mesh region every cell; each selected cell appears once, together with the volume of that cell in the coordinate system of the mesh.',
  ['inputs'], 'all meshes in 1, 2 and 3 dimensions and all box corners, centres and radii',
  'tests pick one box on one mesh',
  [DM],
  [('regions', DM + ' CellSet_C, RectangularRegion_C, SphericalRegion_C, WholeMesh_C')],
  'cell lists and volumes of region objects')

p('O01', 'The particle output file reproduces the stored particles',
  'Each write on a new time step adds to the particle output file one group, numbered consecutively and marked with the time, with one dataset per requested attribute, which holds that attribute of all particles stored at that time, species after species and in storage order, unchanged; the species index, when requested, identifies the species of each entry. Earlier writes are preserved, a second write on the same step adds nothing, and unused storage never appears in the file.',
  ['inputs', 'histories'], 'all populations, segment lengths, attribute selections and sequences of writes interleaved with deletions',
  'tests write one step with one small population and do not read it back in full',
  [PM],
  [('file', PM + ' initialize_particle_output_file, write_particles_to_file')],
  'contents of the written file')

p('P01', 'The potential solve satisfies the discrete field equation',
  'The computed potential satisfies the assembled discrete Poisson equation with the given charge and boundary values, and the electric field handed to the particles is minus the gradient of that potential in each cell.',
  ['inputs'], 'all meshes, boundary values and charge densities',
  'tests compare one solution with stored numbers',
  [DM], [('solve', DM + ' PoissonSolve_C.solve_for_phi, compute_negE')], 'potential and field vectors')
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
