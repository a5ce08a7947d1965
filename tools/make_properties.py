"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os

SD = 'stokesian_dynamics/'
F = SD + 'functions/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': observe or [], 'hook_needed': None}})


prop('C01', 'Every way of prescribing forces or motion solves the same linear relation',
     'For every supported combination of prescribed quantities (all forces/torques/stresslets, forces/torques/strain, some sphere velocities, some dumbbell velocities, dumbbell-only forms), the complete set of forces and velocities returned for one instant satisfies force = resistance matrix times velocity for velocities relative to the background flow. Quantities the user prescribed come back unchanged, also when the input leaves out its computations wherever it is told they are not needed; when the force on the fixed (wall) particles due to dumbbells is extracted, it is the force these particles need to stay fixed while the dumbbells move.',
     ['inputs', 'configurations'], 'every prescribed force, torque, stresslet, velocity and strain value; every resistance matrix of the modelled family; every number of fixed-velocity particles within bounds',
     'the one test uses a single mode (fte) with two spheres on an axis; it never uses fts, ufte, ufteu or duf and never checks that prescribed inputs survive',
     [F + 'timestepping.py', F + 'simulation_tools.py'],
     [('generate_output_FTSUOE', F + 'timestepping.py'), ('fts_to_fte_matrix / fte_to_ufte_matrix / ufte_to_ufteu_matrix / fts_to_duf_matrix', F + 'simulation_tools.py')])

prop('C02', 'Packing tensors and particle vectors is lossless and work-preserving',
     'Packing a symmetric traceless tensor into five components and unpacking it returns the same tensor, and the dot product of two packed tensors equals their full double contraction. Packing sphere and dumbbell forces into one vector and unpacking the same layout returns every component in place, and the dot product of packed forces with packed velocities is the total rate of work.',
     ['inputs'], 'every symmetric traceless tensor and every force/velocity component, for each mix of spheres and dumbbells within bounds',
     'the test exercises one strain field with two spheres and no dumbbells',
     [F + 'simulation_tools.py', F + 'shared.py'],
     [('condense, condense_and_flatten, uncondense', F + 'simulation_tools.py'), ('construct_force_vector_from_fts, deconstruct_velocity_vector_for_fts', F + 'simulation_tools.py'), ('contraction', F + 'shared.py')])

prop('C03', 'Far-field sphere mobility equals the Faxen-corrected Stokes-flow multipoles',
     'For any two non-overlapping spheres of any radii and any separation vector, every block of the unbounded far-field mobility matrix (velocity, rotation and strain against force, torque and stresslet) equals the corresponding derivative of the Oseen tensor with finite-size corrections, scaled by the fluid viscosity. Each sphere on its own has the isolated-sphere mobilities, and pairs closer than the clamp distance are evaluated at that distance along the same direction.',
     ['inputs'], 'every separation vector, radius pair and viscosity within bounds',
     'the test compares aggregate solutions of equal spheres on the x axis to 3 significant figures; off-axis, unequal radii and individual blocks are never seen',
     [F + 'generate_Minfinity.py'],
     [('M11 ... M33 tensor formulas', F + 'generate_Minfinity.py'), ('generate_Minfinity', F + 'generate_Minfinity.py')])

prop('C04', 'Mobility and resistance matrices are symmetric and frame-indifferent',
     'The far-field mobility and the lubrication matrix are symmetric; renumbering particles permutes the matrix accordingly, translating all particles leaves it unchanged, and permuting or reflecting the coordinate axes transforms it as a tensor. Adding a third particle does not change the blocks of the far-field mobility belonging to the other two.',
     ['inputs', 'configurations'], 'every relative position, radius pair and viscosity within bounds, every permutation of particles and axes considered',
     'a symmetry holds for all configurations; the test has one aligned pair',
     [F + 'generate_Minfinity.py', F + 'generate_R2Bexact.py', F + 'shared.py'],
     [('upper-triangle symmetrisation', F + 'generate_Minfinity.py'), ('pair loops over u<=v', F + 'generate_R2Bexact.py')])

prop('C05', 'Lubrication matrix equals pairwise sums of two-sphere resistance tensors',
     'For every set of spheres, the lubrication correction is viscosity times the sum over pairs closer than the cutoff of the two-sphere resistance tensors, built from the tabulated scalar functions of that size ratio and separation with the correct axis direction and radius scaling; pairs beyond the cutoff contribute nothing. The scalars of a pair with size ratio below one and of the same pair seen from the other sphere (reciprocal ratio) are taken from the matching table entries.',
     ['inputs', 'configurations'], 'every direction, separation and tabulated size ratio within bounds, for arbitrary table contents',
     'the test sees only equal spheres separated along x',
     [F + 'generate_R2Bexact.py', SD + 'resistance_scalars/data.py'],
     [('L1..L9, XYZ, A..M block formulas', F + 'generate_R2Bexact.py'), ('generate_R2Bexact', F + 'generate_R2Bexact.py')])

prop('C06', 'Tabulated scalars are interpolated linearly and obey two-sphere reciprocity',
     'Between two tabulated separations the resistance scalars used are the straight-line interpolation of the neighbouring entries, for every scalar, pair of particles and size ratio. The tabulated scalars satisfy the exact reciprocal relations between a size ratio and its reciprocal at every separation in range.',
     ['inputs'], 'every separation in the tabulated range, every scalar, every size ratio',
     'tests look at nine tabulated separations and one size ratio',
     [F + 'generate_R2Bexact.py', SD + 'resistance_scalars/data.py'],
     [('XYZ interpolation and index_in', F + 'generate_R2Bexact.py'), ('scalar tables', SD + 'resistance_scalars/')])

prop('C07', 'Grand resistance matrix is far-field inverse plus lubrication, also when cached',
     'The grand resistance matrix is the inverse of the current far-field mobility plus the current lubrication matrix; when the far field is not regenerated the cached inverse supplied by the caller is used instead and returned unchanged, and lubrication is still recomputed from the current positions. Selecting far-field-only omits lubrication, and selecting drag-only replaces the far field by a diagonal drag law: viscosity times radius for force, 4/3 radius cubed for torque and 10/9 radius cubed for stresslet, and twice the bead radius for the velocity of the centre and for half the velocity difference of a dumbbell. The forces and velocities of a time step are related by the matrix for the viscosity, box, accumulated shear, cutoff and options in force.',
     ['inputs', 'configurations', 'histories'], 'every viscosity and length scale, every cached inverse, every option combination, nonperiodic and periodic',
     'tests always regenerate and never use the options',
     [F + 'generate_grand_resistance_matrix.py', F + 'timestepping.py'],
     [('generate_output_FTSUOE', F + 'timestepping.py'), ('generate_grand_resistance_matrix', F + 'generate_grand_resistance_matrix.py'), ('generate_grand_resistance_matrix_periodic', F + 'generate_grand_resistance_matrix.py')])

prop('C08', 'Viscosity and length scale enter mobility and resistance with the right powers',
     'Multiplying the viscosity by any positive factor divides every mobility entry and multiplies every resistance entry by it. Multiplying all lengths by any positive factor scales each block by the power of length fixed by its physical dimension, in unbounded and periodic domains.',
     ['inputs'], 'every positive viscosity and length scale within bounds for a set of generic configurations',
     'the tests use viscosity 1 and radius 1 throughout',
     [F + 'generate_Minfinity.py', F + 'generate_Minfinity_periodic.py', F + 'generate_R2Bexact.py'],
     [('c = 1/(8 pi mu) and radius powers', F + 'generate_Minfinity.py'), ('scale factors', F + 'generate_R2Bexact.py')])

prop('C09', 'A dumbbell behaves as two force-only beads joined at its centre',
     'The mobility and lubrication entries involving dumbbells equal those of two separate spheres placed at centre minus and plus half the dumbbell vector, carrying forces only, combined into total force / force difference and mean velocity / half velocity difference. Switching off bead-bead interactions removes the mutual hydrodynamic coupling of beads and leaves sphere-sphere and sphere-bead coupling as it was.',
     ['inputs', 'configurations'], 'every dumbbell centre, dumbbell vector, radius and sphere position within bounds, bead interactions on and off',
     'no test contains a dumbbell',
     [F + 'generate_Minfinity.py', F + 'generate_R2Bexact.py'],
     [('sphere-bead and bead-bead branches and the final change of basis', F + 'generate_Minfinity.py'), ('same', F + 'generate_R2Bexact.py')])

prop('C10', 'Periodic far-field mobility equals the Ewald sum of the periodic Stokes flow',
     'In a periodic box each block of the far-field mobility between two particles is the Ewald-summed (real-space plus wave-space) derivative of the periodic Stokes flow with finite-size corrections over the reproduced lattice images, and the self blocks contain the isolated-sphere value, the images and the self-interaction correction. Moving a particle pair together leaves it unchanged and swapping the two particles transposes it.',
     ['inputs'], 'every relative position in the box, radius pair, viscosity and box size within bounds, cubic and sheared boxes',
     'no test uses a periodic box',
     [F + 'generate_Minfinity_periodic.py'],
     [('M11 ... M33 periodic, J, R, K tensors', F + 'generate_Minfinity_periodic.py'), ('lattice construction', F + 'generate_Minfinity_periodic.py')])

prop('C11', 'Close-pair detection finds exactly the pairs within range with correct geometry',
     'Close-pair detection returns each pair of particles whose size-scaled distance is below the cutoff, once, the lower number first, each particle paired with itself, and no other pair, together with the displacement from the first to the second, the scaled distance and the size ratio. In a periodic box (also a sheared one) the distance is that of the nearest image within the box half-width.',
     ['inputs'], 'every particle position, radius and cutoff within bounds, including exactly at the cutoff',
     'tests only ever have one pair on one axis',
     [F + 'shared.py'],
     [('close_particles, shear_basis_vectors', F + 'shared.py')])

prop('C12', 'Wrapping into the periodic box moves particles by whole box vectors only',
     'Wrapping positions into the (possibly sheared) periodic box changes each position by an integer combination of the box vectors and leaves it inside the box. A position already inside is unchanged, and the box itself returns to its unsheared shape whenever the accumulated shear is a whole number of boxes. In a periodic run every frame wraps the spheres and the dumbbells into the box of the run, sheared by the amount accumulated at that frame.',
     ['inputs', 'histories'], 'every position, box size and accumulated shear within bounds, and every frame and stage of a run',
     'no test is periodic',
     [F + 'timestepping.py', F + 'shared.py', SD + 'run_simulation.py'],
     [('wrap_around', F + 'timestepping.py'), ('shear_basis_vectors', F + 'shared.py')])

prop('C13', 'Each timestepping scheme advances every particle by its defining formula',
     'With forward Euler every sphere centre, dumbbell centre and dumbbell vector advances by timestep times its own velocity in the background flow; two-step Adams-Bashforth uses 1.5 times the current minus 0.5 times the previous velocity after a first Euler step; fourth-order Runge-Kutta combines four stages evaluated at the stage positions with weights 1,2,2,1. This holds at every frame of a run and for spheres and dumbbells together, and the stored far-field matrix is renewed exactly at the frames (or stages) the reuse interval prescribes.',
     ['inputs', 'histories', 'configurations'], 'every velocity field value at every stage, initial position, background flow and timestep, over bounded numbers of frames',
     'tests run a single frame and never look at positions',
     [SD + 'run_simulation.py', F + 'timestepping.py'],
     [('generate_frame', SD + 'run_simulation.py'), ('euler_timestep, ab2_timestep', F + 'timestepping.py')])

prop('C14', 'Sphere orientation markers rotate rigidly with the sphere',
     'A timestep moves each orientation marker by the rotation about the angular velocity through angle speed times timestep, relative to the moved sphere centre: marker distances from the centre and angles between markers are preserved. With zero angular velocity markers only translate.',
     ['inputs'], 'every angular velocity direction and size, marker vector and timestep within bounds',
     'no test inspects rotations',
     [F + 'timestepping.py'],
     [('euler_timestep_rotation, ab2_timestep_rotation', F + 'timestepping.py')])

prop('C15', 'Saved output is the true history at the requested cadence',
     'Frame k of the saved positions is the configuration at the k-th saved step, in order, starting from the initial configuration, and saved forces and velocities belong to the same steps. Saving less often, or from a later frame that is itself a saving step, gives the corresponding sub-sequence; the configuration reached by the last step is appended when the last step is a saving step, and temporary copies written on the way hold the same history.',
     ['histories', 'configurations'], 'every velocity history over bounded runs, every save interval and run length within bounds',
     'the test inspects only one saved frame',
     [SD + 'run_simulation.py'],
     [('saved_* appends and final save', SD + 'run_simulation.py')])

prop('C16', 'A run interrupted at any frame and resumed matches an uninterrupted run',
     'If a run with a one-step scheme (Euler or Runge-Kutta) stops at any point, also in the middle of writing a file, and is started again with the same settings, it continues from its last readable checkpoint and the final saved positions, orientations and dumbbells equal those of a run that was never interrupted. A checkpoint belonging to a different setup, input, number of frames or timestep is never picked up, and after completion the temporary checkpoint is gone.',
     ['crash_points', 'histories'], 'every interruption frame in a bounded run, every velocity field',
     'no test interrupts a run',
     [SD + 'run_simulation.py', SD + 'setups/positions.py'],
     [('checkpoint scan', SD + 'setups/positions.py'), ('temporary save and final save', SD + 'run_simulation.py')])

prop('C17', 'Background flow is added to every particle at its own position',
     'The velocity reported for a sphere is its disturbance velocity plus the background translation, rotation and strain evaluated at its centre relative to the flow centre; its angular velocity gains the background rotation. A dumbbell gains the background velocity at its centre, and its half velocity difference gains the background gradient acting on half the dumbbell vector.',
     ['inputs'], 'every position, background velocity, rotation, strain and flow centre within bounds',
     'the test has no translation or rotation background and no dumbbells',
     [F + 'timestepping.py'],
     [('add_background_flow_spheres, add_background_flow_dumbbells', F + 'timestepping.py')])

prop('C18', 'Shear inputs describe one consistent shear flow and its time integral',
     'The rotation and strain returned for a constant or oscillatory shear combine to a simple shear in the documented plane and direction with the documented rate at that time. The accumulated rotation and strain are the time integral of the instantaneous ones.',
     ['inputs', 'configurations'], 'every shear rate, amplitude, period, phase, frame, timestep and orientation option within bounds',
     'no test uses a shear input',
     [SD + 'setups/functions_inputs.py'],
     [('oscillatory_shear, constant_shear', SD + 'setups/functions_inputs.py')])

prop('C19', 'Repulsion forces are central, equal and opposite, and only act at short range',
     'Repulsion between particles closer than the cutoff pushes them apart along their line of centres with the documented magnitude, equal and opposite on the two, added to any forces already present; pairs beyond the cutoff and particles in lids feel nothing. Dumbbells receive the sum of their bead forces as total force and the difference as internal force.',
     ['inputs'], 'every position, radius, strength and decay rate within bounds',
     'no test uses repulsion',
     [SD + 'setups/functions_inputs.py'],
     [('repulsion_forces', SD + 'setups/functions_inputs.py')])

prop('C20', 'Randomly placed particles lie in the region and do not overlap',
     'Every particle returned by the random placement routines lies in the requested box (or quadrilateral) and keeps at least the sum of radii from every other placed or pre-existing particle, counting periodic images where the placement is periodic. Dumbbells have the requested bead separation and their beads keep the same distances.',
     ['inputs', 'schedules'], 'every sequence of random numbers within bounds',
     'randomised routines are not tested; one seed says nothing about the others',
     [SD + 'setups/functions_positions.py'],
     [('randomise_spheres, randomise_dumbbells, overlaps', SD + 'setups/functions_positions.py')])

prop('C21', 'Position data and force tables index every particle consistently',
     'Flattened element data lists all spheres and then all dumbbells (centre and bead vector) with matching sizes, block coordinates tile the grand matrix exactly once without gaps or overlap, and orientation markers start at the given offsets from each sphere scaled by its radius. A run can be started from any saved frame and gets back the particles of that frame. The simple cubic arrangement places eight spheres on a cubic lattice commensurate with its box.',
     ['inputs', 'configurations'], 'every count of spheres and dumbbells within bounds and every position',
     'tests have two spheres only',
     [F + 'shared.py', SD + 'setups/functions_positions.py'],
     [('posdata_data, submatrix_coords, add_sphere_rotations_to_positions', F + 'shared.py'), ('simple_cubic_8', SD + 'setups/functions_positions.py')])

prop('C22', 'Command-line arguments override exactly the settings they name',
     'Each positional command-line argument given (setup, input, timestep, number of frames, input form, force extraction) replaces exactly that setting and leaves all others at their file values. Omitting trailing arguments leaves those settings untouched, and a number that cannot be read stops the program instead of being ignored.',
     ['inputs', 'configurations'], 'every number of arguments and every argument value',
     'tests never pass arguments',
     [SD + 'settings.py'],
     [('sys.argv handling', SD + 'settings.py')])

prop('C23', 'Durations, file sizes and time-left estimates shown to the user are right',
     'A duration, file size or finishing time shown to the user, read back, equals the true one to the shown precision (within 3 %). The time-left estimate is non-negative, zero after the last frame and grows with the number of frames left, using the measured mean cost of the two kinds of frame.',
     ['inputs', 'histories'], 'every duration and every sequence of frame times within bounds',
     'not tested',
     [F + 'shared.py', F + 'timestepping.py'],
     [('format_elapsed_time', F + 'shared.py'), ('calculate_time_left', F + 'timestepping.py')])

prop('C24', 'Near-field formulas obey reciprocity, rigid-motion balance and the mid-field',
     'The near-field resistance formulas coupling two spheres satisfy the exact reciprocal relations under exchange of the spheres, and when the pair moves as one rigid body the singular parts of force, torque and stresslet cancel, for every gap and size ratio. The parts that grow as the inverse gap come from one squeezing flow of the known strength. At the crossover separation every formula joins the tabulated mid-field solution to about one part in a hundred, and lengthening its series changes it by no more than half of that.',
     ['inputs'], 'every small gap and every size ratio within bounds',
     'not tested; a wrong coefficient gives a plausible table',
     ['find_resistance_scalars/functions_nearfield.py'],
     [('X11A ... Z12M and the recurrences below them', 'find_resistance_scalars/functions_nearfield.py')])

prop('C25', 'Mid-field tables hold the inverse of the two-sphere mobility for every ratio',
     'For every listed separation, size ratio and reciprocal ratio, the resistance scalars saved by the mid-field script, dimensionalised as documented, form the inverse of the two-sphere mobility delivered by the external solver, whatever that mobility is. The saved mobility table and both readable tables agree with it, each row under its own separation, ratio and member of the pair.',
     ['inputs'], 'every symmetric two-sphere mobility within bounds, for several separations and ratios at once',
     'not tested',
     ['find_resistance_scalars/generate_scalars_midfield.py', 'find_resistance_scalars/functions_general.py'],
     [('convert_dim_kim_mobility_to_dim_resistance', 'find_resistance_scalars/generate_scalars_midfield.py')])

prop('C26', 'Guards stop or warn exactly when their documented condition holds',
     'A run stops, with what it has computed saved, when a dumbbell becomes longer than five length units while protection is on, and only then; a dumbbell that turns by more than a right angle in one step is reported. Spheres whose size ratio has no tabulated scalars are named and refused before the run starts, for every number and order of particles; an input form that cannot describe the particles present and an unknown setup, input or timestepping scheme are refused.',
     ['inputs'], 'every dumbbell vector before and after, every pair separation and size ratio within bounds',
     'not tested',
     [F + 'timestepping.py'],
     [('did_something_go_wrong_with_dumbells, are_some_of_the_particles_too_close, do_we_have_all_size_ratios', F + 'timestepping.py')])

prop('C27', 'Scalar tables are assembled with every entry in its own place',
     'The near-field table holds each formula at the gap and size ratio of its row, and combining near- and mid-field tables keeps every row with its separation, in increasing order of separation. The subtracted tables are the combined table minus the scalars of the two-sphere far-field resistance (or of isolated-sphere drag) for the same ratio and separation, and the readable copies agree with the stored ones.',
     ['inputs', 'configurations'], 'every table content, every order of the listed separations and every symmetric two-sphere far-field resistance within bounds',
     'no test runs the scripts that generate the tables, and any misplaced scalar still gives a plausible table',
     ['find_resistance_scalars/combine_scalars.py', 'find_resistance_scalars/subtract_R2Binfinity_from_scalars.py', 'find_resistance_scalars/generate_scalars_nearfield.py'],
     [('whole scripts', 'find_resistance_scalars/')])

prop('C28', 'Pictures show the state that was computed, and do not change it',
     'Each sphere is drawn as a disc of its radius facing the viewer at its centre, with lines from the centre to its two orientation markers, and each dumbbell as two discs of its bead radius at its two beads; arrows for forces, torques and velocities start at the centre of their own sphere, point along the quantity and share one scale. Each picture shows only the current state (and trace lines if asked for), from whichever direction it is viewed. A run with pictures computes and saves exactly what it does without them, and the scripts that redraw a saved file show each particle where the file has it at that frame.',
     ['inputs', 'configurations'], 'every position, radius, marker, bead separation, force and viewing direction within bounds; every run of a few frames with any velocities, with pictures on and off',
     'no test draws anything, and a wrong picture raises no error',
     [F + 'graphics.py', 'stokesian_dynamics/run_simulation.py', 'stokesian_dynamics/plotting/make_video.py', 'stokesian_dynamics/plotting/plot_positions.py'],
     [('plot_all_spheres, plot_all_dumbbells, plot_all_force_lines, plot_all_torque_lines, plot_all_velocity_lines, plot_all_angular_velocity_lines', F + 'graphics.py'), ('pictures part of generate_frame', 'stokesian_dynamics/run_simulation.py'), ('whole scripts', 'stokesian_dynamics/plotting/')])

prop('C29', 'Built-in scenarios prescribe what they document',
     'Each built-in force or flow scenario prescribes on every particle exactly what it documents: gravity of unit strength downwards, a linear spring of natural length two in an oscillating shear, repulsion, two halves of the spheres moving apart, walls moving around a forced array, or a constant shear, for every number of particles, position and time. Whatever a scenario does not set is zero where the chosen form of input prescribes it and unset elsewhere; the viscosity is one, only the periodic scenario has a box, which is that of its lattice, and unknown scenario numbers are refused. The built-in starting positions that are not random are the documented ones, without overlaps and with orientation markers one radius along x and z.',
     ['inputs', 'configurations'], 'every number of particles, positions, radii, frame, timestep and form of input within bounds, for every built-in scenario',
     'tests use their own scenarios only',
     ['stokesian_dynamics/setups/inputs.py', 'stokesian_dynamics/setups/positions.py', F + 'simulation_tools.py'],
     [('input_ftsuoe', 'stokesian_dynamics/setups/inputs.py'), ('pos_setup', 'stokesian_dynamics/setups/positions.py'), ('empty_vectors', F + 'simulation_tools.py')])

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
