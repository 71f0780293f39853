"""what is claimed, property by property"""
from meta import P, N, SYM_C, SYM_PY  # noqa

P('C01', 'Supercell expansion replicates the unit cell exactly',
  'Expanding a structure by n1 x n2 x n3 scales each lattice vector by its own repeat count, and every atom appears once per '
  'repeat, displaced by the corresponding whole number of lattice vectors. Masses, charges, elements, atomic numbers and scaled '
  'positions of the expansion belong to the same atoms in the same order, whether the structure was given in scaled or cartesian form.',
  ['inputs', 'configurations'], 'all cells (9 free entries, non-singular), all positions, masses and charges; listed atom counts and expansions; order of the calls',
  'The tests load one orthogonal GaN cell; a transposed scaling or a permuted order is invisible there.',
  ['dynaphopy/atoms.py'], [('Structure.get_cell / get_positions / get_masses ...', 'dynaphopy/atoms.py')])
P('C02', 'Displacements follow the minimum-image convention',
  'The displacement of every atom from its reference site differs from the raw difference by whole supercell lattice vectors only, '
  'and its fractional components never exceed one half. This holds for any trajectory, wrapped or unwrapped, cartesian or scaled.',
  ['inputs'], 'all trajectories within +-20 length units, all reference sites, all non-singular right-handed cells; listed numbers of steps and atoms',
  'Tests run on one recorded trajectory whose atoms never leave the box.',
  ['c/displacements.c', 'dynaphopy/dynamics.py'],
  [('atomic_displacements', 'c/displacements.c'), ('Dynamics.get_relative_trajectory', 'dynaphopy/dynamics.py')],
  tech='symbolic execution of the LLVM IR of displacements.c and of the Python caller; z3 decides')
P('C03', 'The C kernels are memory safe and release what they allocate',
  'For every signal, frequency list and option, the compiled kernels read and write only memory they own, release every buffer and '
  'array they create, leave their inputs untouched, and answer with a result or an exception.',
  ['inputs', 'configurations'], 'all values of the samples; listed lengths of signal and frequency list; every listed option value including invalid ones',
  'Out-of-bounds reads of one element and leaks do not change the value of the spectra the tests compare.',
  ['c/displacements.c', 'c/correlation.c', 'c/mem.c'], [('malloc/free and PyArray handling', 'c/*.c')], tech=SYM_C + '; memory model with bounds and lifetimes',
  level='malloc is assumed to succeed.')
P('C04', 'Direct Fourier spectrum is the transform of the autocorrelation',
  'The direct (correlation) method returns, at each requested frequency, the real part of the one-sided Fourier integral of the '
  'velocity autocorrelation, with the requested step and quadrature rule, in normalisation per unit time of the record.',
  ['inputs', 'configurations'], 'all complex signals, frequencies and time steps; listed lengths and steps; both quadrature rules',
  'Tests compare one integrated peak per algorithm with a loose tolerance on one recorded trajectory.',
  ['c/correlation.c', 'dynaphopy/power_spectrum/__init__.py'], [('correlation_par', 'c/correlation.c')], tech=SYM_C)
P('C05', 'Maximum-entropy spectrum is the Burg estimate',
  'The maximum-entropy method returns, at each requested frequency, the Burg autoregressive spectrum of the real part plus that of the '
  'imaginary part of the signal, for the requested number of coefficients.',
  ['inputs', 'configurations'], 'all signals with a non-degenerate recursion, all frequencies and time steps; listed lengths and orders',
  'The tests only exercise one long trajectory with an automatically scaled comparison; a shifted read passes.',
  ['c/mem.c'], [('mem', 'c/mem.c'), ('GetCoefficients', 'c/mem.c')], tech=SYM_C)
P('C06', 'Parallel spectra do not depend on thread interleaving',
  'Each requested frequency of the parallel kernels is computed independently: no two loop iterations touch the same memory with a '
  'write, and the value of a frequency does not depend on which others are requested with it.',
  ['schedules', 'inputs'], 'all pairs of iterations of the parallel loop (hence all schedules), all signals; listed lengths',
  'A race in an OpenMP loop shows in some schedules only.', ['c/correlation.c', 'c/mem.c'],
  [('omp parallel for with private variables', 'c/correlation.c, c/mem.c')], tech=SYM_C + '; access sets of loop iterations compared pairwise')
P('C08', 'Phonon projections are exact for any lattice',
  'The wave-vector projection is the mass-weighted phase sum of the velocities over the equivalent atoms, normalised by the number of '
  'primitive cells, and the phonon projection its scalar product with the mode eigenvectors, for any lattice, wave vector and atom-type '
  'filter. Reduced wave vectors refer to the primitive cell, and eigenvectors are taken at the same wave vector.',
  ['inputs', 'configurations', 'histories'], 'all velocities, wave vectors, masses, positions and eigenvectors; simple, body-, face- and base-centred lattices; listed expansions; either order of the calls',
  'Tests check one material at one wave vector.', ['dynaphopy/projection.py', 'dynaphopy/__init__.py'],
  [('project_onto_wave_vector / project_onto_phonon', 'dynaphopy/projection.py'), ('get_q_vector', 'dynaphopy/__init__.py')])
P('C09', 'Commensurability is decided correctly for any lattice',
  'A wave vector is reported commensurate exactly when its phase along each of the three supercell vectors is a whole number of turns.',
  ['inputs', 'configurations'], 'all commensurate points with up to six turns per axis and all points at a distance above tolerance; four lattices; listed supercells',
  'Tests never ask for a non-commensurate point.', ['dynaphopy/__init__.py'], [('check_commensurate', 'dynaphopy/__init__.py')])
P('C10', 'Displacement tensors and ADPs are the averages of the motion',
  'The displacement tensor of an atom type is the average over its equivalent atoms and all steps of the products of displacement '
  'components, relative to the reference or to the average positions as requested. The three crystallographic forms are its exact transforms.',
  ['inputs', 'histories'], 'all displacements, cells, positions; both references in any order of the calls; the three forms; listed sizes',
  'No test reads the tensors for a non-orthogonal cell or twice with different options.', ['dynaphopy/dynamics.py', 'dynaphopy/__init__.py'],
  [('get_mean_displacement_matrix', 'dynaphopy/dynamics.py'), ('get_anisotropic_displacement_parameters', 'dynaphopy/__init__.py')])
P('C11', 'Average positions are the time averages of the atoms',
  'The average position of every atom is its reference position plus the mean of its displacements, folded into the cell it is '
  'reported in; folded to the unit cell it is also averaged over the equivalent atoms.',
  ['inputs', 'configurations'], 'all displacements, cells and positions; supercell and unit-cell form; listed sizes', 'No test calls it.',
  ['dynaphopy/dynamics.py'], [('average_positions', 'dynaphopy/dynamics.py')])
P('C17', 'A cropped trajectory equals one loaded with only those steps',
  'After keeping the last k steps, velocities, time, energy, trajectory, displacements and everything averaged from them equal what a '
  'trajectory holding only those steps gives, whatever was computed before. Keeping zero, negative, or more steps than there are changes nothing.',
  ['histories', 'inputs', 'configurations'], 'all values; listed numbers of steps kept; five histories of earlier calls; cartesian and scaled trajectories',
  'Tests crop nothing.', ['dynaphopy/dynamics.py'], [('crop_trajectory', 'dynaphopy/dynamics.py')])
P('C07', 'Every spectral backend answers for the requested grid and signals',
  'All power-spectrum algorithms return one column per signal and one row per requested frequency, each column depending on its own '
  'signal only. The FFT backends agree with one another: segments set by the requested resolution cover the record without overlap, '
  'and the averaged segment spectra are interpolated linearly on the requested frequencies.',
  ['inputs', 'configurations'], 'all complex signals; listed record lengths, resolutions, time steps and frequency grids; all six algorithms (GPU ones against stand-ins of their libraries)',
  'The GPU and FFTW backends are not run by the tests, the FFT one only at one resolution.',
  ['dynaphopy/power_spectrum/__init__.py'], [('get_fft_*_spectra, _numpy_power, _division_of_data', 'dynaphopy/power_spectrum/__init__.py')])
P('C16', 'Results never depend on the history of the analysis object',
  'Whatever was asked or set before, each quantity returned by the analysis object equals what a new object with the same final '
  'settings returns, and asking again gives the same answer.',
  ['histories', 'inputs'], 'all velocities and masses; all sequences of two (thorough: three) settings out of eleven, with all or no queries in between, then thirteen queries',
  'Tests use a new object per result, or one order of calls.', ['dynaphopy/__init__.py', 'dynaphopy/dynamics.py'],
  [('full_clear / power_spectra_clear and per-quantity caches', 'dynaphopy/__init__.py')],
  level='Spectral estimators and harmonic modes are stand-ins that read the same parameters.')
P('C19', 'The full spectrum is the sum of its parts',
  'The full spectrum is the sum of the mass-weighted velocity spectra over all atoms and directions, the same in silent mode or not. '
  'Restricted to an atom type or a direction it sums those parts only, and the parts add up to the whole; partials list every atom.',
  ['inputs', 'configurations'], 'all velocities and masses; three algorithms; all atom types and directions; listed supercells',
  'Tests compare one total integral.', ['dynaphopy/__init__.py'],
  [('get_power_spectrum_full / get_power_spectrum_partials', 'dynaphopy/__init__.py')], level='Spectral estimators are linear stand-ins acting on each signal separately.')
P('C18', 'Thermodynamic functions integrate the density of states',
  'Free energy, entropy, heat capacity and internal energy are the quadratures of the quantum harmonic-oscillator expressions over the '
  'positive frequencies of the given density of states, independent of its number of points; F = U - TS. The shift and renormalised '
  'corrections of the report use the same normalisation (3N modes per unit cell).',
  ['inputs', 'configurations'], 'all densities of states, temperatures and equally spaced frequency grids; listed numbers of points, with and without non-positive frequencies',
  'Tests check one density at one temperature to two digits.', ['dynaphopy/analysis/thermal_properties.py', 'dynaphopy/__init__.py'],
  [('get_free_energy, get_entropy, get_cv, get_total_energy', 'dynaphopy/analysis/thermal_properties.py'), ('display_thermal_properties', 'dynaphopy/__init__.py')],
  level='Identity of exponentials and logarithms decided over their algebraic normal forms.')
P('C20', 'Renormalised force constants carry the quasiparticle frequencies',
  'Rebuilding force constants gives modes with the fitted frequencies and the harmonic eigenvectors; each commensurate point or its '
  'symmetry partner gets the frequencies of its own modes. Everything derived from them (bands, shifts, mesh data) uses the current '
  'settings, in the requested units.',
  ['inputs', 'configurations', 'histories'], 'all fitted frequencies, eigenvectors, harmonic force constants; listed supercells and options; settings changed in between',
  'Tests compare one frequency of one material.', ['dynaphopy/interface/phonopy_link.py', 'dynaphopy/__init__.py'],
  [('get_renormalized_force_constants', 'dynaphopy/interface/phonopy_link.py'), ('get_commensurate_points_data', 'dynaphopy/__init__.py')],
  level='Phonopy, the estimators and the curve fit are stand-ins that record what they are given.')
P('C21', 'Quasiparticle data describe the fitted peak of their own mode',
  'Position, width, height, area and error reported for a mode are those of the line shape fitted to its own spectrum, or, with '
  'degeneracy on, to the average spectrum of its degenerate set. Degenerate sets are runs of frequencies closer than the threshold. '
  'The thermal-expansion shift of the same mode is added. A failed fit is reported as zeros and leaves the other modes as they are.',
  ['inputs', 'configurations'], 'all fit parameters, spectra and harmonic frequencies in ascending order; three line shapes; listed numbers of modes and points',
  'Tests read one fitted frequency.', ['dynaphopy/analysis/fitting/__init__.py', 'dynaphopy/analysis/fitting/fitting_functions.py'],
  [('phonon_fitting_analysis, degenerate_sets, average_phonon', 'dynaphopy/analysis/fitting/__init__.py'),
   ('Lorentzian, Lorentzian_asymmetric, Damped_harmonic', 'dynaphopy/analysis/fitting/fitting_functions.py')],
  level='The curve fit itself is a stand-in returning arbitrary parameters.')
P('C12', 'Reading a trajectory gives exactly the requested frames',
  'For XDATCAR, OUTCAR and LAMMPS dumps, the object read holds the frames of the requested window and no others, in order, in '
  'cartesian coordinates of the unit-cell orientation (whatever the tilt of the LAMMPS box or the scale factor of the XDATCAR), one '
  'time per frame with the right spacing, and the energies of those frames. The format is recognised from the file.',
  ['inputs', 'configurations'], 'all coordinates, velocities and energies; listed numbers of frames, windows, boxes and rotations',
  'Tests read whole files with the default options.', ['dynaphopy/interface/iofile/trajectory_parsers.py', 'dynaphopy/interface/iofile/__init__.py'],
  [('read_VASP_XDATCAR, read_vasp_trajectory, read_lammps_trajectory', 'dynaphopy/interface/iofile/trajectory_parsers.py')])
P('C13', 'HDF5 files give back what was saved',
  'Velocities, trajectories and wave-vector projections saved to HDF5 are read back as they were, with the steps, times, cell and wave '
  'vector of the requested window. Joining files keeps every step after the skipped ones of each file, in order, evenly spaced in time.',
  ['inputs', 'histories', 'configurations'], 'all values; listed numbers of steps and files, windows and options; saved, read, cropped and saved again',
  'Tests read one file completely.', ['dynaphopy/interface/iofile/__init__.py', 'scripts/concath5', 'dynaphopy/__init__.py'],
  [('save_data_hdf5 / initialize_from_hdf5_file', 'dynaphopy/interface/iofile/__init__.py'), ('concath5', 'scripts/concath5')],
  level='h5py is a stand-in in the symbolic runs (validated against the real one on every run).')
P('C27', 'Memory mapping changes no result',
  'Every quantity computed with arrays mapped to files equals the one computed in memory, also after keeping the last steps and with '
  'several mapped objects alive in one program, and no temporary file is left behind.',
  ['histories', 'inputs', 'configurations'], 'all trajectories and velocities; four forms of input; two objects alive; with and without earlier queries and crops',
  'Tests never use memory mapping.', ['dynaphopy/dynamics.py', 'dynaphopy/interface/iofile/trajectory_parsers.py'],
  [('memmap branches and __del__', 'dynaphopy/dynamics.py')], level='Mapped files are modelled as storage shared by file name (validated on every run).')
P('C30', 'Spectra with symmetry are means over the star of the wave vector',
  'The star of a wave vector is itself and its images without negative components under the rotations of the crystal, each once, for any '
  'primitive lattice. With symmetry on, phonon and wave-vector spectra are the mean over the star, and the selected wave vector stays selected.',
  ['inputs', 'configurations'], 'all wave vectors between 0 and 1; listed rotations and lattices; listed stars and estimators',
  'Tests use symmetric points of a cubic lattice.', ['dynaphopy/interface/phonopy_link.py', 'dynaphopy/__init__.py'],
  [('get_equivalent_q_points_by_symmetry', 'dynaphopy/interface/phonopy_link.py'), ('get_power_spectrum_phonon / wave_vector', 'dynaphopy/__init__.py')],
  level='The symmetry finder is a stand-in.')
P('C31', 'Files written hold the values computed',
  'Spectra, projections, displacement distributions, quasiparticle data and bands are written entry by entry next to the frequency, bin, '
  'wave vector or branch they belong to, to the digits printed; the crystal file lists each kind of atom at its place.',
  ['inputs', 'configurations'], 'all values; listed sizes and options', 'No test reads a written file.',
  ['dynaphopy/__init__.py', 'dynaphopy/interface/iofile/__init__.py'],
  [('write_* and save_* methods', 'dynaphopy/__init__.py'), ('write_curve_to_file, save_*_to_file, write_xsf_file', 'dynaphopy/interface/iofile/__init__.py')])
P('C14', 'POSCAR files are read and written faithfully',
  'Reading a POSCAR gives the cell times its scale factor, the sites in scaled or cartesian form as '
  'declared, and the species in the order of the file; writing a structure, expanded or not, gives a POSCAR with the same atoms, cell and '
  'species that reads back as the same crystal.',
  ['inputs', 'configurations'], 'all cells, coordinates and positive scale factors; coordinate forms, species orders and expansions listed',
  'Tests read one file in scaled coordinates with unit scale and never write one.',
  ['dynaphopy/interface/iofile/__init__.py', 'dynaphopy/generate_cell.py'],
  [('read_from_file_structure_poscar', 'dynaphopy/interface/iofile/__init__.py'), ('generate_VASP_structure', 'dynaphopy/generate_cell.py')])
P('C15', 'LAMMPS data files describe the same crystal',
  'The LAMMPS data file of an expanded structure has a box with the same edge lengths and angles and a right-handed lower-triangular '
  'shape, every atom of the expansion with its type and mass at the same place relative to the box, and counts that match.',
  ['inputs', 'configurations'], 'all positions, charges and masses; cells, species orders and expansions listed (cells with rational edge lengths)',
  'No test generates a LAMMPS file.', ['dynaphopy/generate_cell.py'], [('generate_LAMMPS_structure', 'dynaphopy/generate_cell.py')])
P('C22', 'Automatic ordering matches each atom to its site',
  'With automatic ordering a trajectory listing the atoms in any order gives the same displacements, velocities and site assignment as '
  'one listing them in the order of the expanded structure, for any cell, supercell and sites.',
  ['inputs', 'configurations'], 'all small displacements and velocities; sites in the cell and at its origin; listed supercells and permutations',
  'Tests use trajectories already in order, or one fixed permutation in an orthogonal cell.',
  ['dynaphopy/interface/iofile/__init__.py', 'dynaphopy/dynamics.py'],
  [('get_correct_arrangement / check_atoms_order', 'dynaphopy/interface/iofile/__init__.py')])
P('C23', 'The LAMMPS link keeps the identity of the atoms',
  'A trajectory produced through the LAMMPS library holds, for each atom, the positions and velocities of that atom at each sampled '
  'step, whatever order LAMMPS holds the atoms in and whenever that changes; time, temperature steps, box and supercell are those of the run.',
  ['inputs', 'schedules', 'configurations'], 'all displacements and velocities; permutations of the storage order that change during the run; three generations of the library interface',
  'LAMMPS is not available to the tests.', ['dynaphopy/interface/lammps_link.py'], [('generate_lammps_trajectory', 'dynaphopy/interface/lammps_link.py')],
  level='LAMMPS is a stand-in that moves atoms along prescribed paths.')
P('C24', 'Mismatched cells and force sets are refused, every time',
  'A simulation cell is accepted exactly when it is a whole number of unit cells along every vector within tolerance, '
  'and then the repeats are those numbers; force sets that belong to another supercell are refused. Asking again gives the same answer.',
  ['inputs', 'histories'], 'all ratios of the cell vectors between 0.6 and 4.4; orthogonal and tilted cells; supercells up to 3x3x3; asked twice',
  'Tests use matching cells.', ['dynaphopy/dynamics.py', 'dynaphopy/interface/phonopy_link.py'],
  [('Dynamics.get_supercell_matrix', 'dynaphopy/dynamics.py'), ('Structure.get_force_sets', 'dynaphopy/atoms.py')])
P('C25', 'Input file sections are independent of order and layout',
  'Each section of the input file sets its own parameter to the values written, wherever it stands in the file, with or without comment '
  'and blank lines between sections, a newline at the end or labels on the bands; other parameters keep their defaults.',
  ['inputs', 'configurations'], 'all matrices and band paths; orders of sections, separators, comments, labels and numbers of bands listed',
  'Tests read two well-formed files.', ['dynaphopy/interface/iofile/__init__.py'], [('read_parameters_from_input_file', 'dynaphopy/interface/iofile/__init__.py')])
P('C26', 'Changing a structure changes everything derived from it',
  'After positions, cell, masses or primitive matrix of a structure are set, every quantity it reports (scaled and cartesian sites, '
  'primitive cell, cell parameters, atom types and their numbers, expansions) refers to the new state, whatever was asked before.',
  ['histories', 'inputs'], 'all new values; each setter after each kind of earlier query',
  'Caches are only wrong after a particular order of calls, which no test makes.', ['dynaphopy/atoms.py'], [('set_cell / set_positions / set_masses / set_primitive_matrix', 'dynaphopy/atoms.py')])
P('C28', 'Command line options reach the setting they name',
  'Every option of the command line sets the parameter it documents and no other; each analysis asked for runs once with its options '
  'and after the settings; the files asked for hold what the analysis returns for these settings.',
  ['configurations', 'inputs'], 'all numeric option values; every option alone and with each of its group; every pair of analyses; each output with each setting; stored runs and projections; generated, driven and reordered runs; the menu',
  'No test runs the script.', ['scripts/dynaphopy', 'dynaphopy/parameters.py', 'dynaphopy/__init__.py'],
  [('scripts/dynaphopy', 'scripts/dynaphopy'), ('Parameters', 'dynaphopy/parameters.py'), ('Quasiparticle.select_* / set_*', 'dynaphopy/__init__.py')],
  level='Analyses with their own property are recorded here instead of run.')
P('C29', 'Equivalent atoms are those joined by primitive vectors',
  'Two atoms of the unit cell have the same type exactly when they have the same mass and a primitive lattice vector joins them, to a few hundredths of an Angstrom; types are numbered in order of '
  'appearance, and the types of a supercell, their number and their elements agree with that, whichever is asked first.',
  ['inputs', 'configurations', 'histories'], 'all places of two basis atoms with residual noise below tolerance; simple, body-, face- and base-centred, straight and tilted; listed orders of atoms and of calls',
  'Tests load three well-ordered crystals.', ['dynaphopy/atoms.py'], [('get_atom_type_index', 'dynaphopy/atoms.py')])
P('C32', 'Phonopy is given this crystal and its answer is scaled right',
  'The elements, masses, sites, cell, primitive matrix, supercell, forces, symmetry tolerance and corrections handed to phonopy are those of the '
  'structure and the request, and densities of states and thermal functions come back per unit cell with the frequencies asked for.',
  ['inputs', 'configurations'], 'all masses, temperatures and paths; three lattices; constants or sets, given or own, with and without corrections',
  'Tests use phonopy defaults for one material, whose masses are the tabulated ones.', ['dynaphopy/interface/phonopy_link.py'],
  [('get_phonon, obtain_phonopy_*', 'dynaphopy/interface/phonopy_link.py')], level='phonopy is a recording stand-in.')
P('C33', 'The temperature used is that of the velocities in use, or the one given',
  'Unless a temperature is given, the temperature an analysis uses is the equipartition value m v^2 = 3 kB T averaged over every atom and every '
  'step in use (after any steps were dropped), with the true mass of each atom; a given one is used as it is until withdrawn.',
  ['inputs', 'histories'], 'all masses, velocities and given temperatures; dropped steps, mode changes and repeated questions in between',
  'Tests set the temperature or use one trajectory at thermal equilibrium.', ['dynaphopy/__init__.py', 'dynaphopy/analysis/thermal_properties.py'],
  [('Quasiparticle.get_temperature / set_temperature', 'dynaphopy/__init__.py')], level='maxwell.fit is its closed form.')
P('C34', 'Force constants from a quasiparticle file match its wave vectors',
  'Force constants rebuilt from a saved quasiparticle file pair the frequencies and the modes of the same wave vector, whatever the order of the file, '
  'for the supercell asked for; a file that lacks a wave vector is refused; files of force constants hold what was saved.',
  ['inputs', 'configurations'], 'all frequencies and modes; supercells up to 7 repeats and 12 wave vectors; orders, options and missing wave vectors listed',
  'No test runs the script, and wave vectors such as 1/3 are rounded in the file.', ['scripts/rfc_calc', 'dynaphopy/interface/iofile/__init__.py'],
  [('get_renormalized_constants', 'scripts/rfc_calc'), ('save_quasiparticle_data_to_file', 'dynaphopy/interface/iofile/__init__.py')],
  level='phonopy is a recording stand-in.')
P('C35', 'Quasi-harmonic force constants belong to the volume of the temperature',
  'The quasi-harmonic extraction gives phonopy the energy and thermal functions of each volume, whatever the order of the files, and writes the force '
  'constants interpolated, from each file at its own volume, at the volume of the requested temperature; volumes out of range are refused.',
  ['inputs', 'configurations'], 'all energies, thermal functions, force constants and equilibrium volumes; every order of three volumes; five temperatures',
  'No test runs the script.', ['scripts/qha_extract'], [('qha_extract', 'scripts/qha_extract')],
  level='phonopy is a recording stand-in; quadratic interpolation through three points.')
P('C36', 'OUTCAR files give the crystal they describe',
  'The crystal read from an OUTCAR has the lattice vectors, cartesian positions and number of atoms of the file, and each atom has the mass and the '
  'element of its type, with or without the pseudopotentials listed before; a file that does not exist is refused.',
  ['inputs', 'configurations'], 'all lattice vectors and positions; up to four types of up to three atoms; listed masses',
  'Tests read the crystal from a POSCAR.', ['dynaphopy/interface/iofile/__init__.py'],
  [('read_from_file_structure_outcar', 'dynaphopy/interface/iofile/__init__.py')])
P('C37', 'The test trajectory is a sum of plane waves of the harmonic modes',
  'The generated test trajectory moves every atom by the sum, over the wave vectors of the supercell and the modes above the minimum frequency, of plane waves '
  'with the phase q.r plus the initial phase, the harmonic frequency, 1/sqrt(m), and an amplitude set by the temperature over the frequency.',
  ['inputs', 'configurations'], 'all masses, temperatures and modes; listed frequencies (negative and small included), initial phases and supercells; up to three steps',
  'The test of it checks the spectrum of one crystal without initial phase.', ['dynaphopy/interface/iofile/__init__.py'],
  [('generate_test_trajectory', 'dynaphopy/interface/iofile/__init__.py')])
P('C38', 'Figures show the data they are labelled with',
  'Every figure draws, against the right abscissa, the quantity of its title and labels: bands and their renormalised values, linewidths and shifts branch by branch along '
  'the path, with the names of the special points (both names where paths do not meet); spectra and densities of states; quantities of the trajectory at the instants '
  'of their steps; bars at the centres of their bins; and, for a mode, the displacement of every atom of the cell, e exp(i q.r)/sqrt(m).',
  ['inputs', 'configurations'], 'all values drawn; two paths with listed labels; up to four points, three modes, five steps; options of each figure',
  'No test draws anything.', ['dynaphopy/__init__.py', 'dynaphopy/analysis/modes.py'],
  [('plot_* methods of Quasiparticle', 'dynaphopy/__init__.py'), ('plot_phonon_modes', 'dynaphopy/analysis/modes.py')],
  level='matplotlib is replaced by a stand-in that records what is drawn.')
P('C39', 'The interactive menu does what its entries say',
  'In the interactive mode each entry runs the analysis it names, once; a setting typed or chosen reaches every later result exactly as the function of the library for it does; '
  'the frequencies listed and the state shown are the current ones.',
  ['inputs', 'histories'], 'all vectors typed, velocities, masses; all pairs of an entry with a listed second one, with or without results asked before',
  'No test opens the menu.', ['dynaphopy/interface/interactive_ui.py'],
  [('interactive_interface', 'dynaphopy/interface/interactive_ui.py')], level='The terminal is replaced by a script of keys and lines.')
P('C40', 'Reports on screen show the quantities computed',
  'The report of each peak, the table of thermal properties, the scan over coefficients, average positions and displacement parameters print, under their names '
  'and for the right peak or atom, the values the analysis computes; energy, occupation number and temperature of a peak belong together; '
  'the best fit of a scan is that with the smallest error.',
  ['inputs', 'configurations'], 'all values reported; up to three peaks, three numbers of coefficients, any single failed fit; listed crystals; options of each report',
  'Tests run with the screen silent.', ['dynaphopy/__init__.py', 'dynaphopy/analysis/fitting/__init__.py', 'dynaphopy/power_spectrum/__init__.py'],
  [('phonon_fitting_analysis', 'dynaphopy/analysis/fitting/__init__.py'), ('mem_coefficient_scan_analysis', 'dynaphopy/power_spectrum/__init__.py'),
   ('display_thermal_properties', 'dynaphopy/__init__.py')], level='Fits, estimators, phonopy and matplotlib are stand-ins.')
P('C41', 'Fitting spectra of a file uses every row of it',
  'fitdata fits every row of a saved spectrum, for each band or for the average of each set of bands asked for, with the fitting function asked for; '
  'smoothing is the local linear regression of the nearest fraction of points, which leaves straight lines as they are; what it saves is what it fitted.',
  ['inputs', 'configurations'], 'all values of up to 7 rows and 4 bands (smoothing up to 8 rows; 101 and 151 rows with six free values); listed sets of bands and factors',
  'The script is not tested.', ['scripts/fitdata', 'dynaphopy/interface/iofile/__init__.py'],
  [('loess', 'scripts/fitdata'), ('write_curve_to_file', 'dynaphopy/interface/iofile/__init__.py')], level='The fit itself is a stand-in that records what it is given (see C16).')


P('C42', 'Elements, atomic numbers and masses describe the same atoms',
  'A structure given by its elements or atomic numbers has their standard masses, and one given only by its masses, as in an OUTCAR file, has the element and '
  'the atomic number of each atom, in order and one per atom, also when the masses differ slightly from the standard ones. Masses given with the elements are kept.',
  ['inputs', 'configurations'], 'all masses within 0.1 of the standard ones (Ar and Ca 0.06), all elements up to Cm that have a standard mass (numbers and symbols of the others as well)',
  'The tests load silicon and gallium nitride.', ['dynaphopy/atoms.py'], [('Structure.__init__, atom_data, symbol_map', 'dynaphopy/atoms.py')])
P('C43', 'Velocities that are not given are the time derivative of the displacements',
  'For a trajectory without velocities each atom has, at each step, the derivative of its displacement with respect to time: the central difference, one-sided at both ends, '
  'divided by the time step, also when the atom crosses the boundary of the simulation cell, for cartesian or scaled coordinates, in memory or mapped to disk. '
  'The time step is the mean difference of consecutive times.',
  ['inputs', 'configurations'], 'all cells, masses, positions and displacements below 0.3 of the cell; listed crossings; up to 4 steps (12 thorough), time steps from 0.00025 to 0.5; '
  'times with any steps for the mean', 'Every trajectory of the tests has velocities.', ['dynaphopy/dynamics.py'],
  [('Dynamics.velocity', 'dynaphopy/dynamics.py'), ('Dynamics.get_time_step_average', 'dynaphopy/dynamics.py')])
