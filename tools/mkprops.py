import json, pathlib
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw)))
IO='ramannoodle/io/'
p('C01','Written structure and trajectory files read back as what was written',
 'Any valid structure (or trajectory) written to a POSCAR (or XDATCAR) reads back, through every reader of that format (positions, structure, reference structure, trajectory, specific or generic entry point, and a third-party reader), as the same lattice, the same atomic numbers in the same order, and the same positions in the same frame order, to the printed precision. A label of printable characters without quotes or backslashes is the first line of the file. The label text, the path type, the entry point and overwriting an older, longer file make no difference.',
 ['inputs'],'All lattices, groupings of any of the 118 elements, atom counts, positions in [0,1], frame counts, label strings, path types and writer/reader pairings.',
 'The existing tests round-trip one structure and one trajectory with one label through one pair of functions.',
 [IO+'vasp/poscar.py',IO+'vasp/xdatcar.py',IO+'generic.py','ramannoodle/constants.py'],
 [('POSCAR writer and readers',IO+'vasp/poscar.py: write_structure, read_structure, read_positions, read_ref_structure'),
  ('XDATCAR writer and readers',IO+'vasp/xdatcar.py: write_trajectory, read_positions_ts, read_trajectory'),
  ('format dispatch',IO+'generic.py: read_*/write_* tables'),('element tables','ramannoodle/constants.py: ATOM_SYMBOLS, ATOMIC_NUMBERS')])
p('C02','Every valid rendering of a POSCAR or XDATCAR reads as the same structure',
 'A POSCAR or XDATCAR denotes the structure that the VASP format assigns to it: the universal scale factor (or, if negative, the cell volume) applies to the lattice and to Cartesian positions, Direct and Cartesian coordinates of the same atoms give the same fractional positions, and selective-dynamics flags, trailing labels, letter case of the mode line, whitespace and velocity blocks do not change what is read. All readers of one file agree with one another.',
 ['inputs'],'All structures crossed with all renderings (scale factor, coordinate mode, selective dynamics, comments, spacing, number formats, repeated element blocks, trailing blocks).',
 'Tests read a handful of committed files, none with a scale factor other than 1 in Cartesian mode.',
 [IO+'vasp/poscar.py',IO+'vasp/xdatcar.py'],
 [('header parsing',IO+'vasp/poscar.py: _read_lattice, _read_atomic_symbols'),('coordinate parsing',IO+'vasp/poscar.py: _read_positions'),('frame loop',IO+'vasp/xdatcar.py: read_positions_ts')])
p('C03','OUTCAR readers return exactly the physical content of the calculation',
 'From an OUTCAR, the readers return the initial structure, the polarizability (macroscopic static dielectric tensor including local-field effects), the phonons (wavenumbers in cm-1, negative if imaginary; displacements equal to the fractional eigenvectors divided by the square root of the atomic masses) and the trajectory (timestep and every kept configuration in order, with the ab initio step that repeats a machine-learned step skipped) that the file states. Every reader and the generic entry point report the same values for the same file.',
 ['inputs'],'All structures, element sets, pseudopotential names, header layouts, polarizabilities, mode sets with real and imaginary modes, and sequences of ab initio and machine-learned steps rendered as an OUTCAR.',
 'Tests compare a few numbers from about a dozen committed files, with no imaginary modes at chosen positions, no asymmetric cells and one trajectory.',
 [IO+'vasp/outcar.py',IO+'generic.py','ramannoodle/dynamics/_phonon.py','ramannoodle/constants.py'],
 [('symbols and counts',IO+'vasp/outcar.py: _read_atomic_symbols'),('lattice/positions/polarizability',IO+'vasp/outcar.py: _read_lattice, _read_positions, _read_polarizability'),('phonons',IO+'vasp/outcar.py: read_phonons, _read_eigenvector'),('trajectory',IO+'vasp/outcar.py: read_trajectory')])
p('C04','vasprun.xml readers return the stated content and agree with OUTCAR',
 'From a vasprun.xml, the readers return the structure, polarizability, phonons and trajectory that the file states, in the same units, order and sign conventions as the OUTCAR readers (imaginary modes have negative wavenumbers). The OUTCAR and vasprun.xml of one calculation therefore give the same results, and so do all readers of one file.',
 ['inputs'],'All calculations (structures, elements, polarizabilities, modes with both signs, frames) rendered both as a vasprun.xml and as an OUTCAR.',
 'Tests read two committed vasprun.xml files, all of whose tested modes are real, and never compare formats.',
 [IO+'vasp/vasprun.py',IO+'vasp/outcar.py',IO+'generic.py'],
 [('structure parsing',IO+'vasp/vasprun.py: _parse_atomic_symbols, _parse_lattice, _parse_positions'),('polarizability',IO+'vasp/vasprun.py: _parse_polarizability'),('phonons',IO+'vasp/vasprun.py: _parse_eigenvalues, _parse_eigenvectors, read_phonons'),('trajectory',IO+'vasp/vasprun.py: read_trajectory, _parse_timestep')])
p('C05','Damaged files raise the documented error and never give partial objects',
 'Reading a truncated, cut or garbled file of a supported format either raises the documented invalid-file error or returns a complete, well-formed object (matching atom counts, shapes and finite sizes). No other exception type escapes, and a missing file raises a file-not-found error.',
 ['inputs','crash_points'],'All truncation points, line deletions, line duplications and token corruptions of valid files of every supported format, crossed with every reader.',
 'Tests hold about ten hand-made malformed files; a calculation can be cut off at any byte.',
 [IO+'vasp/outcar.py',IO+'vasp/vasprun.py',IO+'vasp/poscar.py',IO+'vasp/xdatcar.py',IO+'_utils.py'],
 [('line and token parsers',IO+'vasp/*.py: _read_*, _parse_*'),('search for block headings',IO+'_utils.py: _skip_file_until_line_contains')])
p('C06','Writers never clobber, create or damage files unless asked to',
 'A writer given an existing path leaves the file untouched and raises an already-exists error unless overwriting was requested, in which case the file afterwards holds exactly the new content. A call rejected for invalid arguments (wrong shapes, positions outside [0,1], invalid or ungrouped atomic numbers, unsupported formats, wrong number of paths) creates no file and changes no existing one.',
 ['inputs','histories'],'All sequences of valid and invalid write calls, with and without overwriting, over a directory of new and existing files, for every writer.',
 'Tests write to fresh scratch files and only assert on the exception raised.',
 [IO+'vasp/poscar.py',IO+'vasp/xdatcar.py',IO+'_utils.py',IO+'generic.py','ramannoodle/structure/_displace.py'],
 [('open mode',IO+'vasp/poscar.py: write_structure; '+IO+'vasp/xdatcar.py: write_trajectory'),('argument checks before opening',IO+'_utils.py: verify_structure, verify_trajectory'),('multi-file writers','ramannoodle/structure/_displace.py: write_displaced_structures')])
p('C07','Polarizability datasets are assembled faithfully from files and structures',
 'A dataset read from files, or built from third-party structures, holds one sample per source in the given order, with that source\'s positions and polarizability and the common lattice and atomic numbers. Sources whose lattice, atomic numbers or number of atoms differ are rejected with the documented incompatibility error, wherever they occur in the list.',
 ['inputs'],'All lists of OUTCARs, vasprun.xml files or pymatgen structures, and any single incompatible member at any position.',
 'Tests assemble one list of files in one order.',
 [IO+'_utils.py',IO+'generic.py',IO+'pymatgen.py',IO+'vasp/outcar.py',IO+'vasp/vasprun.py','ramannoodle/dataset/torch/_dataset.py'],
 [('dataset assembly',IO+'_utils.py: _read_polarizability_dataset'),('assembly from pymatgen',IO+'pymatgen.py: construct_polarizability_dataset')])
S='ramannoodle/structure/'
p('C08','Periodic positions, displacements and unit conversions form one algebra',
 'Wrapped positions lie in [0,1] and differ from the originals by integers; the displacement between two configurations is the minimum-image one (each component in (-1/2,1/2]), is antisymmetric, unaffected by lattice translations, and carries the first configuration onto the second. Converting displacements and directions to Cartesian coordinates and back is the identity for every lattice, linear in the direction, and independent of how many configurations are converted at once.',
 ['inputs'],'All positions, displacements, integer translations, batches and (skewed, large, small, left-handed) lattices.',
 'Tests check a few vectors in a few cells, none strongly skewed or smaller than the direction vector.',
 [S+'utils.py',S+'_reference.py'],
 [('periodic boundary conditions',S+'utils.py: apply_pbc, apply_pbc_displacement, displace_positions, calc_displacement, transform_positions'),('conversions',S+'_reference.py: get_cart_displacement, get_frac_displacement, get_cart_direction, get_frac_direction')])
p('C09','Equivalent atoms and displacements are exactly those of the space group',
 'Atoms reported as equivalent are those related by the structure\'s symmetry, and each equivalence class is reported once. Displacements reported as equivalent to a given one are its images under actual symmetry operations (the reported operation maps the crystal onto itself and the displacement onto its image), start with the displacement itself, are grouped into mutually orthogonal collinear sets without duplicates, and include the image (up to sign) on every equivalent atom.',
 ['inputs'],'All crystals (all lattice systems, settings, cell choices, origins, rotations, atom orders, supercells, distortions within the tolerance) and all displacement directions.',
 'Tests count equivalent atoms and displacements of two or three cells with orthogonal axes.',
 [S+'_reference.py',S+'_symmetry_utils.py',S+'utils.py'],
 [('symmetry operations and atom permutations',S+'_reference.py: ReferenceStructure.__init__, _compute_permutation_matrices'),('equivalent displacements',S+'_reference.py: get_equivalent_displacements'),('orthogonality and collinearity',S+'_symmetry_utils.py')])
p('C10','Displaced structures lie at the requested amplitude along the direction',
 'Each displaced configuration differs from the reference by the requested amplitude (in angstrom, signed) along the normalised Cartesian displacement, whatever the magnitude of the displacement given, with positions in [0,1]; displacing one atom moves that atom only. The files written hold those configurations, one per path in order, and the amplitudes recovered from them by a model equal the requested ones.',
 ['inputs'],'All structures, lattices, displacements and directions of any magnitude, amplitudes of both signs and any number, file lists of any length.',
 'Tests displace one structure by one amplitude and write a handful of files.',
 [S+'_displace.py',S+'_reference.py','ramannoodle/exceptions.py'],
 [('displaced configurations',S+'_displace.py: get_displaced_positions, get_ast_displaced_positions'),('files',S+'_displace.py: write_displaced_structures, write_ast_displaced_structures')])
M='ramannoodle/pmodel/'
p('C11','Interpolation models reproduce their data and sum independent contributions',
 'An interpolation model returns the supplied polarizability at every supplied amplitude and the reference polarizability at the reference structure; between and beyond them each degree of freedom follows the spline of the requested order through its points, and the change in polarizability of an arbitrary configuration is the sum of the changes along each degree of freedom. The result for a configuration does not depend on the rest of the batch, on lattice translations of its atoms, on motion outside the specified degrees of freedom, or on the order in which degrees of freedom were added.',
 ['inputs','histories'],'All structures, sets of orthogonal degrees of freedom, amplitudes, polarizabilities (symmetric or not), interpolation orders, with or without the reference point, and batches of configurations.',
 'Tests compare a few predictions with fixed numbers for one crystal.',
 [M+'_interpolation.py',S+'utils.py'],
 [('prediction',M+'_interpolation.py: calc_polarizabilities'),('spline construction',M+'_interpolation.py: _construct_and_add_interpolations'),('degrees of freedom',M+'_interpolation.py: add_dof, _get_dof')])
p('C12','Model predictions transform as tensors under the crystal\'s symmetry',
 'When a model is given the polarizabilities of one displacement, its predictions for the symmetry-equivalent displacements among the degrees of freedom it adds (mutually orthogonal images, of those that are not the first found) are the correspondingly rotated Cartesian tensors, for every lattice type, cell setting, orientation and atom order. Consequently, trained on values of a material whose polarizability obeys the crystal\'s symmetry, the model reproduces the material\'s values on every degree of freedom it adds, and describing the same crystal rotated, re-ordered or in another setting gives the correspondingly transformed predictions.',
 ['inputs'],'All crystals, displacements, amplitudes and symmetry-respecting polarizability functions (bond-polarizability oracle).',
 'Tests use crystals with orthogonal axes and compare with stored numbers.',
 [M+'_interpolation.py',M+'_art.py',S+'_reference.py'],
 [('tensor rotation',M+'_interpolation.py: _get_dof'),('operations',S+'_reference.py: get_equivalent_displacements')])
p('C13','Degrees of freedom stay orthonormal and rejected additions change nothing',
 'After any sequence of additions, accepted or rejected, the model\'s degrees of freedom are unit vectors, mutually orthogonal, at most three per atom, one interpolation and one mask entry each, and existing ones never change; symmetry-equivalent directions that overlap existing degrees of freedom are not added again. An addition that is not orthogonal to those present, that duplicates amplitudes (given or generated by symmetry), that lacks points for the requested order or that has the wrong shape is rejected with the documented error and leaves the model\'s degrees of freedom, mask and predictions exactly as they were.',
 ['histories','inputs'],'All sequences of valid and invalid additions in memory, from files and from third-party structures.',
 'Tests check single rejected calls by exception text, never the model state afterwards or long sequences.',
 [M+'_interpolation.py',M+'_art.py',S+'_symmetry_utils.py'],
 [('orthogonality check',M+'_interpolation.py: _get_dof; '+S+'_symmetry_utils.py: is_orthogonal_to_all'),('amplitude checks and commit',M+'_interpolation.py: _construct_and_add_interpolations')])
p('C14','Masking removes exactly the chosen contributions and nothing else',
 'Masking degrees of freedom removes their contributions to predictions and leaves all others as they were, so predictions of complementary maskings sum to the unmasked ones about the reference. A masked copy leaves the original model unaffected, masking replaces any earlier mask, unmasking restores the original predictions, and degrees of freedom added later are unmasked.',
 ['histories','inputs'],'All models, index sets (empty, repeated, all), sequences of masking, copying, unmasking and adding, and configurations.',
 'Tests mask one model by element and compare spectra with stored ones.',
 [M+'_interpolation.py',M+'_art.py'],
 [('mask',M+'_interpolation.py: mask, get_masked_model, unmask, calc_polarizabilities'),('selection by atom',M+'_art.py: get_dof_indexes, get_masked_model')])
p('C15','Atomic Raman tensor models agree with the interpolation models they restrict',
 'An atomic-Raman-tensor model predicts exactly what an interpolation model with the same single-atom displacements, first order and no reference point predicts. Its degrees of freedom each move one atom; the degree-of-freedom indexes, directions and equivalent atoms it reports for atom indexes and element symbols are exactly those of the degrees of freedom it holds; and displacements of several atoms, or the wrong number of amplitudes, are rejected.',
 ['inputs','histories'],'All crystals, atoms, directions, amplitudes and polarizabilities, and all index/symbol queries.',
 'Tests build one model from committed files and check its text summary.',
 [M+'_art.py',M+'_interpolation.py',S+'_reference.py'],
 [('ART construction',M+'_art.py: add_art, add_art_from_files, add_art_from_pymatgen'),('queries',M+'_art.py: get_specification_tuples, get_dof_indexes; '+S+'_reference.py: get_atom_indexes, get_equivalent_atom_dict')])
p('C16','The route and units of specifying a degree of freedom do not matter',
 'A model given a degree of freedom in memory, from files of any supported format, or from third-party structures predicts the same polarizabilities, whatever the magnitude of the displacement given, the order of amplitudes or files, and (with amplitudes negated) its sign. A dummy model accepts the same degrees of freedom without polarizabilities and always refuses to predict.',
 ['inputs'],'All crystals, displacements, scalings, permutations, formats and amplitudes.',
 'Tests add each degree of freedom by one route, at one scale, from one ordering of files.',
 [M+'_interpolation.py',M+'_art.py',IO+'pymatgen.py',IO+'generic.py'],
 [('in memory',M+'_interpolation.py: add_dof'),('from files',M+'_interpolation.py: add_dof_from_files, _read_dof'),('from pymatgen',M+'_interpolation.py: add_dof_from_pymatgen')])
R='ramannoodle/spectrum/'
p('C17','Phonon Raman spectra follow the first-order Raman formula',
 'The Raman tensor of each phonon is the central difference of the model\'s polarizability along the phonon displacement, (alpha(ref + 0.001 u) - alpha(ref - 0.001 u)) / 0.001, so that it is linear in the displacement where the model is, and the polycrystalline intensity is 45 alpha^2 + 7 gamma^2 of that tensor, multiplied by exactly the requested laser and Bose-Einstein corrections at the phonon\'s wavenumber. Intensities are unchanged by rotating (symmetric) tensors, by reversing phonons or permuting them (with their wavenumbers), scale quadratically with the tensors, and measuring never alters the spectrum.',
 ['inputs'],'All phonon sets, models, tensors, wavenumbers, laser wavelengths and temperatures.',
 'Tests compare with a few stored spectra; they cannot cover all tensors, corrections and models.',
 [R+'_raman.py','ramannoodle/dynamics/_phonon.py','ramannoodle/constants.py'],
 [('Raman tensors','ramannoodle/dynamics/_phonon.py: get_raman_spectrum'),('intensities and corrections',R+'_raman.py: PhononRamanSpectrum.measure, get_laser_correction, get_bose_einstein_correction')])
p('C18','Molecular-dynamics Raman spectra are the spectra of the polarizability series',
 'A trajectory\'s spectrum is that of the polarizability series its model predicts, and its intensity is 45 and 7 times the isotropic and anisotropic parts of the positive-frequency Fourier transform of the autocorrelation of the series\' time differences, without the zero-frequency point, times the requested corrections (at least two configurations are needed). It is unchanged by constant offsets, rotations (of symmetric tensors) and sign of the series, scales quadratically with it, its wavenumber axis scales inversely with the timestep, and a series oscillating at one frequency peaks there.',
 ['inputs'],'All polarizability series, lengths (even and odd), timesteps and correction settings.',
 'The one spectrum test depends on a file that is not in the repository and fails.',
 [R+'_raman.py',R+'utils.py','ramannoodle/dynamics/_trajectory.py'],
 [('signal spectrum',R+'utils.py: calc_signal_spectrum, _calc_autocorrelation'),('intensities',R+'_raman.py: MDRamanSpectrum.measure'),('composition','ramannoodle/dynamics/_trajectory.py: get_raman_spectrum')])
p('C19','Convolution spreads each line by a unit-area profile and nothing else',
 'A convolved spectrum equals the sum over lines of the line intensity times a unit-area Gaussian (standard deviation equal to the width) or Lorentzian (full width at half maximum equal to the width) centred on the line, at exactly the requested output wavenumbers, or on an automatic grid of about 1 cm-1 spacing reaching 100 cm-1 beyond the lines. It is linear in the intensities, independent of the order of lines, preserves total intensity, and leaves its inputs unchanged.',
 ['inputs'],'All line lists, widths, profiles, output grids (including integer ones) and intensities of either sign.',
 'Tests compare two stored convolutions.',
 [R+'utils.py'],[('convolution',R+'utils.py: convolve_spectrum')])
p('C20','Trajectories and phonons are faithful containers of what they were given',
 'A trajectory behaves as the immutable sequence of its configurations, wrapped into [0,1] and otherwise unchanged: its length, iteration, positive, negative and slice indexing, reversal and out-of-range errors are those of a sequence, and the timestep is the one given. Phonons keep wavenumbers, displacements and reference positions unchanged (displacements are never wrapped), and inconsistent shapes or non-positive timesteps are rejected.',
 ['inputs','histories'],'All arrays of configurations, modes, timesteps (ints, floats, strings of digits excluded) and index expressions.',
 'Tests index one trajectory in two places.',
 ['ramannoodle/dynamics/_trajectory.py','ramannoodle/dynamics/_phonon.py',IO+'pymatgen.py'],
 [('sequence protocol','ramannoodle/dynamics/_trajectory.py: __len__, __getitem__'),('validation','ramannoodle/dynamics/_phonon.py: __init__')])
p('C21','Results and arguments are never shared, so no caller can corrupt an object',
 'Properties that an object documents as copies (of reference structures, models, dynamics, spectra, datasets) and the results of its computations can be modified in place without changing what the object returns afterwards. No operation of the library modifies the arrays or lists passed to it, objects do not share the arrays or lists they were constructed from or set to, and repeating a query gives the same answer.',
 ['histories','inputs'],'All sequences of queries interleaved with in-place modification of everything returned, comparing every argument before and after each call.',
 'Tests never modify what they receive nor compare arguments before and after a call.',
 [S+'_reference.py',M+'_interpolation.py','ramannoodle/dynamics/_phonon.py','ramannoodle/dynamics/_trajectory.py',R+'_raman.py','ramannoodle/dataset/torch/_dataset.py'],
 [('copying accessors','properties documented as "Get (a copy of)"'),('computations','calc_polarizabilities, measure, get_displaced_positions, convolve_spectrum, write_*')])
p('C22','Dataset scaling is exact, invertible and compatible with training',
 'A dataset\'s scaled polarizabilities are its polarizabilities minus the mean, divided by the (population) standard deviation, element by element over the samples, as six-vectors in the order xx, yy, zz, xy, xz, yz; rescaling with another mean and deviation always starts from the unscaled values. Conversion between six-vectors and symmetric tensors is lossless both ways, samples are returned in order with the default floating-point type, and a rescaled dataset has the same types and shapes as a fresh one.',
 ['inputs','histories'],'All sample sets, scalings in any sequence, and indexes.',
 'Tests build one dataset and check a few values.',
 ['ramannoodle/dataset/torch/_dataset.py','ramannoodle/dataset/torch/utils.py'],
 [('scaling','ramannoodle/dataset/torch/_dataset.py: __init__, scale_polarizabilities'),('vector/tensor conversion','ramannoodle/dataset/torch/utils.py')])
p('C23','Neural-network predictions depend only on the configuration itself',
 'A graph-neural-network model\'s prediction for a configuration is a symmetric tensor that does not depend on the rest of the batch, the batch size or the configuration\'s place in it, on earlier predictions or training-mode switches, or on lattice translations of atoms or of the whole crystal, and swapping atoms of the same species consistently in the reference and configuration changes nothing. The same parameters predict the same for a repeated cell, and the mean for cells that do not interact. Reflecting the crystal in a coordinate plane reflects the prediction. Resetting parameters leaves nothing of the earlier ones. Predictions are the de-scaled outputs of the network, whose edges are exactly the pairs of atoms within the cutoff by minimum image.',
 ['inputs','histories'],'All structures, cutoffs, network sizes and weights, batches (also beyond 100 configurations) and sequences of calls with different batch sizes.',
 'Tests run one network on one batch and look at shapes or stored values.',
 [M+'torch/_gnn.py',M+'torch/_utils.py'],
 [('batching',M+'torch/_gnn.py: calc_polarizabilities, _batch_graph, forward'),('graph and triplet cache',M+'torch/_utils.py: _radius_graph_pbc, BatchTriplets, batch_positions')])
p('C24','One training epoch visits every sample once and validates without learning',
 'One training epoch passes every training sample exactly once through the network, in batches of the requested size, and updates the parameters once per batch from that batch\'s gradient alone. It returns the mean training loss over batches, and the mean validation loss and prediction variance computed with the final parameters in evaluation mode (over batches of at most 100 samples), without the validation set, or gradients left over from before, influencing the parameters.',
 ['inputs','histories'],'All datasets, batch sizes (dividing and not dividing the number of samples), optimisers, losses and sequences of epochs.',
 'Tests run an epoch and check that the loss is finite or falls.',
 [M+'torch/_train.py',M+'torch/_gnn.py','ramannoodle/dataset/torch/_dataset.py'],
 [('epoch',M+'torch/_train.py: train_single_epoch')])
p('C25','Third-party structures convert without loss or distortion',
 'A structure or trajectory taken from pymatgen is the same crystal: lattice, species in order, positions, frames and timestep are preserved, and a reference structure built from it has the same symmetry and predicts the same as one built from the raw arrays or from a file of that structure. A trajectory stored as displacements denotes the same configurations as one stored as positions, and variable-cell trajectories are rejected.',
 ['inputs'],'All pymatgen structures and constant-cell trajectories, in either storage mode.',
 'Tests convert one structure and one trajectory stored as positions.',
 [IO+'pymatgen.py',S+'_reference.py'],
 [('conversion',IO+'pymatgen.py: get_structure, construct_ref_structure, construct_trajectory')])
p('C26','Arguments of the wrong shape or kind are rejected, never silently broadcast',
 'Every public constructor, setter and computation that documents the shape or kind of an argument rejects arrays of any other shape with a value error (or the documented error), out-of-range indexes and scalars with the documented error, and values of the wrong kind with a type error (text and lists that numpy itself can treat as an array excepted), instead of broadcasting, truncating or computing with them. This holds for every size, and a rejected call leaves its object unchanged.',
 ['inputs'],'All documented shapes perturbed in rank or in any one dimension (including sizes of 1 that would broadcast, and sizes beyond 256), and wrong types.',
 'Tests try one or two wrong shapes per function, mostly of the wrong rank.',
 ['ramannoodle/exceptions.py',M+'_interpolation.py',M+'_art.py',S+'_reference.py',S+'_displace.py',R+'_raman.py',R+'utils.py','ramannoodle/dynamics/_phonon.py','ramannoodle/dynamics/_trajectory.py','ramannoodle/dataset/torch/_dataset.py'],
 [('shape checks','ramannoodle/exceptions.py: verify_ndarray_shape, verify_list_len; ramannoodle/dataset/torch/utils.py: verify_tensor_size')])
p('C27','The whole workflow gives the spectrum of the material, however described',
 'For a material whose polarizability is linear in the displacements and obeys its symmetry, the workflow from calculations (in memory, OUTCARs or vasprun.xml files) through a complete polarizability model (interpolation or atomic Raman tensors) to a spectrum gives the Raman tensors and intensities that the material and its phonons have, and a molecular-dynamics spectrum that is that of its polarizability along the path. Neither depends on the order of atoms, the unit cell, the origin, the orientation of the crystal, the sources of the data, the kind of model, or which (complete) set of displacements was calculated.',
 ['inputs','configurations'],'All crystals (with any space group), linear covariant polarizabilities, phonons, paths, complete sets of displacements, descriptions of one crystal, sources and spectrum settings.',
 'Tests compute each step separately, for one or two materials in one description each; the steps are never composed and compared with a known material.',
 [IO+'generic.py',IO+'vasp/outcar.py',IO+'vasp/vasprun.py',S+'_reference.py',M+'_interpolation.py',M+'_art.py','ramannoodle/dynamics/_phonon.py','ramannoodle/dynamics/_trajectory.py',R+'_raman.py'],
 [('reading',IO+'generic.py: read_ref_structure, read_phonons'),('models',M+'_interpolation.py: add_dof, add_dof_from_files; '+M+'_art.py: add_art, add_art_from_files'),('spectra','ramannoodle/dynamics/_phonon.py, _trajectory.py: get_raman_spectrum; '+R+'_raman.py: measure')])
p('C28','Calls depend on their arguments only, and leave the process as they found it',
 'Results are reproducible: they depend on the arguments and objects given alone, not on random generators, numpy, torch, warning or decimal settings, gradient mode, working directory, locale, environment, hash seeds or interpreter flags (text descriptions may follow numpy\'s settings for printing), and are the same in every process; making and training networks depend in addition on torch\'s random generator only. No call, accepted or rejected, changes any of that state (except drawing from torch\'s generator when a network is made or trained), prints to standard output, leaves files open, or leaves other files behind.',
 ['inputs','histories','configurations'],'All public calls on generated objects, valid and invalid arguments, intact and damaged files, training runs, and states of the process.',
 'Tests look at return values only, in one process in its default state.',
 ['ramannoodle/',IO+'vasp/',M+'torch/_gnn.py',M+'torch/_train.py',S+'_reference.py'],
 [('files',IO+'vasp/*.py: open; '+IO+'_utils.py'),('gradient and training modes',M+'torch/_gnn.py: calc_polarizabilities; '+M+'torch/_train.py: train_single_epoch'),('warnings and errors','ramannoodle/exceptions.py; '+M+'_interpolation.py: get_masked_model, calc_polarizabilities')])
p('C29','Objects can be copied, stored, and used by several threads at once',
 'Structures, models, networks, trajectories, phonons, spectra, and datasets copied with copy.deepcopy, or pickled and loaded, give the same answers as the original, and changing either leaves the other as it was. Calls that make objects, query them, predict, compute spectra, convert, and read or write (different) files give the same results whether made one after another or by several threads at once, on shared objects or on separate objects made from the same ones; changing one object never disturbs calls on another.',
 ['schedules','histories','inputs'],'All public objects, sequences of copying and changing, and interleavings (line by line of the library) of two or three threads.',
 'Tests run in one thread, one call at a time, and never copy or store an object.',
 [M+'_interpolation.py',M+'torch/_gnn.py',M+'torch/_utils.py',S+'_reference.py','ramannoodle/dataset/torch/_dataset.py',R+'_raman.py',R+'utils.py'],
 [('caches and work arrays',M+'torch/_utils.py: BatchTriplets.get_triplets; '+M+'_interpolation.py: calc_polarizabilities'),('copies',M+'_interpolation.py: get_masked_model'),('files',IO+'vasp/*.py')])
p('C30','Without optional packages everything else works, and what needs them says so',
 'PyTorch, torch_geometric, and pymatgen are optional. In a process in which any of them is not installed, every module that does not need them imports (in any order), and every call that does not need them gives the same results as with everything installed, needing nothing but the packages that the base version declares. Importing or calling what needs a missing package raises the documented user error naming the functionality, whether once or repeatedly, and leaves the rest usable.',
 ['configurations','histories'],'All sets of missing optional packages, orders of imports and calls, and arguments of the calls.',
 'Tests run with every optional package installed.',
 ['ramannoodle/exceptions.py',IO+'generic.py',IO+'_utils.py',IO+'pymatgen.py',M+'_interpolation.py',M+'_art.py','ramannoodle/dataset/torch/_dataset.py',M+'torch/_gnn.py'],
 [('flags',IO+'_utils.py: TORCH_PRESENT; '+IO+'generic.py: TORCH_PRESENT; '+M+'_interpolation.py: PYMATGEN_PRESENT'),('import errors','ramannoodle/exceptions.py: get_torch_missing_error, get_pymatgen_missing_error')])
p('C31','What a model says about itself, and its warnings, are true',
 'At every point of the history of a polarizability model (additions accepted or refused, masks, masked and other copies, dummy models) its description states how many degrees of freedom are specified out of how many and marks it complete exactly when all are, states how many are masked whenever some are, and says whether it is a dummy. The table of an ART model has one row per symmetrically distinct atom with the directions specified, their number, and the number of equivalent atoms, and (for directions whose symmetric images are collinear or orthogonal) adds up to the degrees of freedom of the model. A complete model accepts no more. The warning that amplitudes do not bracket zero is issued exactly when those given, those that symmetry adds, and the reference lie on one side.',
 ['inputs','histories'],'All crystals, kinds of models, sequences of operations, and amplitudes.',
 'Tests look at one or two descriptions of one crystal and never at warnings after symmetry.',
 [M+'_interpolation.py',M+'_art.py'],
 [('description',M+'_interpolation.py: __repr__; '+M+'_art.py: __repr__, get_specification_tuples, get_dof_indexes'),('warnings',M+'_interpolation.py: _construct_and_add_interpolations')])
p('C32','Numbers mean the same however they are stored',
 'Every call that takes an array gives the same results and the same files (up to rounding) whatever the memory layout of the array: views with negative or irregular strides, column-major or transposed arrays, parts of larger arrays, read-only, broadcast, unaligned, or byte-swapped arrays, and arrays of derived classes; and whatever the type that holds the same numbers: 32- or 64-bit integers (as for ideal positions, cubic lattices, or whole amplitudes) and single precision, up to that precision. The same holds for single numbers given as Python integers or floats or as scalars of numpy, except that counts and indices other than Python integers may be refused with a TypeError. Lists of atomic numbers may hold integers of numpy, and file paths may be strings or paths. What is accepted in one form is never refused or silently truncated in another, and no argument is modified.',
 ['inputs'],'All public calls with arrays, lists, and numbers, sizes, layouts, and types.',
 'Tests pass freshly made C-contiguous arrays of doubles.',
 [S+'_displace.py',S+'_reference.py',S+'utils.py',M+'_art.py',M+'_interpolation.py',M+'torch/_gnn.py','ramannoodle/dataset/torch/_dataset.py',R+'_raman.py',R+'utils.py',IO+'vasp/*.py'],
 [('single-atom displacements',S+'_displace.py: get_ast_displaced_positions; '+M+'_art.py: add_art'),('conversion to tensors','ramannoodle/dataset/torch/_dataset.py: PolarizabilityDataset.__init__, scale_polarizabilities; '+M+'torch/_gnn.py: PotGNN.__init__, calc_polarizabilities')])
open(pathlib.Path(__file__).parent.parent/'properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
