import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
L='longitudinal_tomography/'
p('C01','Reconstruction follows the iterative tomography algorithm exactly',
 'For every waterfall, particle coordinates and iteration count, a reconstruction returns the weights, recreated waterfall and discrepancy history of the algorithm: back-project the normalised measured profiles over all particles and profiles, clip at zero, then per iteration project, normalise each profile, record the RMS discrepancy, scale the difference by (fullest bin count / bin count), back-project it and clip at zero. The all-C++ and the hybrid run give the same result (up to rounding).',
 ['inputs','configurations'],'all waterfalls (sparse, noisy, negative samples), all particle sets (empty bins, many per bin, one particle), all niter >= 0, both run modes',
 'Tests compare two fixed reconstructions to stored numbers; they never vary shape, occupancy or niter.',
 [L+'cpp_routines/reconstruct.cpp',L+'cpp_routines/libtomo.cpp',L+'tomography/tomography.py',L+'tomography/__tomography.py'],
 [('reconstruct<real_t>',L+'cpp_routines/reconstruct.cpp'),('Tomography.run / run_hybrid',L+'tomography/tomography.py')],
 ['Tomography.run()','Tomography.run_hybrid()','Tomography.diff','Tomography.recreated'])
p('C02','Reconstruction result is self-consistent',
 'After any successful reconstruction the recreated waterfall is exactly the per-profile-normalised projection of the returned weights (every profile with particles sums to one), the last of the niter+1 discrepancies is the RMS difference between measured and recreated waterfalls, and all weights are finite and non-negative with a positive sum. The first k+1 discrepancies do not depend on how many further iterations are requested, repeating the run on the same object gives the same result, and permuting particles permutes the weights.',
 ['inputs','histories'],'all sizes up to realistic ones, all niter, re-runs on the same object with other niter in between',
 'Tests check stored outputs only; the relation between weights, recreated and diff is never asserted.',
 [L+'cpp_routines/reconstruct.cpp',L+'tomography/tomography.py'],
 [('final projection and discrepancy',L+'cpp_routines/reconstruct.cpp')],
 ['Tomography.weight','Tomography.recreated','Tomography.diff'])
p('C03','Results do not depend on thread count or schedule',
 'Tracking, single-bunch and multi-bunch reconstruction, projection, back projection and the phase-space image give the same result (up to summation rounding) for every number of OpenMP threads and every interleaving of those threads, and no parallel loop has two threads touching one location with at least one write.',
 ['schedules','configurations'],'all thread counts and all interleavings of the threads of every parallel loop',
 'Tests run one thread count and observe one interleaving of each loop.',
 [L+'cpp_routines/reconstruct.cpp',L+'cpp_routines/kick_and_drift.cpp',L+'cpp_routines/libtomo.cpp'],
 [('OpenMP parallel loops, private temporaries, reductions',L+'cpp_routines/reconstruct.cpp')],
 ['conf.reconstruct','conf.reconstruct_multi','libtomo.kick_and_drift'])
p('C04','Multi-bunch reconstruction combines all bunches correctly',
 "For every set of bunch centres and cuts (bounds included), a multi-bunch reconstruction shifts the particle set to each centre, uses a (bunch, particle) weight only when the shifted particle stays inside that bunch's cuts in every profile, sums the projections of all bunches before normalising, and returns non-negative weights, the recreated waterfall, the total discrepancy per iteration and the per-bunch discrepancy over that bunch's window. With one bunch centred at zero and cuts spanning the profile it equals the single-bunch reconstruction.",
 ['inputs','configurations'],'all numbers of bunches, centres (overlapping or not), cuts, particles and iterations',
 'Multi-bunch reconstruction has no numeric unit test at all.',
 [L+'tomography/tomography_multibunch.py',L+'cpp_routines/reconstruct.cpp',L+'cpp_routines/libtomo.cpp'],
 [('reconstruct_multi, create_mask, discrepancy_multi',L+'cpp_routines/reconstruct.cpp')],
 ['TomographyMultiBunch.run','weight','recreated','diff','diff_split'])
p('C05','Tracking applies each machine turn once, in order, at the right profile',
 'Tracking from profile r (or deltaturn turns after or before it) records, for profile p, the coordinates after applying exactly the turns between the start turn and p*dturns, each once: going up, drift with turn n\'s coefficient then kick with turn n+1\'s voltages, phases and energy gain; going down, the exact reverse. Without deltaturn, row r is the initial distribution unchanged.',
 ['inputs','configurations'],'all numbers of profiles and turns per profile, all start profiles, all per-turn parameter programmes, both voltages',
 'Tests pin one machine, one start frame and compare a few coordinates.',
 [L+'cpp_routines/kick_and_drift.cpp',L+'cpp_routines/libtomo.cpp',L+'tracking/tracking.py'],
 [('kick_and_drift turn/profile counters',L+'cpp_routines/kick_and_drift.cpp')],
 ['Tracking.track','Tracking.kick_and_drift','libtomo.kick_and_drift'])
p('C06','Tracking is reversible and independent of the start profile',
 'Without self-fields, tracking a distribution upwards to a profile and from there back downwards returns the original coordinates, so restarting tracking from the coordinates obtained at any profile reproduces the same trajectory in every profile. Every particle evolves independently of the other particles tracked with it.',
 ['inputs','configurations'],'all start profiles, particle subsets and machine programmes',
 'Tests never track back or restart from another frame.',
 [L+'cpp_routines/kick_and_drift.cpp',L+'tracking/tracking.py'],
 [('kick_up/kick_down, drift_up/drift_down are inverse pairs',L+'cpp_routines/kick_and_drift.cpp')],
 ['Tracking.track'])
p('C07','Machine turn programme satisfies the beam-dynamics recurrences',
 "For every machine, the per-turn arrays agree with the scalar parameters at the reference profile's turn, and every other turn follows from its neighbour: time advances by one revolution period, the synchronous phase solves the RF energy-gain equation at that turn's voltages, energy changes by exactly the synchronous gain. Relativistic factors, drift coefficient and revolution frequency are the functions of energy and field given by the physics, and voltages at turn n are V_ref + Vdot*(t_n - t_ref).",
 ['inputs','configurations'],'all machine/reference frames, dturns, ramps, RF harmonics and particle species',
 'Tests pin a handful of array elements of one machine.',
 [L+'tracking/machine.py',L+'tracking/machine_base.py',L+'utils/physics.py'],
 [('Machine.values_at_turns',L+'tracking/machine.py'),('physics.*',L+'utils/physics.py')],
 ['Machine.values_at_turns','Machine.time_at_turn','Machine.phi0','Machine.e0'])
p('C08','Automatic particle distribution is homogeneous over the reconstruction area',
 'The generated start distribution places snpt x snpt particles at the same sub-cell offsets in every cell of the reconstruction area (all cells between the energy limits of each bin column, mirrored below the synchronous energy), nothing outside it and nothing twice, and physical coordinates converted from it map back to those cell positions at the turn it is made for (a profile, or a number of turns from one).',
 ['inputs','configurations'],'all area limits, bin sizes, particles per cell',
 'Tests pin the sizes and a few values for a single machine.',
 [L+'tracking/particles.py',L+'tracking/phase_space_info.py'],
 [('Particles.homogeneous_distribution, _populate_bins',L+'tracking/particles.py')],
 ['Particles.homogeneous_distribution'])
p('C09','Lost-particle filtering keeps exactly the particles inside the image',
 'Filtering removes exactly the particles that leave [0, nbins) of the image in any profile, keeps the others unchanged and in order in both coordinates, and reports the number removed; the coordinates prepared for tomography are integers of shape (particles, profiles) inside the image. If every particle is lost an error is raised and the inputs are unchanged.',
 ['inputs','histories'],'all coordinate arrays including values exactly on and just beyond both borders',
 'Tests use a few hand-picked rows.',
 [L+'tracking/particles.py'],[('filter_lost, ready_for_tomography',L+'tracking/particles.py')],
 ['particles.filter_lost','particles.ready_for_tomography'])
p('C10','Phase-space and physical coordinates convert consistently',
 'Converting image coordinates to physical phase/energy and back at the same turn is the identity, and converting tracked physical coordinates to image coordinates uses, for profile p, the parameters of that profile\'s own turn with bin width, origin and energy-bin of the area; the synchronous particle always lands on (x of the synchronous phase, y of zero energy offset).',
 ['inputs','configurations'],'all machines, profiles, particle coordinates, single and many profiles',
 'Tests pin a few numbers for one machine and one turn.',
 [L+'tracking/particles.py'],[('physical_to_coords, coords_to_physical',L+'tracking/particles.py')],
 ['particles.physical_to_coords','particles.ready_for_tomography'])
p('C11','Tomography object stays consistent through any sequence of assignments',
 'Through any sequence of coordinate assignments, resets and runs, accepted or rejected, a (single- or multi-bunch) tomography object holds the last accepted x and y coordinates and the particle count of x: assignments with wrong shape, wrong number of profiles, out-of-image values or non-iterable values raise the documented error and leave everything unchanged, None clears, and running without x-coordinates raises. The stored waterfall is the clipped, per-profile normalised measurement and never changes, whatever becomes of the arrays it was given.',
 ['histories','inputs'],'all finite sequences of assignments (valid, every kind of invalid), resets and runs',
 'Tests exercise single assignments on fresh objects.',
 [L+'tomography/__tomography.py',L+'tomography/tomography.py',L+'tomography/tomography_multibunch.py'],
 [('xp/yp setters',L+'tomography/__tomography.py')],
 ['Tomography.xp','Tomography.yp','Tomography.nparts','Tomography.waterfall'])
p('C12','Raw data is cut into exactly the selected frames and bins',
 'For every frame layout the waterfall built from raw data contains, for profile i and bin j, exactly the sample at (skipped frames + i, skipped left bins + j), with the numbers of profiles and bins announced by the frame settings; raw data of the wrong length and impossible layouts are rejected, and the stored raw data is a copy. The baseline subtracted on request is the mean of the first given share (default 5 %) of the chosen reference profile, the same for all bins.',
 ['inputs','configurations'],'all combinations of framecount, skipped frames, framelength, left/right skipped bins, and data',
 'Tests use one layout each.',
 [L+'utils/tomo_input.py',L+'data/data_treatment.py'],[('Frames.to_waterfall, raw_data_to_profiles',L+'utils/tomo_input.py')],
 ['tomo_input.Frames','raw_data_to_profiles'])
p('C13','Rebinning conserves charge and tracks the synchronous bin',
 'Rebinning by any factor r sums consecutive groups of r bins, multiplies the bin width by r and divides the synchronous bin position by r, for integer and floating waterfalls alike, and leaves everything unchanged for r = 1; total charge is conserved when r divides the number of bins. Otherwise one more bin is appended, r times the mean of the samples from the last complete group on.',
 ['inputs'],'all waterfalls, numbers of bins and rebin factors',
 'Tests pin two small cases.',
 [L+'data/data_treatment.py'],[('rebin',L+'data/data_treatment.py')],['data_treatment.rebin'])
p('C14','Profiles and machine stay synchronised',
 'Building profiles from raw data leaves machine and profiles agreeing on number of profiles, bins, bin width and synchronous bin (including after rebinning and fitting), and the profile charge is the time integral of the reference profile divided by the pickup sensitivity and elementary charge. Through any sequence of accepted and rejected waterfall assignments and filter or self-field requests, the profiles object holds the last accepted waterfall (negative samples removed and normalised only where documented) and a rejected request leaves object and machine unchanged.',
 ['inputs','configurations'],'all frame layouts, rebin factors and fit/no-fit choices',
 'Tests use one resource file.',
 [L+'data/profiles.py',L+'utils/tomo_input.py'],[('Profiles',L+'data/profiles.py'),('raw_data_to_profiles',L+'utils/tomo_input.py')],
 ['Profiles.waterfall','Profiles.profile_charge','Machine.nbins'])
p('C15','Input files are parsed field by field whatever the transport',
 'Every parameter of a version-3 input file lands in the machine or frame attribute documented for its line, with the documented unit conversions and one-based to zero-based shifts, whatever the comments, spacing, profile indices or numeric notation, and reading the same content from a file, from standard input or from a given list gives the same machine, frames and raw data.',
 ['inputs','configurations'],'all legal input files, all three transports, data inline or in a separate file',
 'Tests use fixed resource files via one transport.',
 [L+'utils/tomo_input.py'],[('txt_input_to_machine, get_user_input',L+'utils/tomo_input.py')],
 ['tomo_input.txt_input_to_machine','tomo_input.get_user_input'])
p('C16','Phase-space images conserve and place particle weight exactly',
 "The density image of a profile is the two-dimensional histogram of the particle weights at the particles' cells in that profile; the phase-space image made from a tomography object is that histogram with negative sums clipped, normalised to sum to one, with its axes those of the reconstruction area. A particle outside the image is rejected, never recorded in another cell.",
 ['inputs'],'all coordinates, weights, profiles, image sizes',
 'Tests check one image against a stored file.',
 [L+'data/data_treatment.py',L+'cpp_routines/libtomo.cpp',L+'utils/tomographics.py'],
 [('make_phase_space / phase_space',L+'cpp_routines/libtomo.cpp')],
 ['data_treatment.phase_space','libtomo.make_phase_space'])
p('C17','Output files contain the results and parse back to them',
 'Written profile, density, self-field and discrepancy outputs, the text summary, the status lines of the tracking and the figure of a reconstruction contain, in the documented order and orientation and at the printed precision, exactly the values of the result object, so parsing them recovers the image, profiles, axes and discrepancies.',
 ['inputs','configurations'],'all result sizes, profiles and both output formats',
 'Tests check a few fixed strings.',
 [L+'utils/tomo_output.py',L+'compat/fortran.py',L+'compat/tomoscope.py'],
 [('writers',L+'compat/fortran.py')],
 ['save_image','save_profile','write_plotinfo','tomoscope output'])
p('C18','Precision setting governs all later computation, in any order of changes',
 'After any sequence of precision and device selections, the active precision is the last accepted one, and casts, tracking and newly created reconstructions return arrays of exactly that precision whatever the precision of the inputs (an existing reconstruction object keeps its own); an invalid selection, or a GPU that is not there, is refused without changing anything. Double precision results are unaffected by earlier excursions to single precision, and single precision results agree with double to single-precision accuracy.',
 ['histories','configurations'],'all sequences of set_single/set_double/invalid selections interleaved with calls',
 'Tests run in the default precision only.',
 [L+'utils/tomo_config.py',L+'cpp_routines/libtomo.cpp'],[('AppConfig.set_*',L+'utils/tomo_config.py')],
 ['tomo_config.AppConfig','conf.cast'])
p('C19','Progress callbacks form a complete monotone sequence and may abort',
 'Tracking calls the callback once per tracked turn with progress 1,2,..,total and reconstruction once per iteration with (1,n)..(n,n) plus a final (n,n); the results are the same with or without a callback; an exception raised by a callback at any step propagates to the caller, no further callback is made, and the objects remain usable with the same results afterwards.',
 ['histories','fault_sequences'],'every callback index at which to fail, all sizes and start profiles',
 'Tests never make a callback fail.',
 [L+'cpp_routines/libtomo.cpp',L+'cpp_routines/kick_and_drift.cpp',L+'cpp_routines/reconstruct.cpp'],
 [('callback wrapper',L+'cpp_routines/libtomo.cpp')],
 ['Tracking.track(callback=)','Tomography.run(callback=)'])
p('C20','Invalid machine, frame and profile settings are rejected',
 'Every documented validity condition on machine parameters, frame layouts, raw data, waterfalls, film indices, start profiles, self-field and Fortran-output requests and particle coordinates is enforced with its documented error exactly when it is violated, boundary values included, whatever else is set. A rejected request leaves the object unchanged.',
 ['inputs','configurations'],'all violated and boundary combinations of the validated parameters',
 'Tests use one or two bad values per condition.',
 [L+'assertions.py',L+'utils/tomo_input.py',L+'tracking/machine.py',L+'tracking/tracking.py'],
 [('assertions',L+'assertions.py')],
 ['assertions.*','exceptions.*'])
p('C21','Library calls modify only what they document as theirs',
 "No public routine changes the contents of arrays, lists, images, machines, profiles or tomography objects handed to it beyond the fields it documents as its outputs (profiles set the machine's bins; the turn programme, synchronous bin fit and area search fill in their own machine fields; the low-level kernels work in place by purpose). Calling it again with the same arguments gives the same result.",
 ['inputs','histories'],'all public routines, array dtypes, memory layouts (contiguous or not) and repeated calls',
 'Tests do not compare arguments before and after.',
 [L+'tracking/tracking.py',L+'tomography/__tomography.py',L+'data/',L+'utils/',L+'cpp_routines/libtomo.cpp'],
 [('copies on entry',L+'tracking/tracking.py')],
 ['all public entry points'])
p('C22','Self-field voltages follow the profile derivative',
 "The self-field computation yields, for each pair of neighbouring profiles and each bin, the documented voltage from the smoothed derivative of the processed profiles, the profile charge and the space-charge and coupling-impedance coefficients of the intermediate turn; it is zero for zero coefficients and linear in them. Tracking with self-fields adds, at every turn, the voltage of the bin in which the particle's wrapped phase lies to the RF kick (going down in turns it removes both), and particles beyond the measured bins get none.",
 ['inputs','configurations'],'all profiles, coefficients and machines',
 'Tests pin one resource file.',
 [L+'data/profiles.py',L+'utils/physics.py',L+'tracking/tracking.py'],[('Profiles.calc_self_fields',L+'data/profiles.py')],
 ['Profiles.calc_self_fields','physics.calc_self_field_coeffs'])
p('C23','Beam-quality figures are the defined functionals of the density image',
 "The RMS emittance of a density image is pi times the product of the standard deviations of its time and energy projections, the RMS momentum spread is the relative momentum change that this energy deviation corresponds to, and the fractional emittance is the area of the densest cells that together hold less than the fraction. They are independent of the image's overall scale, proportional to the cell area, and a larger fraction never has a smaller emittance. A fraction outside 0 to 100 per cent is refused.",
 ['inputs'],'all density images and axes, all fractions',
 'Tests pin one image.',
 [L+'data/post_process.py'],[('emittance_rms, emittance_fractional, rms_dpp',L+'data/post_process.py')],
 ['post_process_single_frame','post_process.*'])
p('C24','Automatic cuts follow the signal, cutting and filtering keep exactly the rest',
 'Automatic cuts are the given margin of bins before the first and after the last bin-to-bin change above the threshold (default 30 % of the largest change), clipped to the data and equal to the whole data when nothing changes; cutting a waterfall keeps exactly the bins inside, a negative right limit counting from the end, and impossible limits are refused. Filtering profiles keeps, in order, exactly the profiles whose share of the signal exceeds maximum - minimum - mean of the shares, normalised by the total, keeps the same columns of the particle coordinates and shifts the reconstructed profile by the number removed.',
 ['inputs'],'all waterfalls, margins, thresholds, cut positions and shares of signal',
 'Tests use one resource file.',
 [L+'data/pre_process.py'],[('find_peaks/cuts',L+'data/pre_process.py')],
 ['pre_process.*'])
p('C25','All entry points to the pipeline give the same reconstruction',
 'Running the reconstruction through the one-call helper, the command-line runs (including every film and file they write), the shortcuts and the deprecated low-level wrappers gives the same coordinates, weights, images and discrepancies as composing the documented steps by hand, honouring self-field and synchronous-bin-fit settings of the input.',
 ['inputs','configurations'],'all inputs accepted by each entry point',
 'Tests never compare entry points with each other.',
 [L+'shortcuts.py',L+'utils/tomo_run.py',L+'cpp_routines/tomolib_wrappers.py'],
 [('shortcuts, tomo_run, tomolib_wrappers',L+'shortcuts.py')],
 ['shortcuts.track','shortcuts.tomogram','tomo_run.run_file','tomolib_wrappers.*'])
p('C26','Programme-driven machine samples its programmes at the revolution times',
 "A machine given by time programmes covers turns-per-profile times profiles turns beginning so that the reference profile's turn is the first turn not before the reference time; at each turn the voltages, phases and phase difference (given as a constant, array, phase programmes, or computed from the ramp) are the linear interpolation of the programmes at that turn's time, and energy, relativistic factors, synchronous phase and field derivative follow from the momentum programme. Calculating the values again gives the same ones. Inconsistent or missing programmes are refused with the documented error.",
 ['inputs','configurations'],'all programmes (constant, linear, piecewise), harmonics and frames',
 'Tests pin a few values of one programme set.',
 [L+'tracking/programs_machine.py'],[('ProgramsMachine.values_at_turns',L+'tracking/programs_machine.py')],
 ['ProgramsMachine.values_at_turns'])
p('C27','Reconstruction area limits are consistent and inside the image',
 'For every machine the reconstruction area consists of columns and rows inside the image, its upper limit in each column is the height of the outermost bucket trajectory in energy bins (the whole image when the full image is asked for), its lower limit is the mirror image about the synchronous energy, and user limits on the bins narrow the area but never widen it. The energy bin width makes the highest trajectory (or the requested maximum energy range) fit the image.',
 ['inputs','configurations'],'all machines, full or bucket-limited images, user limits',
 'Tests pin the limits of a single machine.',
 [L+'tracking/phase_space_info.py'],[('find_binned_phase_energy_limits',L+'tracking/phase_space_info.py')],
 ['PhaseSpaceInfo.find_binned_phase_energy_limits'])
p('C28','Synchronous-bin fit is translation-consistent',
 'The fitted bunch limits of the reference profile are the zeros of the least-squares lines through the four bins at its 15 % edges, and the synchronous bin is the one for which a bunch of that length starts on a common RF trajectory at the reference turn, for RF voltages that are constant over the measurement. Shifting the profile by whole bins shifts the fit by the same number and scaling the profile leaves it unchanged.',
 ['inputs'],'all single-peaked profiles and positions',
 'Tests pin one profile.',
 [L+'data/data_treatment.py'],[('fit_synch_part_x',L+'data/data_treatment.py')],['data_treatment.fit_synch_part_x'])
p('C29','Phase-space analysis figures are those of the image and of the RF bucket',
 'The analysis of a reconstructed image gives its first and second moments and their emittance, the area of its densest cells holding a fraction of it, the feet of the tangents of a profile (where straight lines fitted to its edges meet zero) and the value there, and, for a single-harmonic bucket above or below transition, the area of the RF contour of a given length, the densities on and inside the contours, and weights clipped to the first contour of at least a given area with the total weight preserved. Profiles and fractions for which a figure is not defined are refused with the documented error.',
 ['inputs','configurations'],'all square images, fractions, profiles, machines above and below transition, bunch lengths and clipping areas',
 'The module has no tests at all.',
 [L+'utils/tomographics.py'],[('rms_params, emittance_density_calc, foot_tangent_fit_dq, matched_area_calc, density_vs_emittance, tomo_weight_clipping',L+'utils/tomographics.py')],
 ['tomographics.*'])
p('C30','The GPU computes what the CPU computes, in the selected precision',
 'With the GPU selected, tracking, reconstruction and phase-space images follow the same specification as on the CPU (every turn once and in order, the iterative algorithm with its discrepancies and recreated profiles, the weight of every particle in its own cell and particles outside the image refused), for every number of threads per block, particles, profiles and bins and whatever order blocks and threads run in; no two threads make conflicting unsynchronised accesses and all threads of a block reach every barrier. After any sequence of device and precision selections, the kernels that run and the results they give are in the precision selected last, on the device and GPU selected last; a GPU that is not there is refused and changes nothing.',
 ['inputs','schedules','configurations','histories'],'all sizes, block sizes, execution orders of GPU threads, and sequences of device and precision selections',
 'The GPU tests are skipped without a GPU and compare two results.',
 [L+'cuda_kernels/',L+'python_routines/',L+'utils/tomo_config.py'],[('reconstruct_cuda, kick_and_drift_cuda, AppConfig.use_gpu',L+'python_routines/reconstruct_cuda.py')],
 ['use_gpu','Tracking.track on the GPU','Tomography.run on the GPU'])
p('C31','Macroparticles drawn from a density represent that density',
 'For every density image, threshold and number, the macroparticles drawn from it are exactly that many, every one of them lies inside a cell whose share of the whole is positive and reaches the threshold, cells are populated in proportion to their weight and uniformly over their area (to within the statistical fluctuation of the number drawn), a density of which nothing is left is refused, and the given arrays are not changed.',
 ['inputs'],'all density images, axes, thresholds and numbers of particles',
 'The function has no tests at all.',
 [L+'data/data_treatment.py'],[('density_to_macro',L+'data/data_treatment.py')],['data_treatment.density_to_macro'])
p('C32','A machine holds exactly the settings given to it',
 'For every set of optional settings given to a machine or programme-driven machine, in any order, each setting has the value given and every setting left out its documented default (the end of the reconstruction area the length of the profiles, the energy coordinate of the synchronous particle half the image); the programme of the machine is that of one with every setting spelled out, whether computed at once or on request; and building or changing one machine never affects the settings of another, whatever was built before.',
 ['inputs','configurations','histories'],'all subsets and values of the optional settings, and sequences of machines built and changed',
 'Tests always give nearly all settings to a single machine per case; none checks what is left out or looks at a second machine.',
 [L+'tracking/machine_base.py',L+'tracking/machine.py',L+'tracking/programs_machine.py'],[('MachineABC._process_kwargs and the default tables',L+'tracking/machine_base.py')],
 ['attributes of Machine and ProgramsMachine','Machine.values_at_turns'])
p('C33','Results depend only on the present inputs, whatever was computed before',
 'In every session - machines of either kind built, changed and recomputed, several trackers, profiles and tomography objects made from them, precisions selected, functions called again with other contents in the same arrays, in any order and interleaved - each result (turn programme, reconstruction area, self fields, tracked coordinates, reconstructed weights, and those of the data-treatment and analysis functions) is the one a new process computes from the present settings and contents: nothing remembered from earlier calls, other objects or earlier settings shows in it.',
 ['histories','inputs','configurations'],'all interleavings of operations on several machines, trackers, profiles and tomography objects; repeated calls',
 'Tests build everything anew and use it once; state kept by an object, a module or a cache shows only in a second use after something changed.',
 [L+'tracking/machine.py',L+'tracking/programs_machine.py',L+'tracking/tracking.py',L+'data/profiles.py',L+'tomography/tomography.py',L+'utils/tomo_config.py'],
 [('Tracking.track',L+'tracking/tracking.py'),('Machine.values_at_turns',L+'tracking/machine.py'),('Profiles.calc_self_fields',L+'data/profiles.py')],
 ['Machine, ProgramsMachine, Profiles, Tracking, Tomography objects','functions of data, utils, compat and tracking.particles'])
p('C34','Every call gives back the memory and files it took, however it ends',
 'However often a library call is made - completing, stopped by its callback at any iteration, or refused at any point - it leaves no memory and no files in use beyond the results it handed out; those keep their values and stay valid whatever is called, dropped or refused afterwards, in any order, and are released when they are dropped.',
 ['histories','inputs','fault_sequences'],'all histories of completed, aborted and refused calls with results kept and dropped in any order; every iteration a callback can stop at',
 'Tests call each function a few times with small inputs, never measure what is left behind, and hardly ever end a call early.',
 [L+'cpp_routines/libtomo.cpp',L+'cpp_routines/reconstruct.cpp',L+'cpp_routines/data_treatment.cpp',L+'tracking/tracking.py',L+'utils/tomo_input.py'],
 [('wrapper_reconstruct, wrapper_reconstruct_multi, wrapper_kick_and_drift_array',L+'cpp_routines/libtomo.cpp'),('reconstruct, reconstruct_multi (cleanup)',L+'cpp_routines/reconstruct.cpp')],
 ['memory in use and open files of the process','arrays handed out'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
