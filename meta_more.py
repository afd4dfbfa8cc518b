prop('C06', 'A configuration file round trips the state, whatever ranks write and read it',
 'A configuration (or restart) file written by any number of ranks holds the field and its velocity bit for bit in lattice order together with the time and all parameters of the run, and writing it leaves the state of the run unchanged. Read back by any number of ranks it gives the same field and velocity (converted if another precision is asked for), the same time, scale factor and physical parameters on every rank - only those given on the command line of the reading run replace those of the file - and written again it gives the same file.',
 ['inputs', 'configurations', 'schedules'], 'all field types, precisions, lattice shapes, writing and reading rank counts, potentials with every damping and projection mode, expansion laws, folded or unfolded fields, existing or stale target files, overridden parameter subsets, message timings',
 'The tests write and read one configuration of one field type on one layout and only look at the exit code.',
 ['lib/io/readWrite.pHdf5.cpp', 'lib/utils/parse.cpp', 'lib/cosmos', 'lib/scalar'],
 [('writer', 'lib/io/readWrite.pHdf5.cpp: writeConf'), ('reader', 'lib/io/readWrite.pHdf5.cpp: readConf'), ('precedence of the command line', 'lib/utils/parse.cpp: createCosmos')],
 ['HDF5 file contents', 'field and velocity arrays', 'parameters of every rank'],
 note='Seeded search; the file is read by an independent reader and compared bit for bit with the field that was written, then read back on another layout.')

prop('C07', 'A stopped and restarted run equals the uninterrupted run',
 'A run that is stopped at any moment and continued from its restart file (or from a configuration file written between two time steps), by any number of ranks and threads, any number of times, reaches its final time with bit for bit the same field, velocity, time, scale factor and axion mass as the run that was never interrupted.',
 ['histories', 'crash_points', 'configurations', 'schedules'], 'field types, precisions, stencil orders, potentials, damping and projection modes, background laws; stop requests at any moment of the program, one to three stop/restart cycles, each on its own number of ranks and threads',
 'The tests never continue from a file and compare nothing.',
 ['lib/io/readWrite.pHdf5.cpp', 'test/vaxions.cpp', 'lib/utils/parse.cpp', 'lib/scalar/scalarField.cpp', 'lib/cosmos'],
 [('restart path of the main program', 'test/vaxions.cpp'), ('writer and reader', 'lib/io/readWrite.pHdf5.cpp'), ('parameters of the background', 'lib/utils/parse.cpp: createCosmos')],
 ['final configuration file', 'field and velocity arrays', 'time, scale factor, mass'],
 note='Seeded search over stop points, restart chains, layouts and schedules; compared bit for bit with the uninterrupted run. Program level runs use --notheta and no string-core cut-off.')

prop('C08', 'A crash never destroys the last good restart file',
 'Whenever the run is killed or the machine loses power while a restart file is being written, a complete restart file is left on the disk: either the previous one or the new one, bit for bit, and a new run can start from it. This holds for any sequence of such crashes and restarts.',
 ['crash_points', 'histories', 'schedules', 'configurations'], 'crash at any disk operation, in the middle of any write, or at any scheduling step, with or without loss of the writes that were not synchronised; 2 to 4 generations on changing numbers of ranks',
 'No test crashes a run.', ['lib/io/readWrite.pHdf5.cpp'], [('replacement of the restart file', 'lib/io/readWrite.pHdf5.cpp: writeConf')], ['restart file on disk after the crash', 'state read back by the next run'],
 note='Seeded search over crash points with a durability model: a power loss keeps a prefix or a subset (with a torn last write) of the unsynchronised writes, and a rename is ordered only after synchronised data.')

prop('C09', 'Disk failures never go unnoticed',
 'When writing a configuration, restart or measurement file fails (write error, full disk, short write) or a file cannot be opened on any rank, the run either leaves exactly the files of an undisturbed run or says so with an error message or a nonzero exit status. A file that cannot be opened never crashes or hangs the run, and a failure while a new restart file is being written never loses the previous one.',
 ['fault_sequences', 'configurations', 'schedules'], 'write error, full disk or short write at any write of any rank, failing open of any file, all field types, layouts, output options and schedules, at the level of the writer and of the whole program',
 'The tests run on a disk that never fails.', ['lib/io/readWrite.pHdf5.cpp', 'test/vaxions.cpp', 'lib/meas', 'lib/utils'], [('configuration writer', 'lib/io/readWrite.pHdf5.cpp: writeConf'), ('measurement writer', 'lib/io/readWrite.pHdf5.cpp: createMeas and the write functions')], ['files left on the disk', 'messages', 'exit status'],
 note='Seeded search over faults and schedules. After a failed write the HDF5 library itself may crash or wait for ever in its cleanup; such an end counts as noticed.')

prop('C10', 'A damaged configuration file is rejected, never half read',
 'A configuration or restart file that is missing, empty, truncated at any byte, not an HDF5 file, lacks a dataset or one of the attributes it needs, or whose datasets do not have the announced size, and any open or read error met on any rank, makes the run end with a message or a nonzero status on all ranks. It never crashes or hangs the reader, is never accepted by only some of the ranks, and never gives a field or parameters other than those that were written.',
 ['inputs', 'fault_sequences', 'configurations', 'schedules'], 'kind and place of the damage, open and read errors at any operation of any rank, field types, layouts of writer and reader, reader on its own and inside the whole program',
 'The tests read one intact file.', ['lib/io/readWrite.pHdf5.cpp', 'test/vaxions.cpp'], [('reader', 'lib/io/readWrite.pHdf5.cpp: readConf')], ['exit status and messages of every rank', 'field and parameters if the file is accepted'],
 note='Seeded search. Bytes of the data themselves are not altered: the format has no checksums.')

prop('C11', 'Stop, abort, save and walltime requests are obeyed by all ranks',
 'A stop or abort file or the walltime limit ends the run on all ranks together after the current time step, whenever it appears and whichever rank notices it first: after a stop or walltime request one complete restart file of the end of a step is left, after an abort none. A save request writes one complete configuration and leaves the rest of the run unchanged, stale stop and abort files present at the start do not end the run, and a run nobody asked to stop always reaches its final time.',
 ['schedules', 'histories', 'configurations'], 'kind, combination and moments of the requests, clocks that jump on one rank, stalled ranks, layouts, schedules, dump and measurement options',
 'The tests stop at most once, at the walltime, and look at the exit code.', ['test/vaxions.cpp', 'lib/utils/parse.cpp', 'lib/io/readWrite.pHdf5.cpp'], [('agreement on the requests', 'test/vaxions.cpp: checkTime'), ('removal of stale files', 'lib/utils/parse.cpp: parseArgs')], ['messages', 'exit status', 'restart and configuration files', 'control files left'],
 note='Seeded search; the answer of the run is compared with the moments at which the program looked for the control files.')

prop('C12', 'Every log message arrives in the log exactly once and complete',
 'With logging from all ranks, whatever any thread of any rank logs up to the end of the run - at any rate, from inside parallel regions or outside them, of any length up to the limit of a message - appears exactly once, whole and unmixed in the log file, and with logging restricted to rank 0 its messages alone appear. Logging never crashes, blocks or changes the communication of the run, and never overwrites the log of an earlier run.',
 ['schedules', 'inputs', 'configurations', 'histories'], 'sequences of logging, pausing, flushing and stepping on 1 to 4 ranks and 1 to 4 threads, message lengths from none to beyond the limit, verbosities, clock jumps, stalled ranks and all interleavings of the flushing thread with the rest',
 'The tests do not look at the log; the races need particular interleavings of the flushing thread.', ['lib/utils/logger.h', 'lib/comms/comms.cpp'],
 [('message queue and flushing', 'lib/utils/logger.h: class Logger'), ('shutdown', 'lib/comms/comms.cpp: endComms')], ['log file', 'end of the run'],
 note='Seeded search; every message carries its rank, thread, number and length and is looked up in the log.')

prop('C13', 'Energies are the box averages of the documented energy densities',
 'The energies the program reports - the gradient (per direction), kinetic and potential energies of the axion and of the saxion, and the mean modulus - equal the averages over the whole box of the documented densities on the lattice, for saxion and axion fields, every supported potential and any vacuum shift; with a mask they equal the averages over the masked sites, and the number of masked sites is right. Every rank reports the same numbers, for any number of ranks, threads and memory layout; the energy density maps hold the densities site by site; and measuring leaves the field unchanged.',
 ['inputs', 'configurations', 'schedules'], 'field types, precisions, lattice shapes, layouts, smooth and rough fields, potentials, background laws, masks, kinds of request, repeated measurements, message timings',
 'The tests print the energies and compare them with nothing.', ['lib/energy', 'lib/scalar'],
 [('energy kernels', 'lib/energy/energyXeon.h, lib/energy/energyMapTheta*'), ('reduction over the ranks', 'lib/energy/energy.cpp')], ['energies of every rank', 'energy maps'],
 note='Seeded search against an independent evaluation of the densities in double precision. Lattices with one row per vector lane are a known finding for axion fields.')

prop('C14', 'String counts, positions and maps find exactly the pierced plaquettes',
 'The number of strings, their signs, the number of domain walls and the string positions are those of the plaquettes and links of the whole lattice around which the phase winds, including those that cross the boundaries between ranks or the periodic boundary, each counted once; the map marks exactly the sites of those plaquettes and all ranks agree on the totals. This holds for any number of ranks, threads, memory layout and precision, and the measurement leaves the field unchanged.',
 ['inputs', 'configurations', 'schedules'], 'rough fields and fields with string loops at any place, lattice shapes, layouts, stencil orders, message timings',
 'The tests print the number of strings and compare it with nothing.', ['lib/strings', 'lib/scalar'],
 [('string kernels', 'lib/strings/stringXeon*.h'), ('reduction over the ranks', 'lib/strings/strings.cpp')], ['counts of every rank', 'positions', 'string map'],
 note='Seeded search against an independent winding count on the whole lattice.')

prop('C19', 'Reduced, expanded and projected fields are those of the whole lattice',
 'Reducing a field (or its energy density map) gives exactly the field filtered in Fourier space and sampled on the coarser lattice, for the field and the velocity, in place or out of place - in the latter case the field itself is unchanged; a configuration read at a smaller size is that reduction and one read at a larger size its trilinear interpolation on the periodic lattice; and a projected map is the average over z. All of this holds for any lattice, any reduction factors that may differ between the plane and z, any number of ranks and threads writing and reading, and any field type and precision.',
 ['inputs', 'configurations', 'schedules'], 'field types, precisions, lattice shapes, reduction and expansion factors, filters, layouts of writer and reader, thread counts, FFT plans (seeded choice), message timings',
 'The tests reduce one configuration and look at the exit code.', ['lib/reducer', 'lib/projector', 'lib/fft', 'include/utils/simpleops.h', 'lib/io/readWrite.pHdf5.cpp', 'test/reduce.cpp'],
 [('filter and sampling', 'lib/reducer/reducer.cpp: transformField'), ('expansion', 'include/utils/simpleops.h: expandField'), ('size changes when reading', 'lib/io/readWrite.pHdf5.cpp: readConf'), ('projection', 'lib/projector/projector.cpp')], ['reduced, expanded and projected fields', 'the field itself afterwards', 'configuration file written by the reduction program'],
 note='Seeded search against a plain discrete Fourier transform and trilinear interpolation in double precision on the whole lattice.')


prop('C15', 'Spectra hold the Fourier power of the documented quantities on the lattice',
 'In every bin of wavenumbers the axion spectra (kinetic, gradient, potential, linear or not), the saxion spectra and the power spectrum of the energy hold the sum over the Fourier modes of that bin of the power of the documented quantity on the whole cubic lattice, with the masks asked for, and the numbers of modes count every mode once. This holds for saxion and axion fields, for any number of bins, ranks and threads, memory layout and precision; all ranks report the same spectra, measuring again gives the same, and the field is left unchanged.',
 ['inputs', 'configurations', 'schedules'], 'field types, smooth and rough fields and fields with strings, precisions, lattice sizes, layouts, masks, numbers of bins, kinds of spectra, FFT plans (seeded choice), message timings',
 'The tests write the spectra and compare them with nothing.', ['lib/spectrum/spectrum.cpp', 'lib/utils/kgvops.cpp', 'lib/fft/fftCode.cpp'],
 [('binning and reduction over the ranks', 'lib/spectrum/spectrum.cpp: fillBins'), ('velocity, gradients and potential', 'lib/utils/kgvops.cpp: buildc_*'), ('spectra', 'lib/spectrum/spectrum.cpp: nRun, nSRun, pRun, nmodRun')], ['spectra of every rank', 'the field itself afterwards'],
 note='Seeded search against a plain discrete Fourier transform in double precision.')


prop('C27', 'A measurement file holds the same numbers on every layout',
 'The measurement of a field writes the same file - energies, string counts and maps, spectra, histograms, energy and field maps, slices and reduced maps, attributes included - up to rounding, whatever the number of ranks and threads, the memory layout the field is in and the schedule. The measurement leaves the field unchanged and always ends.',
 ['inputs', 'configurations', 'schedules'], 'field types, precisions, lattices, pairs of layouts, combinations of measurements, masks, kinds of spectra and maps, message timings',
 'The tests write measurement files and never read them.', ['lib/meas/measa.cpp', 'lib/io/readWrite.pHdf5.cpp', 'lib/spectrum', 'lib/strings', 'lib/energy'],
 [('sequence of measurements', 'lib/meas/measa.cpp: Measureme'), ('writers', 'lib/io/readWrite.pHdf5.cpp: writeEnergy, writeString, writeArray, writeMapHdf5s, writeEDens')], ['every dataset and attribute of the measurement files', 'the field afterwards'],
 note='Seeded search comparing two layouts of the same lattice; several experimental options are known findings.')


prop('C16', 'Histograms count every site of the lattice exactly once',
 'The histograms of a measurement (phase, modulus, logarithm of the squared phase, logarithmic energy contrast) are normalised, run from the smallest to the largest value on the whole lattice and hold in each bin the sites of all ranks whose value lies in it, each site once. This holds for saxion and axion fields, any number of ranks, threads, boundary slices and memory layout; padding, infinite values and values that are not numbers are left out, and every rank gets the same histogram.',
 ['inputs', 'configurations', 'schedules'], 'fields, lattices, layouts, combinations of histograms, generated data with padding, zeros, negative numbers and values on the edges of bins, message timings',
 'The tests write histograms and never read them.', ['include/utils/binner.h', 'lib/meas/measa.cpp'], [('extremes and counting', 'include/utils/binner.h: Binner::find, Binner::run'), ('ranges that are counted', 'lib/meas/measa.cpp: bins of theta, rho, logtheta2, contrast')], ['bins and extremes in the measurement file and on every rank'],
 note='Seeded search against a sort of all values in double precision.')


prop('C20', 'Conversions between field and phase keep phase, velocity and continuity',
 'Converting a complex field to its phase, in memory or while reading a configuration, gives at every site the conformal phase of the (shifted) field up to whole turns and the matching velocity; where the phase has no strings and no windings the result has no jump larger than half a turn anywhere, including across ranks and the periodic boundary. Reading a phase as a complex field gives the field of unit modulus with that phase and the matching velocity, and all of this gives the same numbers for any number of ranks and threads and any memory layout.',
 ['inputs', 'configurations', 'schedules'], 'smooth fields whose phase leaves the principal branch, fields with strings, random fields, phases with arbitrary jumps of whole turns, shifts, expansion laws, lattices, pairs of layouts, message timings',
 'The tests convert one field and look at the exit code.', ['lib/scalar', 'lib/io/readWrite.pHdf5.cpp', 'include/utils/simpleops.h'],
 [('conversion', 'lib/scalar/thetaXeon.cpp'), ('removal of jumps', 'lib/scalar/mendThetaXeon.cpp'), ('conversions when reading', 'lib/io/readWrite.pHdf5.cpp: readConf')], ['field and velocity after the conversion', 'next time step'],
 note='Seeded search against a site by site reference, continuity along all links and equality of two layouts; a step after the conversion is compared with the equations of motion.')


prop('C22', 'Initial configurations are the documented ones on the whole lattice',
 'Explicit initial conditions (axial strings, walls, single modes, miniclusters, axitons, string waves, strings read from a file) and the smoothing, normalisation and string cores applied to them give the same field and velocity, site by site, on any number of ranks and threads and in both precisions. Random ones (kmax, vilgor, lola, tkachev, thermal, spax, noise) draw independent numbers for every site or Fourier mode of the whole lattice, on all ranks and threads, up to the documented cut and with the documented amplitude, and build from them the field in vacuum and the velocity of the documented expansion. The generation always ends, with or without --lowmem, and nothing else of the field changes.',
 ['inputs', 'configurations', 'schedules'], 'kinds of initial conditions and their parameters, expansion laws, random numbers, lattices that need not be cubic, layouts, ghost slices, precisions, low memory, message timings',
 'The tests generate three kinds of random fields on a single lattice and look at the exit code.', ['lib/gen', 'lib/scalar/normCoreXeon.cpp', 'lib/scalar/scaleXeon.cpp', 'lib/scalar/scalarField.cpp', 'include/utils/simpleops.h'],
 [('kinds of initial conditions', 'lib/gen/genConf.cpp'), ('random modes', 'lib/gen/momConf.cpp'), ('fields in configuration space', 'lib/gen/randXeon.cpp'), ('smoothing and cores', 'lib/gen/smoothXeon.cpp, lib/scalar/normCoreXeon.cpp')], ['field and velocity on every site', 'Fourier modes before the transform'],
 note='Seeded search against a site by site reference in double precision; the raw random numbers are read back with the same seeds and checked for range, variance, independence and amplitude.')


prop('C21', 'Masks cover exactly the sites they are defined to cover',
 'The ball mask covers exactly the lattice sites within the chosen radius of a corner of a plaquette pierced by a string (for axitons: of a site above the thresholds of energy or amplitude), the smoothed masks exactly the sites where the smoothed density of those sites exceeds the cut, and the diffused and modulus masks hold their documented values; the spectrum reported with a mask is that of the mask (for axitons: of the masked energy). This holds on the whole periodic lattice for any number of ranks and threads, memory layout and schedule, for radii up to the depth of a rank. Each mask is independent of the masks computed before it unless accumulation is asked for, and neither the field nor the map of strings changes.',
 ['inputs', 'configurations', 'schedules'], 'densities and kinds of defects, marks left by earlier masks, sequences of up to three masks with their radii, axion fields, lattices, ranks, threads, ghost slices, precisions, message timings',
 'The tests calibrate one mask on one lattice and look at the exit code.', ['lib/spectrum/spectrum.cpp', 'lib/scalar/scalarField.cpp', 'include/utils/index.h'],
 [('masks', 'lib/spectrum/spectrum.cpp: SpecBin::masker'), ('balls across ranks', 'lib/spectrum/spectrum.cpp: SpecBin::maskball'), ('smoothing', 'lib/spectrum/spectrum.cpp: SpecBin::filterFFT')], ['the marks in the string map', 'the exported mask', 'the spectrum of the mask', 'field and string map afterwards'],
 note='Seeded search against a site by site reference in double precision; sites within rounding of a cut are left out.')


prop('C28', 'The evolution before the start time changes only the field',
 'With the pre-propagator the field is evolved from the start time divided by the chosen factor exactly up to the start time, by the documented equations of motion with the potential, the damping and the law of the string tension chosen for this phase, whose physical string tension at the start time is that of the run. Afterwards every parameter of the run (string tension and its law, damping, potential, expansion) is again what was asked for, on every rank, and the following time steps use it. This holds for any expansion law, lattice, number of ranks and threads and schedule.',
 ['inputs', 'configurations', 'schedules'], 'fields with and without strings, explicit initial conditions, potentials, dampings, tension laws before and after, expansion laws, lattices, layouts, precisions, message timings',
 'No test uses the pre-propagator.', ['lib/gen/prepropa.cpp', 'lib/gen/genConf.cpp', 'lib/scalar/scalarField.cpp'],
 [('evolution before the start', 'lib/gen/prepropa.cpp: prepropa2'), ('jump back in time', 'lib/gen/genConf.cpp'), ('length of a step', 'lib/scalar/scalarField.cpp: dzSize')], ['field, velocity, time and parameters after the phase', 'the next time step'],
 note='Seeded search against the reference integrator of C02 in double precision with the parameters of the phase.')


prop('C17', 'Fourier transforms of the distributed field are exact and invertible',
 'Every transform the library offers computes, to rounding, the discrete Fourier transform of the field distributed over the ranks and leaves it in its documented order, and the transform back returns the field times the number of sites; arrays that are not part of it do not change. Taking field and velocity to Fourier space divides by the number of sites, doing so twice changes nothing, and returning, explicitly or by writing a configuration, gives back the same field. This holds for any box, precision, number of ranks and threads, schedule and order in which transforms are prepared and used.',
 ['inputs', 'configurations', 'schedules', 'histories'], 'random fields, lattices that need not be cubic, layouts, precisions, sequences of up to four transforms prepared early or late, reduced lattices, message timings',
 'The tests never compare a transform with its definition.', ['lib/fft/fftCode.cpp', 'lib/scalar/fourier.cpp', 'lib/scalar/scaleXeon.cpp'],
 [('transforms', 'lib/fft/fftCode.cpp: FFTplan'), ('field to and from Fourier space', 'lib/scalar/fourier.cpp: FTfield')], ['every Fourier mode', 'the field after the way back', 'arrays that take no part'],
 note='Seeded search against a discrete transform in double precision; depths per rank up to the size of the box where the transform is in place.')


prop('C29', 'Spectral propagators apply the equations of motion with the exact Laplacian',
 'With the spectral propagators (`--spec`) every time step applies the same equations of motion as the other propagators with the Laplacian exact on every Fourier mode of the periodic box: the complex field with the PQ potential, the axion potentials 0, standard and C, and damping of all components; the phase field with the axion potential or without. The full spectral propagator (`--fspec`) of the phase field in single precision alternates kicks by the potential with free waves exact on every mode. All this holds for any expansion law, cubic lattice, precision, number of ranks and threads and schedule, and the clock advances by exactly the step.',
 ['inputs', 'configurations', 'schedules'], 'smooth and rough fields, potentials, damping, expansion laws, cubic lattices, layouts, precisions, message timings',
 'The tests run the spectral propagator on one complex field and look at the exit code.', ['include/propagator/propClass.h', 'include/propagator/sPropXeon.h', 'include/propagator/sPropThetaXeon.h', 'include/propagator/fsPropThetaXeon.h', 'lib/fft/fftCode.cpp', 'lib/scalar/fourier.cpp'],
 [('split step', 'include/propagator/propClass.h: tSpecCpu, sSpecCpu, tFpecCpu'), ('kernels', 'include/propagator/sPropXeon.h, sPropThetaXeon.h, fsPropThetaXeon.h'), ('Laplacian', 'include/propagator/laplacian.h')], ['field, velocity and time after up to three steps'],
 note='Seeded search against the reference integrator of C02 with a spectral Laplacian in double precision.')
