"""What each check assures, which functions it puts under contract, what it leaves unchecked."""
COMMON = ('Every obligation of the contracts is discharged for all inputs on each run; the IR is compiled from /repo\'s sources, so nothing is modelled by hand. '
          'Trusted: clang\'s front end, the VC generator /verif/rdv, z3, and the listed contracts of external functions. ')
A_DATA = 'detection methods are called with range >= 1, twice the range below the length, and arrays of the stated extents (the obligation of resdet_analyze_image, C05)'
INFO = {
    'C01': dict(functions=['resdet_parameters_set_range', 'resdet_parameters_set_threshold', 'resdet_parameters_set_compression_filter', 'resdet_alloc_default_parameters', 'resdet_default_range'],
                note='Postconditions of the setters over every object, value and prior content (threshold over all 2^32 bit patterns).'),
    'C02': dict(functions=['resdet_error_str', 'resdet_get_max_error', 'resdet_get_method', 'resdet_methods', 'resdet_list_image_readers', 'resdet_image_readers'],
                note='Postconditions over every error code except INT_MIN (negation overflows; precondition) and every method name, as an uninterpreted string; loops by induction over the listed table.',
                assumptions=['the error code is not INT_MIN']),
    'C03': dict(functions=['resdet_create_analysis', 'setup_dimension', 'open_image', 'resdet_open_image', 'resdet_read_image', 'resdet_alloc_coeffs'],
                note='Size arithmetic proved over all width and height values in 64-bit machine arithmetic; the products are compared with the mathematical ones.'),
    'C03': dict(functions=['resdet_create_analysis', 'setup_dimension', 'resdet_open_image', 'open_image', 'resdet_read_image'],
                note='The size postconditions and every memory and arithmetic obligation of creating an analysis, opening an image and bulk reading, for all 2^128 pairs of dimensions, under seven pixel limits (none, 1, 1000, 2^32-1, 2^32, 0x123456789a, 2^63-1): the other limits a build may choose are not enumerated. That later reads and writes stay inside these buffers are the memory obligations of C05-C11 and C16-C22.',
                assumptions=['the pixel limits other than those listed', 'the plan functions of the transform backends by contract (C15)']),
    'C04': dict(functions=['resdet_create_analysis', 'setup_dimension', 'resdet_destroy_analysis'],
                note='Representation invariant of RDAnalysis as postcondition of creation, over all sizes, ranges, thresholds, methods and every combination of failing allocations; the transform backend enters by contract (C15).'),
    'C05': dict(functions=['resdet_analyze_image', 'resdet_transform'], assumptions=['the analysis satisfies the representation invariant that C04 proves creation establishes'],
                note='Postconditions over every image (every coefficient bit pattern, every size) and every analysis state; the transform and the detection method enter by contract (C15, C06-C09), the calls they receive are the observed events.'),
    'C06': dict(functions=['detect_method_sign'], assumptions=[A_DATA], note='Loop invariants over ghost counting functions; every line count, length, range and coefficient bit pattern, both orientations. The fraction is count/(lines*range) as the same floating point expression; that it lies in [0,1] is the lemma count <= lines*range.'),
    'C07': dict(functions=['detect_method_magnitude'], assumptions=[A_DATA], note='As C06, the comparison as an IEEE 754 expression of the two coefficients, compared over all bit patterns.'),
    'C08': dict(functions=['detect_method_original'], assumptions=[A_DATA], note='As C06, with array invariants for the per-position sums; sums are the ghost left-to-right floating point sums, so the proof fixes the summation order up to what IEEE 754 equality of the terms gives.'),
    'C09': dict(functions=['detect_method_zerocrossing'], assumptions=[A_DATA], note='As C06.'),
    'C10': dict(functions=['resdet_analysis_results', 'generate_dimension_results', 'sortres'], assumptions=['the analysis satisfies the representation invariant that C04 proves creation establishes', 'fewer than 2^53 frames were counted'],
                note='Ghost functions rank and nth over the candidates; both loops by invariants over them, the unsorted list by an array invariant; the sort by the contract of qsort, whose comparator is itself verified. Every accumulator bit pattern, size, range, threshold and frame count.'),
    'C11': dict(functions=['resdet_analysis_results', 'generate_dimension_results'], assumptions=['as C10'],
                note='As C10 with the filter value 1..31; which candidates remain is the code\'s floating point expression of size, index and value only. The documented meaning (the multiples of size/2^value are removed) is a separate alternative that does not hold: known finding.'),
    'C12': dict(functions=['resdet_analysis_results', 'generate_dimension_results'],
                note='Every combination of given outputs, null analysis, no frames, searched dimensions and failing allocations, with arbitrary previous contents of the outputs.'),
    'C13': dict(functions=['resdetect'], note='The ghost state of a sequential history (images analysed, status of the first failure) is threaded through the contracts of creation, analysis, results and destruction; the loop over the images is cut by an invariant. Any number of images, any size, any outcome of each step, all 16 combinations of outputs.',
                assumptions=['the block holds nimages*width*height floats and is smaller than 2^63 bytes']),
    'C14': dict(functions=['resdetect_file'], note='As C13, with the contracts of opening, reading and closing an image; any finite sequence of frames and outcomes.',
                assumptions=['a file has finitely many frames (termination only)']),
    'C16': dict(functions=['pgm_open', 'pgm_read_frame', 'pgm_close'],
                note='The client of the reader table entry (open, read until it ends, close) over every byte sequence: the header grammar, the samples and the buffers are ghost functions of the file, the conversion loops are cut by array invariants, the stream functions enter by contract. Named files and standard input, seekable or not.',
                assumptions=['a file has finitely many bytes, fewer than 2^62', 'the pixel type is float (the build configuration of /repo)']),
    'C17': dict(functions=['pfm_reader_open', 'pfm_reader_read_frame', 'pfm_reader_close', 'read_header', 'skip_comments', 'read_pfm_plane_gray', 'read_pfm_plane_rgb', 'swap_endian'],
                note='Opening establishes a representation invariant of the reader\'s private state (proved for named files and standard input), and one read in any state that satisfies it keeps it and delivers the frame that starts at the stream position: header grammar, samples, byte order and row order are ghost functions of the file; the loops are cut by array invariants.',
                assumptions=['a file has fewer than 2^63 bytes', 'the pixel type is float (the build configuration of /repo)']),
    'C18': dict(functions=['y4m_reader_open', 'y4m_reader_read_frame', 'y4m_reader_close', 'read_frame_header', 'resdet_fskip'],
                note='The header is described by ghost functions of the position (is there a header from here on, where does it end, where are its last width, height and colorspace); opening is proved for every kind of colorspace and every depth, for named files and standard input, and establishes the plane sizes, depth and buffer sizes; one read in any such state is proved for every depth 8 to 16 and any chroma size.',
                assumptions=['a file has fewer than 2^63 bytes', 'the pixel type is float (the build configuration of /repo)']),
    'C19': dict(functions=['pfm_reader_seek_frame', 'read_header', 'resdet_fskip', 'pgm_seek_frame', 'y4m_reader_seek_frame', 'read_frame_header', 'libpng_reader_seek_frame', 'libjpeg_reader_seek_frame', 'resdet_seek_frame'],
                note='One seek by any count in any state that satisfies the representation invariant, against the ghost function that gives the stream position k frames on; callback calls are observed events. PGM through the client loop (any sequence of reads and seeks). PFM and Y4M seeks proved for complete frames. PNG and JPEG: one seek after opening, and what any further seek or read then gives (C24).',
                assumptions=['the frames of a seekable stream are complete']),
    'C20': dict(functions=['resdet_open_image', 'resdet_open_image_with_reader', 'open_image', 'ext_from_mimetype', 'resdet_strieq', 'resdet_read_image_frame', 'resdet_seek_frame', 'resdet_close_image', 'supports_ext of PGM, PFM, Y4M, libjpeg and libpng'],
                note='File name, type and reader name are opaque strings known through predicates (equal to a literal, exactly or ignoring case; contains a slash; position of the last dot), so that every string is covered; resdet_strieq is proved against equality ignoring case for all lengths and enters by contract; all 32 combinations of null arguments, any outcome of the reader and the allocations; the readers are taken from the library\'s own list, with FFmpeg and MagickWand supporting arbitrary extensions. The returned image is then read, sought and closed.',
                assumptions=['the open functions of the readers leave the status alone on success and return null with a nonzero status otherwise (proved for the native readers)']),
    'C21': dict(functions=['resdet_read_image'],
                note='The loop over the frames is cut by an invariant: frame k of the file is at offset k times width times height of the block, which has room for one more frame; reallocation invalidates every other pointer to the block; any number of frames, any outcome of each read and reallocation; three pixel limits.',
                assumptions=['a file has finitely many frames (termination only)']),
    'C24': dict(functions=['libpng_reader_open', 'libpng_reader_read_frame', 'libpng_reader_seek_frame', 'libpng_reader_close', 'pngerr_error_fn', 'libjpeg_reader_open', 'libjpeg_reader_read_frame', 'libjpeg_reader_seek_frame', 'libjpeg_reader_close', 'jerr_error_exit'],
                note='libpng and libjpeg enter by contracts that let every call which can fail do so: the error function the reader installed is then executed, and its longjmp must reach a setjmp whose function has not returned. The image is any of the 15 combinations of color type and depth, with or without transparency and interlacing, of any size; what the decoder delivers are arbitrary bytes, one array per pass; loops over rows, row pointers and pixels are cut by array invariants. Opening, then one read or seek, then any further one: after the frame the private state no longer changes (induction over operations).',
                assumptions=['at a longjmp local variables are as they were at setjmp (those changed in between are indeterminate in C)', 'recommended JPEG buffer heights are at most 4 rows']),
    'C15': dict(level='exploration', functions=['resdet_alloc_coeffs', 'resdet_create_plan', 'resdet_transform', 'kiss_dct', 'resdet_free_plan', 'resdet_free_coeffs'],
                note='Proved for both backends, all sizes and every failure of an allocation: status and release of each part exactly once, and for the transform with FFTW, one execution of an in-place h by w REDFT10 by REDFT10 plan of the image; with KISS FFT, that each row and then each column enters the real FFT of twice its length followed by its mirror image, and is replaced in place by the real part of its spectrum turned by exp(-i pi k / 2n), the turning factors included (cosine and sine of an angle read as an exact multiple of pi), and that the plan is unchanged, so that it can be used any number of times. Bounded, not proved: the FFT itself (kiss_fft.c, kiss_fftr.c: factorisation, butterflies, twiddles) enters as a contract, compared on real executions with a naive DCT-II for chosen sizes (radices 2, 3, 4, 5 and primes, one-pixel, odd, non-square, up to 256 by 256) and random ones up to 400.',
                rule='sizes from a fixed list covering each radix and their mixtures, and random sizes up to 400 by 400; images: noise, impulses, ramps, signed, flat; up to three uses of a plan; every failing allocation of creation; sizes beyond each backend; distinct by these parameters',
                assumptions=['the real part of exp(-i pi k / 2n) times the spectrum of a line followed by its mirror image is twice its DCT-II (algebra, checked numerically)', 'rounding is that of single precision arithmetic: the tolerance of the bounded check is 2e-5 of four times the sum of the absolute values']),
    'C23': dict(functions=['every function of lib/, by the tasks of C01, C02, C04-C10, C13-C18, C20, C21, C24, C26'],
                note='Frame obligations: each function under contract is run again with its inputs (parameters, method, image, names, data) marked as constant; every store, bulk copy and write of an external function is an obligation to reach a live object that is an argument, reachable from one, or allocated by the call, never a constant or a global of the library. Since no library function writes a global and none stores an argument in one, calls on distinct objects have disjoint footprints and commute, in any order and on any threads. The other obligations of these tasks (bounds, postconditions) are assumed here and discharged by the checks of their properties. The FFT kernel of KISS FFT and four callbacks without a contract refer to no writable global at all. Reading back an object is covered by the contracts of each property. Concurrent, interleaved and repeated histories are also compared with each history alone in a fresh process (bounded).',
                assumptions=['the C library, libpng, libjpeg and FFTW execution are reentrant on distinct objects', 'FFTW plan creation and destruction are serialised by the caller, as documented']),
    'C22': dict(functions=['pgm_open', 'pgm_read_frame', 'pgm_seek_frame', 'pgm_close', 'pfm_reader_open', 'pfm_reader_read_frame', 'pfm_reader_seek_frame', 'pfm_reader_close', 'read_header', 'read_pfm_plane_gray', 'read_pfm_plane_rgb',
                           'y4m_reader_open', 'y4m_reader_read_frame', 'y4m_reader_seek_frame', 'y4m_reader_close', 'read_frame_header', 'resdet_fskip', 'open_image', 'resdet_close_image', 'resdet_read_image_frame', 'resdet_seek_frame'],
                note='The safety obligations (bounds, lifetime, initialisation, leaks, arithmetic, termination) of every load, store, call and allocation on every path of opening, of one read or seek in any state that satisfies the representation invariant (after failures too), and of closing; any file contents, any outcome of each allocation, open and seek.',
                assumptions=['a file has fewer than 2^63 bytes']),
    'C25': dict(functions=['main (src/resdet.c)', 'seek_progress', 'usage', 'help', 'resdet_alloc_default_parameters', 'resdet_parameters_set_range', 'resdet_parameters_set_threshold', 'resdet_parameters_set_compression_filter', 'resdet_list_methods', 'resdet_list_image_readers', 'resdet_get_image_reader'],
                note='main for every argument vector (any number of options in any order, the option loop by invariant), any outcome of every library call, any number of frames and any lists of candidates. Ghost state records the options given, the frames read and analysed, and where in the documented output of the chosen format the text printed so far ends; each piece of text printed is an obligation against that grammar, each library call an obligation on its arguments, and each way of ending one on status, message and output.',
                assumptions=['writes to standard output and standard error do not fail', 'numbers have the syntax of strtol, strtoull, strtod (text after a number is not looked at)', 'a file has fewer than 2^62 frames', 'the library calls satisfy the contracts of the other properties']),
    'C26': dict(functions=['ffmpeg_reader_open', 'read_frame (ffmpeg.c)', 'ffmpeg_reader_read_frame', 'ffmpeg_reader_seek_frame', 'ffmpeg_reader_close', 'ffmpeg_reader_supports_ext', 'rderror_from_averror',
                           'magickwand_reader_open', 'magickwand_reader_read_frame', 'magickwand_reader_seek_frame', 'magickwand_reader_close', 'magickwand_reader_supports_ext', 'next_image'],
                note='The two readers as compiled against the installed headers, under the most general client: opening, any sequence of reads and seeks (the loop by invariant), closing. The libraries are ghost state machines: a container with any number of packets of any streams, a decoder that asks for input at will and delivers frames of any size and format, a scaler that reads and writes what it was configured for, rows any distance apart, a wand with any number of images; any call fails at any point with any code. Each packet of the stream must be decoded once, frames are taken in order, one per read, every pixel is the scaled one, nothing but the end ends the frames without error, and all objects are released. A failure of av_read_frame other than the end is an alternative that does not hold: known finding.',
                assumptions=['FFmpeg and MagickWand behave as their contracts say; what they decode and scale is theirs', 'MagickReadImage failing for a file sets errno']),
}
for i in INFO.values():
    i['note'] = COMMON + i['note']
