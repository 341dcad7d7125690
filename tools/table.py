# Property table (exec'd by props.py).  p(id, title, statement, over, text, why, files, mech)
IN, SC, CO, HI, FA = "inputs", "schedules", "configurations", "histories", "fault_sequences"

p("E01", "Counted events are exactly the strict local maxima",
  "Without dark reference, gain and thresholds that reject anything, the events counted in a frame are exactly the pixels strictly greater than each of their up to eight in-frame neighbours. They are listed once each, in ascending order of row-major pixel index. Pixels at the edges and corners are compared with their in-frame neighbours only, never with pixels of another row or outside the frame.",
  [IN], "every uint16 value of every pixel of a frame, square or not",
  "Ties, plateaus, edges and corners form an astronomically large space of frames; the tests count a single recorded data set and compare totals.",
  [EL, ELH], [("maximaAndThresholds / maximum search", EL), ("electronCount (serial)", EL)])
p("E02", "Dark, gain, background and X-ray thresholds are applied exactly",
  "Before maxima are searched each pixel has its own dark-reference value subtracted (if a dark reference is given) and is then multiplied by its own gain (if given); it is then set to zero if it is less than or equal to the background threshold or greater than or equal to the X-ray threshold. Serial and threaded counting do the same, for every combination of dark reference and gain being present or absent. Where the dark value exceeds the pixel of an integer frame, this is stated for background thresholds of at least 0 and X-ray thresholds up to 65536 less the excess.",
  [IN, CO], "every pixel, dark, gain and threshold value; dark/gain present or absent; serial and threaded counting",
  "The boundary cases (equal to a threshold, gain without dark) are rare values; the tests use one data set with one setting.",
  [EL, ELH], [("threshold comparisons", EL), ("templates over frame type and dark flag", EL)])
p("E03", "Every frame's events land at its own scan position, with the right shape",
  "Electron counting reports each frame's events at the scan position the frame's header names, and at no other position, whatever the order in which blocks and frames arrive; positions that received no frame have no events. The result has the scan dimensions given in the options or, if either is zero, those of the block header, one entry per scan position, and the frame dimensions of the header; in threaded counting every position has as many frame lists as the fullest position, and the metadata are the calculated thresholds. A serial count with no blocks, or without any scan dimensions, is an invalid_argument error.",
  [IN, CO], "every assignment of frames to scan positions and blocks, both ways of giving the scan dimensions, serial and threaded counting",
  "The tests use one recorded scan whose positions are delivered in order, each once.",
  [EL, ELH], [("event table sized by scan dimensions", EL), ("frames indexed by header.imageNumbers", EL)])
p("E04", "Threaded counting loses and duplicates nothing under any worker schedule",
  "When worker threads deliver blocks concurrently, threaded electron counting reports every delivered frame's events exactly once at its scan position, under every interleaving of the workers, including several frames of one position. Exactly the requested number of complete blocks is used to calculate the thresholds, which are calculated once. A failure to read the data is passed on to the caller. No two threads access the same memory without synchronisation.",
  [SC, IN], "every schedule of 2-3 workers within the stated preemption bound, sample counts, complete and incomplete blocks",
  "Tests run whatever schedule the operating system happens to choose; lost updates need a particular interleaving.",
  [EL, RD], [("position locks, sample mutex, condition variable", EL)],
  state=[("events", "event lists per scan position", EL), ("sampleBlocks", "blocks kept for the threshold calculation", EL)])
p("E05", "Row-dark correction rescales each half row by its own statistic",
  "With row-dark correction, in every row of a frame of any shape the left half (width/2 rounded down) and the remaining right half are separately scaled by optimizedMean divided by the mean (or median, as selected) of the raw pixels of that half row. This comes after the dark reference is subtracted (if given) and before gain and thresholding. The counted events, in serial and threaded counting, are the maxima of the frame so corrected.",
  [IN, CO], "every pixel and dark value in the stated range, odd and even widths, non-square frames, mean and median, float and integer frames",
  "The tests do not enable row-dark correction with a reference result; non-square frames and medians of even-length half rows are never tried.",
  [EL], [("applyRowDark", EL)])
p("E06", "Calculated thresholds are the statistics of the sampled pixels",
  "The threshold calculation reports as number of samples, minimum, maximum, mean, variance and standard deviation those of the dark-corrected, gain-multiplied pixels of all sampled frames, and bins every such pixel below the X-ray limit exactly once in the unit-wide histogram it fits. The background and X-ray thresholds are the fitted mean and the sample mean plus the requested number of the respective standard deviations. No value of the pixels makes it read or write outside its arrays.",
  [IN, CO], "every pixel and dark value in the stated range, any number of sampled frames and blocks",
  "Random sampling and a least-squares fit hide small errors of the statistics; negative, constant or extreme samples never occur in the test data.",
  ["stempy/electronthresholds.cpp", "stempy/electronthresholds.h"], [("calculateThresholds", "stempy/electronthresholds.cpp")])
p("I01", "An annular mask contains exactly the pixels inside the annulus",
  "A pixel of an annular mask is set (all 16 bits) if and only if its squared distance from the centre is at least the squared inner radius and less than the squared outer radius; every other pixel is zero. A negative centre coordinate means the middle of the frame along that axis, (size+1)/2. This holds for every radius pair, including inner larger than outer, every centre inside or outside the frame, and every frame shape.",
  [IN], "every radius pair and centre in the stated range, non-square frames",
  "The tests use one mask of one square frame.",
  [MK, "stempy/mask.h"], [("createAnnularMask", MK)])
p("I02", "A STEM image value is the masked sum of that position's frame",
  "For every pair of radii the STEM image has the scan dimensions (from the argument or, if either is zero, from the block header) and its value at a scan position is the exact sum of the pixels of that position's frame inside the annulus; positions without a frame are 0. It does not depend on the order of blocks and frames nor on the schedule of the worker threads. Missing or mismatched radii, missing scan dimensions and an empty block sequence are invalid_argument errors.",
  [IN, SC, CO], "every pixel value, frame-to-position assignment, block split, and schedule within the preemption bound",
  "Tests compare one recorded image; position mix-ups and overflow need unusual inputs.",
  [IM, "stempy/image.h", MK], [("createSTEMImages", IM), ("calculateSTEMValuesParallel", IM)])
p("I03", "A sparse STEM image counts the electrons inside the annulus",
  "A STEM image made from electron-counted data has the data's scan dimensions, and its value at a scan position is 65535 times the number of electrons of all frames of that position that lie inside the annulus. Electrons at any pixel of a frame of any shape are located by row = index div width, column = index mod width. Missing or mismatched radii are an invalid_argument error.",
  [IN], "every electron position, any number of frames and electrons per position, including none",
  "The tests compare one recorded scan of square frames.",
  [IM, "stempy/image.h"], [("createSTEMImages (sparse)", IM), ("calculateSTEMValuesSparse", IM)])
p("I04", "The radial sum puts every pixel in exactly its radius and position",
  "The radial sum at radius r and a scan position is the exact sum of the pixels of that position's frames whose distance from the centre, rounded up to an integer, is r; several frames of one position add up. The radius axis is long enough for every pixel, for any centre (negative coordinates mean the middle), and values are laid out radius-major with the scan dimensions. It does not depend on the schedule of the worker threads; missing scan dimensions and an empty block sequence are invalid_argument errors.",
  [IN, SC], "every pixel value, centre in the stated range, block split and schedule within the preemption bound",
  "Tests cover one centre of one square frame; radii at the far corner of an off-centre frame are the rare case.",
  [IM, "stempy/image.h"], [("radialSum", IM), ("getDoubleStackMax/maximal radius", IM)])
p("I05", "A STEM histogram counts every pixel once, in its own bin",
  "The bin edges computed for an image start at its minimum, never decrease and reach its maximum, and the histogram over them counts every pixel exactly once, the maximum in the last bin. With arbitrary increasing edges each bin counts the values from its lower edge up to but excluding its upper edge, the last bin also its upper edge.",
  [IN], "every image value and bin count in the stated ranges",
  "Rounding of the bin width loses the maximum only for particular values and bin counts.",
  [IM, "stempy/image.h"], [("getContainer", IM), ("createSTEMHistogram", IM)])
p("I06", "Average and maximum patterns cover every frame of every block",
  "The average pattern is, pixel by pixel, the mean over all frames of all blocks; the maximum diffraction pattern is the largest value over all frames minus the dark reference if one is given. Blocks may hold different numbers of frames. Both have the frame dimensions.",
  [IN, CO], "every pixel and dark value, any distribution of frames over blocks",
  "Tests only use equally sized blocks and one data set.",
  [IM, "stempy/image.h"], [("calculateAverage", IM), ("maximumDiffractionPattern", IM)])
p("R01", "A version 1 stream file is decoded exactly, block after block",
  "Reading a version 1 stream returns the blocks of the file(s) in order, each with the header fields stored in it, the image numbers converted from one- to zero-based, and the frame data exactly as stored. Files are read one after the other, and after the last block the reader returns an empty block. Reset makes the reader start again from the first block.",
  [IN, HI], "every header field and pixel byte of the stated number of blocks and files",
  "The tests read one recorded file.",
  [RD, "stempy/reader.h"], [("StreamReader::read / readHeaderVersion1", RD)])
p("R02", "Version 2 and 3 stream files are decoded exactly",
  "Reading a version 2 stream returns blocks of 1600 frames of 576x576 pixels and reading a version 3 stream returns single 576x576 frames, with the data exactly as stored. A version 3 block carries the scan dimensions of its header, and its image number is y * scan width + x of the header's position.",
  [IN], "every header field and every pixel of the encoded frames",
  "The tests do not read version 2 or 3 files.",
  [RD, "stempy/reader.h"], [("readHeaderVersion2/3", RD)])
p("R03", "Truncated or malformed streams are errors, never memory corruption",
  "A stream file cut off at any byte, or with arbitrary header content, is either read as the complete blocks it holds or ends in an exception; the reader never reads or writes outside its buffers and never returns data that is not in the file. A missing file or an unsupported version is an invalid_argument error.",
  [IN, FA], "every truncation point and every header value in the stated file sizes",
  "The tests only read well-formed files.",
  [RD], [("StreamReader::read EOF handling", RD)])
p("R04", "A sector goes to its own strip of its own frame",
  "Every sector of a version 4 or 5 stream is placed in the 576x576 frame of the scan position in its header: version 4 sectors (144 columns wide) side by side, version 5 sectors (144 rows high) one below the other, in the order of the module number in the file name. The frame so assembled has the scan position, scan dimensions and exactly the pixels stored, and the four sectors may arrive in any order from files given in any order.",
  [IN, CO], "every header field and every pixel, every order of files and modules",
  "The tests have no sector data; a swapped strip is only visible with distinct data in every sector.",
  [RD, "stempy/reader.h"], [("SectorStreamReader::readSectorData*", RD)])
p("R05", "Each frame of sector files is delivered once, incomplete ones zero-filled",
  "Reading sector streams to the end returns every scan position present in any file exactly once: a frame as soon as its four sectors have arrived, and after the files are exhausted the incomplete ones in ascending position order with the missing strips zero. After that the reader returns an empty block. Frames of different positions never share data.",
  [IN, HI], "every arrangement of sectors over the files within the stated number of sectors",
  "Missing sectors and interleavings of positions do not occur in the tests.",
  [RD], [("SectorStreamReader::read, frame cache", RD)])
p("R06", "The multi-pass reader maps every sector to its position and frame",
  "The multi-pass reader visits the frames of every scan position in ascending position and frame-number order, each once, with the strips of its sectors in place, missing strips zero, and the complete flag set exactly when all four sectors are present. Reading frames of one position by index gives the same frames as the full pass, and an out-of-range position or frame index is an invalid_argument error. The number of frames per scan position is the maximum over all positions.",
  [IN, CO], "every header content and sector arrangement within the stated number of sectors",
  "The tests have no sector data; several frames per position, missing sectors and shuffled files are the interesting cases.",
  [RD, "stempy/reader.h"], [("SectorStreamMultiPassThreadedReader::readHeaders / loadFrames", RD)])
p("R07", "The threaded sector reader delivers complete frames exactly once, any schedule",
  "With any number of worker threads and under every interleaving the threaded sector reader passes each frame whose four sectors are present to the callback exactly once, with all strips in place, its position, frame number and scan dimensions set. Workers end and the result is available when all files are exhausted. No two threads access the same memory without synchronisation.",
  [SC, IN], "every schedule within the preemption bound, sectors of up to the stated number of frames",
  "Tests have no sector data, and run one schedule.",
  [RD, "stempy/reader.h"], [("SectorStreamThreadedReader::readAll", "stempy/reader.h"), ("frame cache and stream queue locks", RD)])
p("R08", "Malformed sector files are errors, never memory corruption",
  "Sector files cut off at any byte, with a module number outside 0-3 or with arbitrary header content never make a reader access memory outside its buffers or use uninitialised data; they are read as far as complete or end in an exception.",
  [IN, FA], "every truncation point, module number and header value in the stated file sizes",
  "The tests never read malformed files.",
  [RD], [("SectorStreamReader::readHeader / readSectorData", RD)])
p("R09", "Reset makes a reader deliver everything again from the start",
  "After any number of reads, reset makes a reader deliver the same blocks as a freshly opened reader, regardless of where the previous pass stopped.",
  [HI, IN], "every number of reads before the reset, every file content in the bounds",
  "The tests reset, if at all, once after a full pass.",
  [RD, "python/pyreader.cpp"], [("StreamReader::reset, SectorStreamReader::reset, PyReader::reset", RD)])
p("R10", "Exported frames land at their own position in the HDF5 data set",
  "Exporting sector streams to HDF5 writes every sector's pixels to the place of the data set given by its position (in data-cube form the first two axes are the scan dimensions in the order of the header: position x, then y) and its strip within the frame, and nothing else is overwritten. The fraction of captured data is the number of sectors divided by four times the number of scan positions.",
  [IN], "every position and pixel value in the bounds",
  "The tests do not export sector data.",
  [RD], [("SectorStreamReader::toHdf5*", RD), ("dataCaptured", RD)])
p("T01", "The thread pool runs every task once and completes its futures",
  "Every task given to the thread pool runs exactly once, its result or exception reaches its future, and destroying the pool first finishes all queued tasks and joins all workers, under every schedule. While a worker is free a queued task does not wait for the ones before it. Adding a task to a stopped pool is an error.",
  [SC], "every schedule of up to three workers and tasks within the preemption bound",
  "Lost wake-ups and shutdown races need particular interleavings.",
  ["thirdparty/ThreadPool/ThreadPool.h"], [("ThreadPool", "thirdparty/ThreadPool/ThreadPool.h")])
p("M01", "MPI ranks share the work without gap or overlap",
  "However many ranks take part, every stream or scan position is assigned to exactly one rank, all ranks agree on where the sectors are, and gathering the ranks' events gives every position exactly the events counted for it. The thresholds are those of the samples of all ranks.",
  [CO, IN], "every world size and rank, position and stream count in the bounds",
  "The tests do not use MPI, and neither does the build here.",
  ["stempy/electron_mpi.cpp", "stempy/reader_mpi.cpp"], [("rank partition", "stempy/reader_mpi.cpp"), ("gatherEvents", "stempy/electron_mpi.cpp")])
p("B01", "Array views of blocks and images expose the frame data unchanged",
  "The array obtained in Python from a block has the shape images x rows x columns and element [i, r, c] is the pixel stored at that image, row and column, also for non-square frames; images and radial sums expose their data likewise.",
  [IN, CO], "every shape, index and pixel value in the bounds",
  "The tests use square frames, for which row and column strides coincide.",
  ["python/io.cpp", "python/image.cpp"], [("py::buffer_info", "python/io.cpp")])
p("B02", "A Python-backed reader partitions its data set into blocks without loss",
  "Reading a reader backed by a numpy or HDF5 data set returns consecutive blocks that cover all frames exactly once in order, the last one possibly shorter, each with the image numbers and scan dimensions given; then empty blocks.",
  [IN, CO], "every number of frames and block size in the bounds, any image numbers",
  "The tests use one data size.",
  ["python/pyreader.cpp", "python/pyreader.h"], [("PyReader::read", "python/pyreader.cpp")])
p("B03", "Counting options, counted data and patterns cross the binding unchanged",
  "Every option of electron counting set from Python (thresholds, statistics, dark and gain reference, row dark correction, verbosity, scan dimensions) reaches the C++ options with the same value, and only when it was given. The counted data and its metadata come back with every scan position's frames, events and dimensions unchanged and with the settings they were counted with. Sparse frames passed to create_stem_images, in any memory layout, give the images of their elements. The average pattern of a reader is accepted as the dark reference of the maximum pattern and subtracted pixel by pixel.",
  [IN, CO], "every option value and subset of given options, any events and memory layout in the bounds",
  "The tests only sum up the events of one contiguous counted data set.",
  ["python/image.cpp", "stempy/electron.h"], [("toCpp", "python/image.cpp"), ("ElectronCountedDataPyArray", "python/image.cpp"), ("create_stem_images", "python/image.cpp")])

SA = "python/stempy/io/sparse_array.py"
p("S01", "Indexing a sparse array over scan positions equals indexing the dense array",
  "For integers, slices with any start, stop and step, ellipsis, boolean masks and integer arrays over the scan axes, indexing a sparse array gives the same result as indexing its dense equivalent with the same key. The original array is unchanged.",
  [IN, CO], "every index value in the bounds and every electron position",
  "The tests try a handful of keys on one data set.",
  [SA], [("SparseArray.__getitem__ / _split_slices / _slice_sparse", SA)])
p("S02", "Indexing a sparse array over frame pixels equals indexing the dense array",
  "Slices, integers and boolean masks over the frame axes (alone or together with a selection of scan positions) keep exactly the electrons inside the selection, renumbered to the selected frame shape, so that densifying the result equals selecting from the dense array.",
  [IN, CO], "every slice bound and every electron position in the bounds, non-square frames",
  "The tests try a handful of keys on one square data set.",
  [SA], [("SparseArray._slice_dense / _slice_sparse", SA)])
p("S03", "Reductions of a sparse array equal those of the dense array",
  "sum, mean, max and min of a sparse array over the scan axes, the frame axes or all axes equal the reduction of its dense equivalent, also with several frames per position, electrons repeated across the frames of a position, and empty positions. (A single frame lists a pixel at most once.)",
  [IN, CO], "every electron position and multiplicity in the bounds, all axes",
  "The tests compare one data set with no empty positions.",
  [SA], [("SparseArray.sum/mean/max/min", SA)])
p("S04", "Binning over scan positions keeps every electron",
  "Binning the scan axes by a factor combines exactly the frames of each bin: densifying the result equals summing the dense array over the bins. A factor that does not divide the scan shape is an error, and the total number of electrons is unchanged.",
  [IN, CO], "every electron position, scan shape and factor in the bounds",
  "The tests compare one scan shape and factor.",
  [SA], [("SparseArray.bin_scans", SA)])
p("S05", "Binning over frame pixels puts every electron in its own bin",
  "Binning the frame axes by a factor moves every electron to the bin that contains its row and column, so that densifying the result equals summing the dense array over the bins; electrons that fall in one bin are all kept. This holds for non-square frames; a factor that does not divide the frame shape is an error.",
  [IN, CO], "every electron position, frame shape and factor in the bounds",
  "The tests use square frames and few repeated electrons.",
  [SA], [("SparseArray.bin_frames", SA)])
p("S06", "Reshaping and raveling keep every position's data in order",
  "Reshaping the scan axes or raveling them keeps the positions in row-major order and their electrons unchanged, so that densifying equals reshaping the dense array; a shape of a different size is an error and leaves the array unchanged.",
  [IN, CO], "every shape and electron position in the bounds",
  "The tests try two shapes.",
  [SA], [("SparseArray.reshape / ravel_scans", SA)])
p("S07", "Writing a sparse array to HDF5 and reading it back gives the same array",
  "Writing the electron counts of a two-dimensional scan to an HDF5 file and loading them gives an equal array: same positions, electrons, shapes and metadata. Loading without the fly-back column removes exactly the last column of the scan, and nothing else.",
  [IN, CO], "every electron position, scan shape and metadata in the bounds",
  "The tests load one file.",
  [SA, "python/stempy/io/__init__.py"], [("SparseArray.write_to_hdf5 / from_hdf5", SA)])
p("S08", "Old electron-count formats are converted without loss",
  "Converting data of format version 1 or 2 to the current format keeps, for every scan position, exactly the frames and electrons recorded for it, also when several frames have the same scan position and when the position list is unordered.",
  [IN, CO], "every assignment of frames to positions and every electron in the bounds",
  "The tests load one file per version, with equal numbers of frames per position.",
  ["python/stempy/io/compatibility.py"], [("convert_data_format", "python/stempy/io/compatibility.py")])
p("S09", "Raw data and STEM images saved to HDF5 come back unchanged",
  "Raw data saved with save_raw_data and read back through the reader gives every frame once, in order and unchanged, numbered by the scan positions given (consecutively if none were), with the scan dimensions given or, without them, those of the stored STEM images; compression and memory layout make no difference. save_stem_images stores the images and their names unchanged; a different number of names is an error and writes nothing.",
  [IN, CO], "every pixel, position, dimension and option in the bounds", "The tests do not cover it.",
  ["python/stempy/io/__init__.py"], [("save_raw_data", "python/stempy/io/__init__.py"), ("get_hdf5_reader", "python/stempy/io/__init__.py"), ("save_stem_images", "python/stempy/io/__init__.py")])
PI = "python/stempy/image/__init__.py"
p("A01", "The centre of mass of sparse frames is the mean electron position",
  "For a two-dimensional scan com_sparse gives, per scan position, the mean column and row of all electrons of that position inside the crop radius around the initial centre (given as row and column, or the position's own mean; all electrons without crop), for both versions and non-square frames. Positions without electrons are NaN or replaced by the mean over the other positions, as requested.",
  [IN, CO], "every electron position in the bounds, crop settings, empty positions",
  "The tests compare a few synthetic square frames.",
  [PI], [("com_sparse", PI)])
p("A02", "The centre of mass of dense frames is the weighted mean position",
  "com_dense gives for every frame the intensity-weighted mean row and column of its pixels, also for non-square frames.",
  [IN], "every pixel value in the bounds", "The tests compare a few frames.", [PI], [("com_dense", PI)])
p("A03", "The sparse radial sum counts every electron once at its radius",
  "radial_sum_sparse counts, per scan position, every electron of all frames exactly once at its distance from the centre rounded down, for all radii below half the longer frame side (electrons exactly at that distance are counted at the last radius; farther ones are not counted), also for non-square frames and one-dimensional scans.",
  [IN], "every electron position and centre in the bounds", "The tests compare one data set.", [PI], [("radial_sum_sparse", PI)])
p("A04", "A virtual dark field counts the electrons inside its apertures",
  "virtual_darkfield gives, per scan position, the number of electrons of all frames closer to a given centre than the given radius, summed over the apertures, also for non-square frames, one-dimensional scans and events of any integer type.",
  [IN, CO], "every electron position, centre and radius in the bounds", "The tests compare one aperture on one data set.", [PI], [("virtual_darkfield", PI)])
p("A05", "A real-space mask keeps exactly the selected positions' electrons",
  "mask_real_space sums into one pattern exactly the electrons of the scan positions selected by the mask.",
  [IN], "every mask and electron position in the bounds", "The tests compare one mask.", [PI], [("mask_real_space", PI)])
p("A06", "The summed pattern of sparse data counts every electron once",
  "calculate_sum_sparse gives a pattern of the frame shape whose pixel is the number of electrons recorded there over all positions, also for non-square frames.",
  [IN], "every electron position in the bounds", "The tests compare one data set.", [PI], [("calculate_sum_sparse", PI)])
p("A07", "The Python STEM-image and counting wrappers pass their arguments through",
  "create_stem_images and electron_count hand the reader, radii, centre, scan dimensions, dark reference, gain and thresholds given by the user to the counting and imaging core in the right order and orientation, and return its result with the scan shape, frame shape and metadata it reports.",
  [IN, CO], "every argument value; every kind of input", "The tests use square scans and frames, for which a transposed pair is invisible.",
  [PI], [("create_stem_images", PI), ("electron_count", PI)])
p("A08", "Frame selections of the multi-pass reader follow Python indexing",
  "read_frames of the Python multi-pass reader accepts a scan position as flat index or row/column pair and a frame selection as index, slice or list, and returns exactly those frames; out-of-range selections are errors.",
  [IN, CO], "every index, slice and scan shape in the bounds", "The tests do not cover it.", ["python/stempy/io/__init__.py"], [("SectorThreadedMultiPassReader.read_frames", "python/stempy/io/__init__.py")])
p("A09", "Bad-sector filtering replaces exactly the outliers, by local medians",
  "filter_bad_sectors keeps the centre of mass of every scan position whose second component lies within the cut-offs. Every other position gets, per component, the median of the other positions of its neighbourhood (the up to eight positions around it, also at the border of the scan) when these are within the cut-offs, and in any case a value between those of positions within the cut-offs if it has such a neighbour.",
  [IN], "every centre of mass, cut-off and set of outliers in the bounds", "The tests do not cover it.", [PI], [("filter_bad_sectors", PI)])
p("A10", "The Python readers and image functions hand on what the core delivers",
  "Iterating over a stream, sector or HDF5 reader, next() and read() deliver every block of the compiled reader once, in order, with its own header and data (also after later blocks were read), and end at the first empty block. reader() makes the reader of the version and backend asked for and refuses unknown ones. Histogram, radial sum, average and maximum pattern pass reader, radii, centre, scan size and dark reference to the core in its order and return its arrays.",
  [IN], "every block sequence and argument in the bounds", "The tests use one block sequence and no histogram, maximum or data cube.", ["python/stempy/io/__init__.py", PI], [("ReaderMixin.__next__", "python/stempy/io/__init__.py"), ("reader", "python/stempy/io/__init__.py"), ("create_stem_histogram", PI), ("maximum_diffraction_pattern", PI)])
p("P01", "Pipeline parameters arrive with the value given or their own default",
  "A function decorated as a pipeline declares each of its parameters once, with type, label, description and default, and is called once with every declared parameter set to the value given by the caller or, if none was given, to that parameter's own default, in every call.",
  [IN], "every set of parameters given, every value", "The tests do not cover it.", ["python/stempy/pipeline/__init__.py"], [("parameter", "python/stempy/pipeline/__init__.py")])
p("C01", "A scan id resolves to the file of exactly that scan",
  "get_scan_path returns the file of the scan with the given number or id if it exists, never that of another scan, and an error if there is none or several.",
  [IN], "every scan number, id and set of files in the bounds", "The tests try a few names.", ["python/stempy/contrib/__init__.py"], [("get_scan_path", "python/stempy/contrib/__init__.py")])

NOT_APPLICABLE = {}
