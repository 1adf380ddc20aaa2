"""Writes properties.jsonl and MANIFEST.json from the table below (only properties with a check)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                      files=files, mech=mech, technique=technique, note=note, na=na))


S = "swiftsimio/"
P("P01", "Reading row ranges returns exactly the requested rows",
  "Reading a list of row ranges from a dataset returns exactly the rows of those ranges, in order, as if the whole dataset had been read and indexed, for contiguous and chunked, local and remote, one- and two-dimensional datasets of any dtype and byte order and for any column selection. Turning a list of row numbers into ranges and back is lossless, and every dtype is converted to native byte order without changing values.",
  "inputs configurations", "all range lists (sorted, non-overlapping; any order where the reader allows it), dataset shapes, dtypes, chunk layouts, columns",
  "tests read a handful of fixed ranges of two sample files; the chunk/range overlap cases (range inside a chunk, ending on a boundary, empty, adjacent, last partial chunk) are combinatorial",
  [S + "accelerated.py", S + "_ordered_slices.py"],
  [("contiguous and chunked readers, range expansion", S + "accelerated.py"), ("remote reads of ordered slices", S + "_ordered_slices.py")],
  "property-based testing (Hypothesis): generated range lists x chunk layouts against direct numpy indexing",
  "random search over range lists and layouts; small and medium datasets (up to a few thousand rows)")
P("P02", "Every field loads with its stored values, units and cosmology",
  "A field loaded from any SWIFT output has exactly the values stored in the file, the units formed from the file's unit system and the field's unit exponents, its scale-factor exponent, comoving/physical state, convertibility, description, name and compression filter as declared in the file, and a field with named columns exposes each column under its declared name. Reading, deleting, re-reading and overwriting fields in any order never changes what any other field returns, and a deleted field reads the file again.",
  "inputs histories configurations", "all unit systems, exponents, dtypes, flags, scale factors and access histories",
  "tests load sample files with one unit system and exponents; the mapping from attributes to units is a product over every exponent, flag and history",
  [S + "reader.py", S + "metadata/field/attr_reader.py", S + "metadata/objects.py"],
  [("lazy loading properties", S + "reader.py"), ("field attributes", S + "metadata/field/attr_reader.py")],
  "property-based testing (Hypothesis): synthetic files with generated attributes against an in-memory model; access histories",
  "random synthetic snapshots; units compared to 2e-4 because unit names are rounded by design")
P("P03", "A spatial selection never loses a particle inside the region",
  "After selecting a spatial region (or a union of regions) of a snapshot or group catalogue, every particle (or halo) whose position lies inside the region, taking periodic wrapping into account, is among the rows loaded, for every particle type. This holds wherever particles have drifted to, provided the file gives the bounding boxes of its cells or drift stays below the padding, and regions reaching further than half a box outside the box are refused without changing the selection.",
  "inputs configurations histories", "all cell grids, file orders, drifts, regions (inside, across and beyond the boundary, inverted), spellings and units of the region, unions, paddings",
  "tests use one file in which cells are in order and few regions; losing particles silently needs specific orders of cells, wraps and drifts",
  [S + "masks.py"], [("cell selection and row ranges", S + "masks.py")],
  "property-based testing (Hypothesis): generated files and regions against a brute-force position test",
  "random search; grids up to 4x4x4 cells, up to three regions")
P("P04", "A spatial selection is made of whole cells touching the region, once each",
  "A spatial selection contains only complete cells whose extent (with bounding box or padding) touches the region or one of its periodic images, contains each row once, and a region larger than the box selects everything. The union of several regions selects exactly the rows that the regions select one by one, whatever the representation of the mask when the regions are combined.",
  "inputs configurations histories", "as for P03", "tests compare a few hand-picked regions; over-selection and duplication only show for particular overlaps",
  [S + "masks.py"], [("cell selection, union of regions", S + "masks.py")],
  "property-based testing (Hypothesis): generated files and regions against a periodic interval-overlap oracle and set union",
  "random search; cells ending within 1e-9 box lengths of the region are not judged")
P("P05", "Property constraints keep exactly the rows with lower < value <= upper",
  "Constraining a mask by a property keeps exactly those already selected rows whose value lies in (lower, upper], with bounds given in any equivalent units and in comoving or physical form, leaves other particle types alone, and composes with earlier constraints and with conversions between the two mask representations. Constraints applied in an order that is not allowed raise an error and leave the selection as it was.",
  "inputs histories", "all values, bounds (including bounds equal to stored values), units, frames and sequences of constraints and conversions",
  "tests apply one constraint to one file; correctness is over arbitrary sequences and boundary values",
  [S + "masks.py"], [("property constraint, order rules, representation conversions", S + "masks.py")],
  "model-based stateful testing (Hypothesis): constraint histories against a row-set reference model",
  "histories of up to five operations")
P("P06", "Row selections of a catalogue return exactly those rows of every dataset",
  "Selecting rows of a file whose arrays all share one length loads exactly those rows, in increasing order, from every dataset of every group, in either mask representation. Files whose arrays differ in length refuse row selection, and no second selection can be combined with a row selection; a refused call changes nothing.",
  "inputs histories configurations", "all catalogues, row lists (unsorted included) and representations", "tests select rows of one catalogue",
  [S + "masks.py", S + "reader.py"], [("row selection", S + "masks.py")],
  "property-based testing (Hypothesis): generated catalogues and row lists against direct indexing", "rows distinct and within the catalogue")
P("P07", "Loading through a mask equals loading everything and indexing",
  "For any mask, however it was built, each field loaded through it equals the same field of the full load indexed with the mask's rows: same values, shape, dtype, units, cosmology attributes and named columns. Converting a mask between ranges and booleans never changes which rows it selects or what is loaded.",
  "inputs histories configurations", "all masks reachable by any history of constraints and conversions; all dataset layouts",
  "tests compare one or two masks on one file; which read path runs depends on chunking, mask representation and dtype",
  [S + "reader.py", S + "masks.py", S + "accelerated.py"], [("masked lazy loading", S + "reader.py"), ("mask representations", S + "masks.py")],
  "property-based testing (Hypothesis): differential test of masked against full loads over generated masks", "random histories of up to four operations")
P("P08", "A written subset holds exactly the selected rows and metadata",
  "Writing a subset of a file with any mask produces a file whose datasets hold exactly the selected rows with the same dtype and attributes, whose other groups, attributes and links equal the original's, and which loads to the same data as the original loaded with that mask. The original file and the mask's selection are unchanged, and an unconstrained mask is refused unless explicitly allowed.",
  "inputs histories configurations", "all snapshots and catalogues, masks, soft links, empty types", "tests write subsets of a sample snapshot for a few regions",
  [S + "subset_writer.py", S + "masks.py"], [("subset writing", S + "subset_writer.py")],
  "property-based testing (Hypothesis): round trip through the subset writer for generated files and masks", "one- and two-dimensional datasets as SWIFT writes them")
P("P09", "A written subset is a consistent file that can be masked and subset again",
  "In a written subset the header counts equal the dataset lengths, the output type marks it as a subset, and each cell's count and offset designate exactly the rows that belonged to that cell, so that spatial selections of the subset remain complete and precise. Any further history of masking and subset-writing on it gives the rows that composing the selections on the original gives.",
  "inputs histories configurations", "all histories mask, write, mask, write", "tests do not re-mask the written cell metadata exhaustively; errors need particular empty cells and partial ranges",
  [S + "subset_writer.py", S + "masks.py"], [("cell counts and offsets of the subset", S + "masks.py"), ("header and cells of the subset", S + "subset_writer.py")],
  "model-based testing (Hypothesis): mask/write/mask/write histories against composed row sets and a cell-membership invariant", "two generations of subsets")

P("P10", "A written file reads back with the same quantities",
  "For any unit system, box, scale factor, particle types, units, frames and scale-factor exponents of the arrays, the file the writer produces stores the same physical quantities (box, header counts, mass table, units, scale-factor exponents and CGS conversion factors included), and loading it returns them in comoving and physical form. User-given particle IDs are kept when all types have them; otherwise unique positive IDs are generated.",
  "inputs configurations", "all unit systems, units, frames, exponents, scale factors, dimensions and combinations of particle types",
  "tests write one or two sets of arrays in one unit system",
  [S + "snapshot_writer.py", S + "metadata/writer/required_fields.py", S + "metadata/writer/unit_systems.py"],
  [("writing fields, header and units", S + "snapshot_writer.py")],
  "property-based testing (Hypothesis): generated writer contents, round trip through h5py and through the reader", "unit names are rounded by design when read, so values read back are compared to 1e-3")
P("P11", "The writer refuses inconsistent input and a refused write damages nothing",
  "Missing required fields, fields of different lengths or wrong shape, wrong dimensions, plain arrays, another scale factor, and non-positive or repeated IDs are refused, either on assignment (leaving the stored field as it was) or on writing, and a refused write neither creates a file nor damages an existing one. After the defect is corrected the same writer succeeds; generated smoothing lengths are twice the mean particle separation of a cubic box and are refused for others.",
  "inputs faults", "all single defects injected into generated writer contents", "tests inject a few defects into one fixed writer",
  [S + "snapshot_writer.py"], [("assignment checks, consistency checks, writing", S + "snapshot_writer.py")],
  "property-based testing (Hypothesis): defect injection into generated valid inputs", "one defect per case")
P("P13", "Converting frames and units never changes the physical quantity",
  "Any sequence of conversions of a cosmology array or scalar (to_comoving, to_physical, to, in_units, in_base, the convert_ and _value variants, with or without units or an equivalence) keeps its physical meaning: value times unit times a**exponent when comoving. Each conversion yields the requested frame and units, keeps cosmo_factor, valid_transform and compression, and leaves the source untouched unless it is an in-place one. Making data comoving that cannot be is refused and damages nothing.",
  "inputs histories", "all conversion sequences over units, frames, exponents, scale factors, shapes and integer or float data", "tests convert a few arrays once; a wrong factor only shows for particular frame, unit and exponent combinations",
  [S + "objects.py"], [("conversion methods of cosmo_array", S + "objects.py")],
  "property-based testing (Hypothesis): generated conversion histories against an invariant physical value", "float rounding tolerated at 1e-7")
P("P14", "The algebra of cosmo_factor follows the powers of the scale factor",
  "Products, quotients and powers of cosmo_factors add, subtract and multiply exponents, sums require equal ones; a_factor is a**exponent and redshift 1/a-1. Two factors are equal exactly if scale factor and expression are, also where their values coincide (a=1); ordering compares the values. Combining different scale factors, an undefined factor with a defined one, or anything that is not a cosmo_factor is refused, and no operand changes.",
  "inputs histories", "all operation sequences on powers of the scale factor", "tests compare a few factors",
  [S + "objects.py"], [("cosmo_factor", S + "objects.py")],
  "property-based testing (Hypothesis): generated operation sequences against exponent arithmetic", "powers of a only")
P("P15", "Arithmetic on cosmology arrays respects their physical meaning",
  "For every supported ufunc, operator, reduction and array method, also in place or with out=, the result of operands in any mixture of frames and units has the physical value of the same operation on the physical values, with the right units and power of the scale factor. It is comoving only if that is valid, and convertible only if all operands are. Operands with different scale factors, or additive ones with different powers of it, are refused; data without cosmology is taken in the frame of the other operand, with a warning.",
  "inputs histories", "all supported ufuncs over operand frames, units, exponents, scale factors and shapes", "tests check attributes for samples in one frame; errors appear for particular mixtures of frames",
  [S + "objects.py", S + "_array_functions.py"], [("ufunc dispatch and cosmo_factor rules", S + "objects.py"), ("argument preparation", S + "_array_functions.py")],
  "property-based testing (Hypothesis): differential against numpy on physical SI values", "table of about 120 operations")
P("P16", "NumPy functions on cosmology arrays respect their physical meaning",
  "NumPy functions (joining, selecting, statistics, histograms, linear algebra, interpolation, FFT, assignment into arrays and so on) applied to cosmology arrays in any mixture of frames give the physical values that the same function gives for the physical values, with a cosmo_factor, frame and valid_transform that fit; results without units carry no cosmology. Values assigned into an array are converted to its frame, and refused if they cannot be.",
  "inputs", "the table of NumPy functions over frames, units, exponents, scale factors and shapes", "tests call each function with samples of one frame at a=0.5 or 1",
  [S + "_array_functions.py", S + "objects.py"], [("wrapped NumPy functions", S + "_array_functions.py")],
  "property-based testing (Hypothesis): differential against numpy on physical SI values", "table of about 150 functions; units that unyt itself gets wrong are excluded")
P("P17", "Rearranging, selecting or copying data keeps its units and cosmology",
  "Indexing, iterating, reshaping, transposing, joining the pieces again, copying, pickling, type casting and the like, in any sequence, give exactly the numbers that plain NumPy gives, with the same units, frame, cosmo_factor, valid_transform and compression; scalars come out as cosmo_quantity and everything else as cosmo_array, copies do not share memory, and printing shows units and frame.",
  "inputs histories", "all sequences of structural operations over shapes, dtypes and attributes", "tests apply single operations to one array",
  [S + "objects.py", S + "_array_functions.py"], [("attribute propagation", S + "objects.py")],
  "property-based testing (Hypothesis): generated operation sequences in lockstep with a plain NumPy model", "functions that do not dispatch on subclasses are excluded")
P("P18", "Creating cosmology arrays keeps the data and refuses contradictions",
  "A cosmo_array or cosmo_quantity made from numbers, lists, arrays, unyt, astropy or cosmology objects (also of mixed frames and units) has the physical values, units and attributes of its inputs and arguments; asking for another frame converts, and the inputs stay as they were. Contradictory or incomplete information (comoving but not convertible, half a scale factor, a cosmo_factor differing from the given or attached one, elements of different dependence, array as scalar) is refused.",
  "inputs", "all kinds of inputs and ways to give the cosmology", "tests build a few arrays at scale factor one",
  [S + "objects.py"], [("cosmo_array and cosmo_quantity constructors", S + "objects.py")],
  "property-based testing (Hypothesis): generated inputs and injected contradictions", "units given for inputs with other units are excluded")
P("P19", "Calculations and selections never modify their inputs",
  "No ufunc, NumPy function, method, comparison, spatial or value constraint, load or refused operation changes the values, dtype, units or attributes of an operand, of an array it views, of a region or limit handed to a mask, or of data already loaded; functions that write into their first argument leave the others alone; the file on disk keeps its bytes.",
  "inputs histories", "all supported functions and selections over frames and views", "tests look at results, not at operands",
  [S + "objects.py", S + "_array_functions.py", S + "masks.py", S + "reader.py"], [("argument preparation and conversion", S + "_array_functions.py"), ("constrain_spatial", S + "masks.py")],
  "property-based testing (Hypothesis): snapshots of all operands before and after", "")

P("P12", "Units, header, cosmology and column names read are those in the file",
  "Opening a file exposes exactly what the file records: each unit of the file's unit system (value and dimension), box size, scale factor, redshift, time and dimension, particle counts per type, mass tables, run name and output strings, creation date, the cosmological parameters (as an equivalent astropy cosmology), the hydro parameters, code and parameter groups, and the names of named columns in order; optional entries that are missing give the documented default.",
  "inputs", "unit systems, header entries present or absent, cosmologies, column name tables", "tests open a few files that share one unit system",
  [S + "metadata/objects.py", S + "conversions.py", S + "metadata/unit/unit_types.py", S + "metadata/metadata/metadata_fields.py"], [("SWIFTMetadata.get_metadata / postprocess_header", S + "metadata/objects.py"), ("swift_cosmology_to_astropy", S + "conversions.py")],
  "property-based testing (Hypothesis): round trip of generated headers", "")

P("P21", "A projected image is the sum of its particles' kernels, in every backend",
  "Each CPU projection backend, serial or parallel, gives for any particles (inside, across or outside the image edges), smoothing lengths, resolution and periodic box the sum of the particles' two-dimensional kernels: histogram deposits each particle in its pixel, fast and reference evaluate the kernel at pixel centres, renormalised conserves the weight of every particle, subsampled variants integrate the kernel over each pixel; periodic copies are included; the inputs are left alone.",
  "inputs", "particle sets, boxes, resolutions, backends, thread splits", "tests compare images with each other or with one saved image",
  [S + "visualisation/projection_backends/*.py"], [("scatter, scatter_parallel", S + "visualisation/projection_backends/fast.py"), ("kernel", S + "visualisation/projection_backends/kernels.py")],
  "property-based testing (Hypothesis): differential against a double-precision direct sum", "")

P("P22", "Projections of datasets have the right geometry, norm, units and frame",
  "project_pixel_grid and project_gas, for any dataset, field, region (inside, across or beyond the box, square or not, with or without a depth), mask, rotation about any centre, frame and units of the arguments, resolution and CPU backend, give the column density of the chosen particles: pixel values times the pixel area add up particle by particle, in the frame and the units of the field per area, with periodic copies when wrapping is on, nothing outside the depth, and the dataset and the arguments unchanged.",
  "inputs", "datasets, regions, masks, rotations, frames, units, backends", "tests use one cosmological volume that is not available offline, square regions and comoving fields",
  [S + "visualisation/projection.py", S + "visualisation/_vistools.py"], [("project_pixel_grid", S + "visualisation/projection.py"), ("_get_region_info, _get_rotated_and_wrapped_coordinates, backend_strip_and_restore_cosmo_and_units", S + "visualisation/_vistools.py")],
  "property-based testing (Hypothesis): generated snapshots, differential against a double-precision direct sum", "")

P("P23", "A slice is the sum of its particles' kernels (or nearest particle) on a plane",
  "For any particles, boxes, resolutions, plane positions and both slice backends, serial or parallel, a pixel of a slice holds the sum of the three-dimensional kernels at its centre on the plane (sph), or the value over volume of the nearest particle, periodic images included (nearest_neighbours). slice_pixel_grid and slice_gas do this for datasets in any region, mask, rotation (the plane counted from its centre), frame and units, giving the field per volume in the frame of the field, and leave dataset and arguments unchanged.",
  "inputs", "particle sets, planes, regions, masks, rotations, frames, units, backends", "tests compare backends with each other or check that an image appears",
  [S + "visualisation/slice.py", S + "visualisation/slice_backends/*.py", S + "visualisation/smoothing_length/*.py"], [("slice_pixel_grid", S + "visualisation/slice.py"), ("slice_scatter", S + "visualisation/slice_backends/sph.py"), ("build_tree, slice_scatter", S + "visualisation/slice_backends/nearest_neighbours.py")],
  "property-based testing (Hypothesis): differential against double-precision direct sums and distances", "")

P("P24", "A volume render is the sum of its particles' kernels on a voxel grid",
  "For any particles, boxes and resolutions the scatter backends, serial or parallel, cubic or flattened voxels, give each voxel the sum of the kernels at its centre (or the whole particle where its kernel is smaller than half a voxel), periodic copies included. render_voxel_grid and render_gas do this for datasets in any cubic region, mask, rotation, frame and units, giving the field per volume in the frame of the field, refuse regions that are not cubes, and leave dataset and arguments unchanged.",
  "inputs", "particle sets, regions, masks, rotations, frames, units", "tests compare with projections of one volume that is not available offline",
  [S + "visualisation/volume_render.py", S + "visualisation/volume_render_backends/scatter.py"], [("render_voxel_grid", S + "visualisation/volume_render.py"), ("scatter, scatter_limited_z, scatter_parallel", S + "visualisation/volume_render_backends/scatter.py")],
  "property-based testing (Hypothesis): differential against a double-precision direct sum", "")

P("P25", "Depositions conserve the particles; power spectra bin the power of their modes",
  "deposit and render_to_deposit put each particle, after any folding, into the cell that contains it, with the density of the field in the frame of the positions (refusing fields of the other frame). deposition_to_power_spectrum returns for every bin the number of modes, their mean wavenumber and mean power of the (cross) overdensity times the volume, minus shot noise, for any box, folding, frame, unit and bins; folded spectra are stitched bin by bin from the folding with most modes below its cutoff. Units and scale-factor exponents are those of wavenumbers and volumes.",
  "inputs", "particles, grids, folds, boxes, frames, units, bins", "the only test of values needs a volume that is not available offline and compares nothing",
  [S + "visualisation/power_spectrum.py"], [("deposit, render_to_deposit, deposition_to_power_spectrum, folded_depositions_to_power_spectrum", S + "visualisation/power_spectrum.py")],
  "property-based testing (Hypothesis): differential against direct deposition and a matrix Fourier transform", "")

P("P26", "Generated smoothing lengths enclose the asked number of neighbours",
  "For any particles in a (not necessarily cubic) periodic box, frames and units of coordinates and box, neighbour number, speed-up and dimension, generate_smoothing_lengths returns for every particle the periodic distance to the asked neighbour, extended for the speed-up and divided by kernel_gamma, in the units and the frame of the coordinates, also for particle numbers around and beyond the block size; the inputs are unchanged. The writer's generate_smoothing_lengths gives two mean interparticle spacings and refuses unequal sides and types without smoothing lengths.",
  "inputs", "particles, boxes, frames, units, neighbour numbers, block boundaries", "tests use one particle set each in one frame",
  [S + "visualisation/smoothing_length/generate.py", S + "snapshot_writer.py"], [("generate_smoothing_lengths", S + "visualisation/smoothing_length/generate.py"), ("generate_smoothing_lengths", S + "snapshot_writer.py")],
  "property-based testing (Hypothesis): differential against brute-force periodic distances", "")

P("P27", "Rotation matrices turn the chosen direction onto the axis",
  "For any vector that is not zero, of any magnitude, type, precision or unit, and any axis, rotation_matrix_from_vector returns a plain 3x3 rotation (orthonormal, determinant +1) that turns the vector onto the positive axis about the line at right angles to both; this includes vectors along, against and very close to the axis. Other axis names are refused.",
  "inputs", "vectors, axes", "tests try a few vectors",
  [S + "visualisation/rotation.py"], [("rotation_matrix_from_vector", S + "visualisation/rotation.py")],
  "property-based testing (Hypothesis): algebraic invariants", "")

P("P30", "Colour maps and rendering functions give the colours they define",
  "Calling a two-dimensional colour map with arrays or lists of any values gives, in their shape, the RGBA colour of the map's grid cell (values outside 0 to 1 clipped): the distance-weighted mean of the map's colours in RGBA or HSV, or the pixel of its image. render_voxels_to_array and visualise_render integrate each Gaussian rendering function along the line of sight, normalise it, colour it and combine the images as asked, for renders of any shape.",
  "inputs", "maps, images, values, renders, centres, widths, norms", "colour maps are not tested; renders are only checked to run",
  [S + "visualisation/tools/cmaps.py", S + "visualisation/volume_render.py"], [("apply_color_map, Cmap2D.__call__, generate_color_map_grid", S + "visualisation/tools/cmaps.py"), ("render_voxels_to_array, visualise_render", S + "visualisation/volume_render.py")],
  "property-based testing (Hypothesis): differential against direct formulas", "")

P("P20", "Statistics files are read column by column with their names and units",
  "For any statistics file, whatever its number of columns and lines, number formats (integers, decimals, exponents, nan and inf, mixed within a column), descriptions and units, load_statistics gives every column under its snake-case name with exactly the written values, the description as its name and the unit of the header including its factor; integers stay integers, and the file is not changed.",
  "inputs", "headers, units, number formats", "no test reads a statistics file; one line parser is tested with a single example",
  [S + "statistics.py", S + "accelerated.py"], [("SWIFTStatisticsFile", S + "statistics.py"), ("list_of_strings_to_arrays", S + "accelerated.py")],
  "property-based testing (Hypothesis): round trip through generated files", "")


P("P28", "Paths and open handles are interchangeable and handles are left as given",
  "load, mask, write_subset, validate_file, units and metadata give the same data whether the file is named by str, Path, relative path, an open h5py file (also one that exists only in memory) or a remote-file object, in any combination. A handle given by the user stays open, files opened by the library are closed again, and fields not yet read are still readable after the user's handle to a file on disk is closed. A mask of another file is refused; validate_file accepts exactly SWIFT files; swiftsnap prints what the snapshots record.",
  "histories", "files, ways of naming them, operations, moments of closing", "tests mostly use one path and one open handle",
  [S + "_handle_provider.py", S + "_file_utils.py", S + "__init__.py", S + "reader.py", S + "swiftsnap.py"],
  [("HandleProvider", S + "_handle_provider.py"), ("load, mask, validate_file", S + "__init__.py"), ("swiftsnap", S + "swiftsnap.py")],
  "property-based testing (Hypothesis): differential over ways of access, histories of handles", "")

P("P29", "Every kind of output is recognised and offers exactly what it holds",
  "A file is read as snapshot, line-of-sight file, halo-finder catalogue (SOAP) or friends-of-friends catalogue according to its OutputType (a snapshot when it has none; other kinds are refused with ValueError). Its dataset offers exactly the groups of the file, also user-defined particle types, each with exactly its fields; line-of-sight groups also offer their attributes with value, units and frame, named columns their mapping tables. Masks are refused for files without cells and for single parts of a snapshot in several files.",
  "inputs", "kinds of file, groups, fields, attributes, mapping tables, type names", "tests hold one file of each kind",
  [S + "metadata/objects.py", S + "reader.py", S + "metadata/particle/particle_types.py", S + "metadata/soap/soap_types.py"],
  [("_metadata_discriminator, SWIFTMetadata and its subclasses, MappingTable", S + "metadata/objects.py"), ("_generate_datasets, _generate_group_attr_getter", S + "reader.py")],
  "property-based testing (Hypothesis): differential against the generated file's model", "")

P("P31", "Nothing is read from a file before it is needed, or twice",
  "Opening a file, making a mask, selecting a region or rows, printing and listing read no particle (or halo) data. A property constraint reads no other dataset than the one it constrains. Using a field reads only the dataset of that field, and through a mask only the rows selected (whole chunks of a chunked dataset on disk; the rows themselves from a remote server); using it again gives the same object without reading, until it is deleted, and a field that the user has set is never read. This holds for files given by path, by handle and for remote files.",
  "inputs histories configurations", "files, chunk layouts, masks of every kind and history, sequences of reading, setting and deleting fields and columns",
  "tests check that fields are absent until used in one file; which bytes are transferred depends on masks, chunks and the history of use and no test measures it",
  [S + "reader.py", S + "accelerated.py", S + "masks.py", S + "metadata/objects.py"],
  [("_generate_getter: lazy loading and caching", S + "reader.py"), ("ranged readers", S + "accelerated.py"), ("cell masks and property constraints", S + "masks.py")],
  "property-based testing (Hypothesis): histories over files whose every byte read is recorded and attributed to datasets and rows",
  "random search; the recording works below h5py (a file object as HDF5 driver), so it does not depend on how the code reads")
P("P32", "Datasets open together, and files replaced between loads, do not mix",
  "Every opened dataset shows the data, units, cosmology, columns, flags and metadata of its own file, as that file was when it was opened, whatever other files (with other units, scale factors, named columns, fields, kinds) are opened, masked, read, edited, converted or deleted from in between, in any order, and also when a file of the same name with other contents has been opened before. What the user does to the fields of one dataset or mask shows in no other dataset or mask, and no setting of the process changes.",
  "histories configurations", "interleaved histories over several datasets of two paths whose contents change",
  "tests open one file at a time; state shared between datasets (class attributes, caches, defaults, registries) only shows in particular interleavings",
  [S + "reader.py", S + "metadata/objects.py", S + "masks.py", S + "objects.py"],
  [("dataset classes made per load, field caches", S + "reader.py"), ("metadata objects", S + "metadata/objects.py")],
  "property-based testing (Hypothesis): interleaved histories against a model of each file", "")

def main():
    done = [p for p in PROPS if os.path.exists(os.path.join(V, "harness", "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in done:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [
            {"property": p["id"], "quick_cmd": f"./check {p['id']} --tier quick", "thorough_cmd": f"./check {p['id']} --tier thorough",
             "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
            for p in done
        ],
        "not_applicable": [],
        "notes": "All checks are property-based tests driven by one harness (harness/core.py, harness/run_check.py); see DESIGN.md.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(done), "properties")


if __name__ == "__main__":
    main()
