"""Writes /verif/properties.jsonl (the property texts live here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(obs), hook_needed=None)))
A = "hftools/dataset/arrayobj.py"; D = "hftools/dataset/dim.py"; S = "hftools/dataset/dataset.py"

p("C01", "Array operators line operands up by dimension, never by position",
  "For +, -, *, /, **, &, |, ^ and the comparisons ==, !=, <, <=, >, >= between labelled arrays (or an array and a scalar, on either side), the element of the result at any coordinate is the scalar operation applied to each operand's element at that coordinate, a dimension being the same when name and kind agree and an operand lacking a dimension being repeated along it. "
  "The result has exactly the union of the operands' dimensions, first operand's first, ordered sweep/repetition/matrix/complex by kind. "
  "Arithmetic and ordering of operands whose common dimension has different (non-unit) lengths are refused with an error instead of combined.",
  ["inputs", "histories"], "all operand pairs with any subset/order/kind/length of dimensions (incl. zero-dimensional and length-one axes), scalars on either side, real, complex and boolean data, and operands that are results of earlier operations",
  "tests add and multiply a few fixed 2-d arrays, most of them compare with a helper that fails on this numpy; the dimension subsets, orders and kinds are not enumerated",
  [A, D], [("dims_union / change_shape / make_same_dims", A), ("check_instance operator wrapper", A), ("sortprio of dimension kinds", D)],
  [("dims", "ordered dimension labels of an array", A)])
p("C02", "Indexing keeps every value with its own coordinates",
  "Selecting from a labelled array with integers, slices (any start/stop/step), an ellipsis, a one-dimensional or multi-dimensional boolean labelled mask, or an explicit list of positions returns exactly the selected values, each still labelled with the coordinates it had before. "
  "Dimensions fixed by an integer disappear, all others keep their name, kind and order, with labels restricted to the selected positions; unit and output format stay.",
  ["inputs", "histories"], "all index expressions over arrays with up to four dimensions, including chains of selections",
  "tests index a handful of fixed arrays and mostly check values, not the labels that go with them",
  [A, D], [("__getitem__", A), ("take", A), ("DimBase.__getitem__", D)], [("dims", "labels per axis", A)])
p("C03", "Rearranging an array never moves a value to other coordinates",
  "Transposing, reordering by dimension, swapping the matrix rows and columns, squeezing, adding a dimension, replacing a dimension, aligning several arrays, expanding diagonal dimensions, building the full-complex form, collapsing the tail or all repetition dimensions and building matrices each produce an array where the value found at any coordinate is the value the original had at the corresponding coordinate (zero off an expanded diagonal). "
  "No value is lost, duplicated or invented beyond what the operation's definition states, and dimension labels always describe the axis they sit on.",
  ["inputs", "histories"], "all arrays up to four dimensions of any kind order and every argument the operations accept, chained in any order",
  "tests sample single calls on arrays whose axis lengths are often equal, so a swapped axis goes unnoticed",
  [A], [("transpose/reorder_dimensions/t/squeeze/add_dim/replace_dim", A), ("expand_diagonals/diagonal_view", A), ("make_fullcomplex_array", A), ("remove_tail/remove_rep", A), ("make_matrix/make_vector", A)])
p("C04", "Reductions combine exactly the dimensions they are asked to combine",
  "sum, mean, std, var, min, max and rss over a dimension given by position, name, kind, dimension object or a list of these equal the mathematical reduction over all coordinates of those dimensions and leave every other dimension with its labels untouched, no dimension argument meaning all dimensions. "
  "Kept dimensions stay in place with length one; a dimension that is not there raises an error or, when the caller asked for leniency, returns the array unchanged. "
  "cumsum and cumprod are running totals along exactly the named dimension, with shape and labels unchanged.",
  ["inputs", "histories"], "all arrays up to four dimensions and all axis specifications, keepdims/dimerror/ddof options",
  "tests reduce fixed arrays over a few axis spellings; std/var options and the interplay of several dimensions of one kind are unsampled",
  [A], [("multiple_axis_handler / axis_handler", A), ("sum/mean/std/var/min/max/rss/cumsum/cumprod", A)])
p("C05", "Operations leave operands alone; copies are independent, views share",
  "No arithmetic, selection, rearrangement or reduction changes the values, labels, unit or output format of any array passed to it. "
  "A copy never sees later writes to its source (nor the reverse) while a view, a slice or a transposed array sees all of them, and unit and output format survive copying, viewing, selecting, transposing, reordering and squeezing.",
  ["histories"], "all interleavings of creating, copying, viewing, slicing, rearranging, combining and element assignment over several arrays",
  "tests check one operation at a time and do not look at the other live arrays afterwards",
  [A], [("copy/view/__array_finalize__/__getitem__", A), ("apply_outputformat", A)], [("buffer sharing", "which arrays see one another's writes", A)])
p("C06", "Dimensions are immutable values with lawful equality, hash and order",
  "Two dimensions are equal exactly when name, kind, data and unit agree, equal dimensions hash alike, and < orders dimensions first by the priority of their kind (sweeps, repetitions, matrix rows, matrix columns, complex) and then by name and is a strict total order on unequal dimensions, so that sorting is deterministic. "
  "A dimension never changes after construction: deriving from it (other name, unit, data, format, kind, slice or mask) gives a new one that keeps every attribute not overridden, and looking a dimension up in an array finds the one with the same name whose kind is the requested kind or a specialisation of it.",
  ["inputs", "histories"], "all pairs/triples of dimensions over names, kinds, data, units, formats, and all derivation chains",
  "laws quantify over pairs and triples; tests compare a few hand-made dimensions",
  [D, A], [("DimBase.__eq__/__lt__/__hash__/__init__/__getitem__", D), ("Dims/DimsList matching", A)])
p("C07", "A data block stays coherent through any editing history",
  "After any sequence of setting, deleting and renaming variables and dimensions, replacing dimensions, writing matrix elements by name, changing output formats and units, copying and viewing, the block's variables are exactly those the history implies, in insertion order with a renamed one keeping its place, and every dimension name used by a variable is registered with the block. "
  "Renaming or replacing a dimension changes it consistently in the block and in every variable using it and nowhere else, reading a name or a matrix element name returns that data, and an unknown name is an error. "
  "Edits to a copied block never show in the original.",
  ["histories"], "all edit histories over a few variables, dimensions and matrix variables",
  "the state space of edit sequences is far beyond the single-edit tests",
  [S], [("DataDict order", S), ("DataBlock.__setitem__/__getitem__/__delitem__/replace_dim/rename/copy/view", S)],
  [("vardata", "dependent variables in order", S), ("ivardata", "registered dimensions in order", S)])
p("C08", "Whole-block transformations keep every value at its coordinates",
  "Filtering by a condition on a dimension or by a set of wanted coordinate values, sorting along a dimension, squeezing, collapsing repetitions, keeping chosen variables, splitting matrices into elements, interpolating or re-gridding a flat index into a grid of its index variables apply to every variable of the block that has the dimension and leave all others as they were. "
  "In the result every value stands at the coordinates it had (re-gridding: at the grid point given by its index variables), no selected point is dropped and no unselected one kept, and the source block is unchanged.",
  ["inputs", "histories"], "all blocks of variables over different dimension subsets and orders, all condition/sort/selection arguments, chains of transformations",
  "tests transform one or two fixed blocks with sorted, equal-length dimensions",
  [S], [("DataBlock.filter/sort/hyper/squeeze/remove_rep/keep_variables/interpolate", S), ("convert_matrices_to_elements", S)])
p("C09", "Merging blocks loses, duplicates and mislabels nothing",
  "Merging measurement blocks that share their sweeps and differ in per-block parameters (all of them zero-dimensional, or sweeping the same range) yields one block where each variable at position k along the new index dimension is exactly what the k-th input block held, whatever order its dimensions come in, and each parameter variable at k is that block's parameter value; units, comments (in block order), block name and remaining dimensions carry over, a single value only one block has is kept, and any other variable that some block of the group lacks is refused. "
  "Asking for the gridded form re-labels the index by the parameter values without moving any value to a different parameter combination.",
  ["inputs"], "any number of blocks, any number/order/values of parameters, any variable dimensionality, plain or gridded",
  "tests merge a few regular grids given in sorted order",
  ["hftools/file_formats/merge.py", S], [("merge_blocks", "hftools/file_formats/merge.py"), ("DataBlock.hyper", S)])
p("C10", "Converting network parameters never changes the network they describe",
  "Converting between Z, Y, S, G, H, ABCD, T and T' yields parameters that satisfy the same terminal relations between port voltages and currents as the original for every excitation, for real, complex and integer-valued input, elementwise over all other dimensions, with S, T and T' referred to the reference impedance in use (50 ohm by default). "
  "Hence every conversion chain that exists gives the result of the direct conversion and going back restores the original; Z, Y and S work for any number of ports and the two-port-only forms reject other sizes. "
  "Element access by name (s21, Z12, ...) reads and writes exactly that matrix element.",
  ["inputs", "histories"], "all non-degenerate networks (1-4 ports for Z/Y/S, two-ports for the rest), all source/target kinds, all conversion chains",
  "the tests that compare conversions mostly fail or sample one fixed two-port; the relations must hold for every network",
  ["hftools/networks/multiports.py"], [("convert and the P matrices", "hftools/networks/multiports.py"), ("element accessors", "hftools/networks/multiports.py")])
p("C11", "Cascading and de-embedding obey the algebra of two-port chains",
  "Cascading two two-ports, in whatever parameter kind they are given, gives the two-port obtained by joining the first's second port to the second's first port; it is associative and the ideal through is its identity. "
  "De-embedding a two-port from the left, from the right or from both sides exactly undoes the corresponding cascade. Sweeps present in only one operand are applied to all points of the other.",
  ["inputs", "histories"], "all chains of non-degenerate two-ports of mixed kinds with different sweep dimensions",
  "tests cascade a couple of fixed S matrices",
  ["hftools/networks/spar_functions.py", "hftools/networks/multiports.py"], [("cascadeS/deembedleft/deembedright/deembed", "hftools/networks/spar_functions.py"), ("cascade/deembed methods", "hftools/networks/multiports.py")])
p("C12", "Matrix algebra and noise correlation follow their definitions pointwise",
  "Matrix product, inverse, determinant, solution of linear systems, least squares and 2x2 assembly act as the textbook operation on the matrix at every point of the other dimensions, lining those dimensions up by name. "
  "Converting a noisy two-port to another representation transforms its noise correlation matrix consistently with the network (so conversion chains agree and passive networks give the same correlation from every representation), and its noise parameters reproduce the correlation matrix.",
  ["inputs", "histories"], "all matrix sizes 1-4, all sweep-dimension subsets for each operand, all conversion chains of noisy two-ports",
  "tests use fixed matrices and one amplifier example",
  ["hftools/math.py", "hftools/networks/noise.py"], [("matrix_multiply/inv/det/solve_Ab/lstsq/make_matrix", "hftools/math.py"), ("NoisyTwoport.convert/noise_parameters/passive_noise/from_noisepar", "hftools/networks/noise.py")])
p("C13", "Touchstone files are read and written exactly as the format defines",
  "For every valid file - any port count, frequency unit, RI/MA/DB format, reference impedance, line wrapping, comments, blank lines and optional noise section - the block read has each frequency in Hz, each S/Z/Y/G/H element at its row and column (two-ports in 11,21,12,22 order, others row by row), the noise parameters at their own frequencies and the reference impedance (50 ohm unless stated). "
  "Saving the scattering parameters of a network with any number of ports and reading them back gives the same matrix, frequencies and comments; files whose option line or data records are malformed are rejected, not misread.",
  ["inputs"], "all option lines, port counts 1-6, record wrappings, noise sections and malformed variants",
  "tests read a few sample files and the read tests mostly fail on this numpy",
  ["hftools/file_formats/touchstone.py", "hftools/file_formats/readbase.py"], [("ReadTouchstoneFileFormat/proc_data/proc_info/save_touchstone", "hftools/file_formats/touchstone.py")])
p("C14", "CITI files are read and written exactly as the format defines",
  "Reading a CITI file assigns each data list, in order, to its declared name with the declared dimensions in order (last varying fastest), expands frequency segments to the stated evenly spaced points, decodes RI, MAG and MAGANGLE representations and gathers S[i,j] style names into one matrix; a file without its name, with a list missing or of the wrong length, or with an unknown kind of line is refused. "
  "Saving a block and reading it back returns the same variables (a variable lacking one of the sweeps repeated along it), dimension values, complex values, matrices, name and comments.",
  ["inputs"], "all numbers of variables/data sets, all representations, list and segment forms, comment placements",
  "tests read three sample files",
  ["hftools/file_formats/citi.py"], [("ReadCITIFileFormat/handle_data/format_citi_block", "hftools/file_formats/citi.py")])
p("C15", "SP and MDIF tables are read and written exactly as the formats define",
  "Reading a tab-separated SP file gives every column of every block as a variable over the first column, parameters given as '@name' comments as that block's parameter values and repeated column names as repetitions; reading an MDIF file gives for every block name its variables, matrices, vectors, attributes and sweep parameters with block k's values at index k. "
  "Saving a block as SP text and reading it back restores all values, complex variables, matrices, units and sweep parameters, and structurally broken files raise an error.",
  ["inputs"], "all block counts, column sets, complex/matrix/vector columns, parameters, comments and malformed variants",
  "tests read some sample files; MDIF reading has no passing test",
  ["hftools/file_formats/spdata.py", "hftools/file_formats/mdif.py", "hftools/file_formats/common.py"], [("ReadSPFileFormat/save_spdata", "hftools/file_formats/spdata.py"), ("ReadMDIFFileFormat/save_mdif", "hftools/file_formats/mdif.py"), ("db_iterator/make_block_iterator", "hftools/file_formats/common.py")])
p("C16", "HDF5 storage returns what was stored, through any append history",
  "A block saved to HDF5 (either file version) and read back has the same variables, values, data types (numbers, complex, text, dates), dimensions with name, kind, labels and unit, and the same variable units; the current version 0.2 also keeps the output formats of variables, version 0.1 the comments and the block name. "
  "A file opened as expandable and appended to any number of times reads back as the stack of all appended blocks in order along the expansion dimension, whose labels count the appended blocks, dimensions being lined up by name; appending a block that lacks a stored variable, has other dimensions or a type the stored one cannot hold is refused and leaves the file as it was.",
  ["histories", "inputs"], "all save/append/read histories over blocks with scalars, sweeps, matrices, strings and dates",
  "tests append once or twice with one block layout",
  ["hftools/file_formats/hdf5/v_02.py", "hftools/file_formats/hdf5/v_01.py", "hftools/file_formats/hdf5/hdf5.py"], [("save_hdf5/append_hdf5/read_hdf5", "hftools/file_formats/hdf5/v_02.py")])
p("C17", "Imported columns are interpreted without changing or losing data",
  "After import, paired columns become complex values according to their notation (real/imaginary with equal units, magnitude/angle in degrees), unpaired ones are kept as they are, recognised names are normalised only when that does not overwrite other data (an averaged column whose name is taken is refused), element columns become a matrix only when the full set is present and then each in its row and column, and units written in names scale to the base unit with the unit recorded. "
  "Text comments of the form name, optional [unit], : or = and value yield exactly that named property, scaled to its base unit, numbers and dates converted and other text kept.",
  ["inputs"], "all column-name sets, notations, orders, units and comment lines",
  "tests cover a few literal names",
  ["hftools/file_formats/readbase.py", "hftools/file_formats/common.py"], [("make_cplx/match_matrix_elements/fix_unit", "hftools/file_formats/readbase.py"), ("normalize_names/Comments/process_comment", "hftools/file_formats/common.py")])
p("C18", "Reading files: right format, all files in order, and a sound cache",
  "Reading a file without naming its format uses the format its content has; reading several text files (a pattern or a list of names and patterns) gives all of them, none twice, pattern by pattern and for each pattern in natural numeric order of the names, each value attributed to its file; no matching file is an IOError. "
  "The cache returns freshly read data exactly when there is no cached copy or a reread is requested, stores what the user's processing of fresh data left in the block only if that processing and the storing finished without error, and otherwise keeps and returns what was last stored.",
  ["histories", "crash_points", "inputs"], "all sequences of cache use (miss, hit, reread, failing body), all file name sets and formats",
  "tests read once through the cache",
  ["hftools/file_formats/__init__.py", "hftools/file_formats/readbase.py", "hftools/utils.py"], [("read_data/read_to_cache/read_from_cache", "hftools/file_formats/__init__.py"), ("glob/lex_order", "hftools/utils.py")])
p("C19", "Configuration lookup is lexically scoped and survives being written",
  "Looking up a key in a nested configuration section returns the value of the innermost enclosing section that defines it, through any nesting of lists and dictionaries, membership and default lookup agree with that, and a key nobody defines is an error. "
  "Values written with SI prefixes and units, percentages/ppm/ppb, time intervals and dates denote their numeric value, and writing the configuration and loading it again gives the same values.",
  ["inputs", "histories"], "all nestings, shadowings and mutation histories; all prefix/unit/number spellings",
  "tests use one small YAML text",
  ["hftools/file_formats/config.py"], [("LexicalScopeDict/MergedDicts/LexicalLoader", "hftools/file_formats/config.py")])
p("C20", "Quantities written with SI units denote their exact base-unit value",
  "A number followed by nothing or by a prefixed unit, with or without space, brackets, sign or exponent, converts to the number times the prefix with the base unit recorded; names that only look prefixed and unknown units are left alone with factor one, percent means 0.01 and text that is no number is an error. "
  "Formatting a value with SI prefixes gives mantissa and prefix that denote the same value rounded to the requested digits, the mantissa being at least 1 and (before rounding) below 1000.",
  ["inputs"], "all prefixes, units, number spellings and magnitudes from 1e-24 to 1e24",
  "tests sample some strings",
  ["hftools/constants/si_units.py"], [("unit_to_multiplier/string_number_with_unit_to_value/convert_with_unit/format_number", "hftools/constants/si_units.py")])
p("C21", "Phase, delay, smoothing and interpolation helpers keep their contracts",
  "Angles lie in the requested branch and denote the same direction; unwrapped phase differs from the wrapped phase by whole turns and never jumps by more than half a turn between neighbours along the first dimension, each sequence starting at its principal angle or, when that is within 2 rad across the cut, on the side of the first sequence; group delay is minus the phase slope; dB and its inverse, magnitude/angle and real/imaginary forms denote the same complex value. "
  "Smoothing averages only the samples inside its shrinking centred window, linear interpolation between the given points is exact, labelled with the wanted coordinates and refused outside the range, polynomial smoothing reproduces polynomials, and all keep the dimensions of their input.",
  ["inputs"], "all sequences of phases/values, branches, apertures and axes",
  "tests check a ramp or two",
  ["hftools/math.py", S], [("angle/unwrap_phase/delay/smooth/interpolate", "hftools/math.py")])
p("C22", "Plots show exactly the data they are given",
  "Plotting labelled arrays draws one line per combination of the non-swept coordinates, each through all its points in order, with the horizontal values of the sweep dimension and the vertical values transformed as the chosen axes kind states (dB, magnitude, degrees, real, imaginary, unwrapped phase, delay, Smith/polar). "
  "Axis labels and tick texts carry the unit and an SI prefix such that tick text times prefix equals the plotted value, after any sequence of plots, label changes, unit changes and tick changes. The curves of Smith charts (and the arcs they are made of) pass through exactly the impedances or admittances they stand for.",
  ["inputs", "histories"], "all axes kinds, array dimensionalities and value ranges",
  "tests check single lines on some projections",
  ["hftools/plotting/helper.py", "hftools/plotting/smith.py"], [("smith_grid, RCircle, XCircle, GCircle, BCircle", "hftools/plotting/smith.py"), ("HFToolsAxes.plot and projections", "hftools/plotting/helper.py"), ("UnitFormatter", "hftools/plotting/helper.py")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
