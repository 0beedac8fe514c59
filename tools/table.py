# ruff: noqa
prop("A01", "Numeric text is converted exactly and completely",
     "Converting text to a requested type gives exactly the value written, for every sign, digit count, decimal point, "
     "E-exponent or ratio CASTEP may print: integers stay integers, reals keep every digit and their exponent and sign, "
     "logicals are case-insensitive. Sequences and mappings are converted element by element in order, with nothing "
     "dropped or merged, and values that are not text are passed through unchanged.",
     "All numeric texts up to the stated widths, all types, all containers up to the stated sizes.",
     "Tests convert a few dozen literals; a defect tied to a particular sign, width, exponent or container shape is "
     "outside them.",
     ["utilities/type_conv.py"],
     [("text to type dispatch", "utilities/type_conv.py"), ("int-or-float choice", "utilities/type_conv.py")],
     observe=["to_type", "fix_data_types", "parse_int_or_float", "determine_type"])

prop("A02", "Number extraction finds every number in a line, whole and in order",
     "Extracting the numbers of a line returns, in order, every number present with its sign, decimals and exponent, "
     "none split, merged, truncated or invented. Text around the numbers has no influence as long as it is separated "
     "from them, and labelled extraction gives each labelled value the number at its position.",
     "All lines built from up to the stated count of numbers of every printed form, joined by arbitrary separators.",
     "Tests use a handful of lines; the interplay of adjacent signs, dots, exponents and separators has many more cases.",
     ["utilities/castep_res.py"],
     [("number regular expressions", "utilities/castep_res.py"), ("labelled float expressions", "utilities/castep_res.py")],
     observe=["get_numbers", "labelled_floats", "NUMBER_RE", "FLOAT_RAT_RE", "get_atom_parts"])

prop("A03", "Line cursors neither lose nor repeat lines, whatever the read/rewind history",
     "Reading lines through a wrapped file or a block yields the file's lines once each, in order; stepping back makes "
     "the next read return exactly the line just read, and a wrapped file's line number always equals the number of lines consumed. "
     "Blocks cut out of a file contain exactly the lines up to and including their end, and leave the source positioned "
     "on the line after it; removing bounds, indexing and conversion to list or text give the remaining lines unchanged.",
     "All interleavings of next/step-back/tell up to the stated length over files of arbitrary line lengths; all blocks.",
     "Tests read one fixed file forwards with single step-backs; histories mixing them are unbounded.",
     ["utilities/filewrapper.py"],
     [("FileWrapper", "utilities/filewrapper.py"), ("Block", "utilities/filewrapper.py")],
     over=("inputs", "histories"), observe=["FileWrapper", "Block"],
     state=[("position and line counter", "where the last line began, lines consumed", "utilities/filewrapper.py")])

prop("A04", "A section cut short by end of file is reported, never passed off as complete",
     "When a file ends inside a delimited block, before the requested number of lines, or inside a binary record, the "
     "reader raises an error (or, where running to the end of file is declared acceptable, as for the last trajectory "
     "frame, returns every line there was) instead of returning a shortened result as if it were whole.",
     "Every truncation point of every block layout within the bounds.",
     "Tests exercise one or two truncated inputs; the truncation point is a free variable.",
     ["utilities/filewrapper.py", "bin_parsers/fortran_bin_parser.py", "tools/md_geom_parser.py"],
     [("block readers", "utilities/filewrapper.py"), ("record reader", "bin_parsers/fortran_bin_parser.py")],
     over=("inputs", "crash_points"), observe=["Block.from_re", "Block.get_lines", "binary_file_reader"])

prop("A05", "Comment stripping removes comments and blank lines and nothing else",
     "Stripping comments keeps every non-comment line in order with its content and leading space intact (trailing "
     "space removed), drops lines that are blank or start with a comment marker, and cuts inline comments only when "
     "asked to. Any non-empty marker, of any characters and length, is treated literally.",
     "All texts of the stated number of lines and characters, all marker sets, both modes.",
     "Tests use one text and the default markers.",
     ["utilities/utility.py"],
     [("comment stripping", "utilities/utility.py")], observe=["strip_comments"])

prop("A06", "Restructuring helpers keep every value",
     "Normalising, flattening, making JSON-safe, stacking, aliasing and stripping missing values keep every leaf value "
     "and its type mapping: lists become tuples, mapped types are mapped at every depth, flattened keys join the path "
     "with the requested separator at every depth, JSON-safe keys join tuple members, and only the entries asked for "
     "are added, replaced or removed. Inputs that are not meant to be modified in place are left as they were.",
     "All nested shapes up to the stated depth and width with arbitrary leaf values.",
     "Tests use a few hand-written nestings; shapes are unbounded.",
     ["utilities/utility.py"],
     [("normalise/json_safe/flatten_dict", "utilities/utility.py"), ("stack_dict/add_aliases/strip_nones", "utilities/utility.py")],
     observe=["normalise", "json_safe", "flatten_dict", "stack_dict", "add_aliases", "strip_nones", "get_only"])

prop("A07", "Keys and atom labels are derived faithfully from their text",
     "Normalised keys contain only lower-case word characters with single underscores between words, equal for texts "
     "differing only in case, punctuation or spacing, and are stable under renormalisation. An atom reference keeps its "
     "species, tag, label and index exactly, so that two different atoms never share a key and underscore-prefixed "
     "entries are the only ones treated as private.",
     "All key texts and atom labels up to the stated lengths.",
     "Tests use a few labels; labels with tags, labels and wide indices are combinatorial.",
     ["utilities/utility.py", "utilities/castep_res.py"],
     [("normalise_key/normalise_string", "utilities/utility.py"), ("atreg_to_index/get_atom_parts", "utilities/utility.py")],
     observe=["normalise_key", "normalise_string", "atreg_to_index", "get_atom_parts", "filter_underscore"])

prop("A08", "A section that contradicts itself is rejected, never shortened to fit",
     "When the parts of a table disagree - real and imaginary parts of a dynamical matrix of different shape, an occupancy row "
     "without exactly three numbers, pair-potential values that do not match their labels in number, an atom printed for one spin of "
     "two, an internal constraint of an unknown kind, more or fewer phonon rows than the header promises, a grid row that does not fit "
     "the column names, a row of structure factors with values missing, symmetry operations without all their rows, counts that differ between the parts of a binary file - reading it raises an error instead of pairing up "
     "what fits and dropping the rest; the same table with consistent parts is read.",
     "All positions of the inconsistency and all printed values within the stated table sizes.",
     "Tests hold well-formed files; which row or value is missing or surplus is a free variable.",
     ["parsers/castep_file_parser.py", "parsers/phonon_file_parser.py", "parsers/parse_fmt_files.py", "parsers/xrd_sf_file_parser.py",
      "parsers/cell_param_file_parser.py",
      "bin_parsers/epme_bin_parser.py"],
     [("strict pairing and count checks", "parsers/castep_file_parser.py"), ("row counts", "parsers/phonon_file_parser.py"),
      ("column count", "parsers/parse_fmt_files.py"), ("count checks", "bin_parsers/epme_bin_parser.py")],
     observe=["parse_castep_file", "parse_phonon_file", "parse_elf_fmt_file", "parse_xrd_sf_file", "parse_epme_bin_file"])

prop("B01", "Fortran records are delivered in order with any skip or rewind",
     "Iterating an unformatted Fortran file yields each record's payload exactly, in order; skipping n records moves "
     "to exactly n records later and going back n records to exactly n earlier, for records of any size, and any "
     "sequence of next, skip and rewind leaves the reader on the record that counting says.",
     "All record sizes (including empty and multi-gigabyte), all sequences of operations up to the stated length.",
     "Tests walk one small file; record sizes and navigation histories are unbounded.",
     ["bin_parsers/fortran_bin_parser.py"],
     [("record navigation", "bin_parsers/fortran_bin_parser.py")], over=("inputs", "histories"),
     observe=["binary_file_reader", "FortranBinaryReader"])

prop("B02", "Binary values decode to exactly the bytes' big-endian meaning",
     "Decoding a record gives, for every byte pattern, the big-endian 4-byte integers, 4-byte logicals (true iff "
     "non-zero), 8-byte reals, pairs of reals as complex numbers, or text those bytes mean, every element in order; "
     "asking for a single value of a multi-element record is an error. Reading by a layout assigns each record, in "
     "order, to its name.",
     "All byte contents up to the stated record sizes.",
     "Tests decode constants 0 and 1; byte patterns with the sign bit, large magnitudes or odd counts are outside them.",
     ["utilities/type_conv.py", "bin_parsers/fortran_bin_parser.py"],
     [("bytes to type dispatch", "utilities/type_conv.py")], observe=["parse_bytes", "FortranBinaryReader"])

prop("B03", "Electrostatic-potential files give every grid value at its place",
     "Parsing a .cst_esp file returns the spin count, the grid and, for each spin, each grid column with its values in "
     "file order, grouped by its first grid index in the order stored, for any grid dimensions and values; whatever is "
     "stored beyond the first full grid is kept apart from it (as the kinetic-energy part).",
     "All grids, spins and byte contents within the bounds.",
     "One 16^3 non-spin file is tested.",
     ["bin_parsers/cst_esp_file_parser.py"], [("column assembly", "bin_parsers/cst_esp_file_parser.py")],
     observe=["parse_cst_esp_file"])

prop("B04", "Binary electron-phonon files give every header, k-point and phonon value at its place",
     "Parsing a .epme_bin file returns the header values, every k-point's data per spin and every phonon mode's data "
     "exactly as stored, each under its own name and index, for any number of bands, spins, k-points, q-points and modes.",
     "All counts and byte contents within the bounds.",
     "One small file is tested.",
     ["bin_parsers/epme_bin_parser.py"], [("layout-driven reading", "bin_parsers/epme_bin_parser.py")],
     observe=["parse_epme_bin_file"])

prop("C01", "MD and geometry trajectories give every frame's values under the right tag and atom",
     "Parsing a .md or .geom file returns one entry per frame, in order and including the last, holding the time or "
     "step, energies, temperature, pressure, cell, velocities and stress, and each atom's position, "
     "velocity and force under its own species and index, exactly as printed.",
     "All values, all frame counts, atoms, optional quantities and final-newline variants within the bounds.",
     "Two files are tested; frames with missing or extra quantities, wide indices or exponents are outside them.",
     ["parsers/md_geom_file_parser.py"], [("frame parsing", "parsers/md_geom_file_parser.py")],
     observe=["parse_md_file", "parse_geom_file", "parse_md_geom_frame"])

prop("C02", "Random access to a trajectory equals sequential parsing",
     "The trajectory reader reports the true number of frames and returns, for any index, slice, iteration or "
     "sequence of accesses (negative indices included), the same frames that parsing the file from the start gives; "
     "an index out of range is an error.",
     "All frame counts, indices, slices and access histories within the bounds.",
     "Tests access a few indices of one file.",
     ["tools/md_geom_parser.py"], [("frame arithmetic", "tools/md_geom_parser.py")], over=("inputs", "histories"),
     observe=["MDGeomParser"])

prop("C03", "Transition-state files give every image under its own class, in order",
     "Parsing a .ts file returns the confirmation flag and, for each of reagent, product and test images, every image "
     "in order with its reaction coordinate, energies, cell and each atom's positions and forces exactly as printed.",
     "All values and image sequences within the bounds.",
     "One file is tested.",
     ["parsers/ts_file_parser.py"], [("image parsing", "parsers/ts_file_parser.py")], observe=["parse_ts_file"])

prop("C04", "Band files give every eigenvalue under its own k-point and spin",
     "Parsing a .bands file returns the header quantities, cell and, for every k-point in order, its coordinates, "
     "weight and each spin component's eigenvalues in order, for any number of k-points, spins, electrons and bands.",
     "All values, k-point, band and spin counts within the bounds.",
     "One non-spin-polarised file is tested.",
     ["parsers/bands_file_parser.py"], [("k-point blocks", "parsers/bands_file_parser.py")],
     observe=["parse_bands_file"])

prop("C05", "Phonon files give every q-point's frequencies, intensities and eigenvectors",
     "Parsing a .phonon file returns header, cell and coordinates, and for every q-point block in order its position, "
     "weight, each branch's frequency and intensities, and the complex eigenvectors in order; parsing a .phonon_dos file "
     "returns every gradient and every density-of-states row including each species' contribution.",
     "All values, ion, branch, q-point, species counts and optional columns within the bounds.",
     "One small file of each kind is tested.",
     ["parsers/phonon_file_parser.py", "parsers/phonon_dos_file_parser.py", "parsers/parse_utilities.py"],
     [("q-point blocks", "parsers/phonon_file_parser.py"), ("DOS rows", "parsers/phonon_dos_file_parser.py")],
     observe=["parse_phonon_file", "parse_phonon_dos_file"])

prop("C06", "Grid and table files give every row and column in order",
     "Parsing density, potential, charge-difference and localisation grids, Hugoniot tables and X-ray structure factors "
     "returns every row in file order with each column under its own name and type (complex where given as parts), "
     "whatever the number of rows, columns, spins or header lines present.",
     "All values and row/column counts within the bounds.",
     "One short file of each kind is tested.",
     ["parsers/parse_fmt_files.py", "parsers/hug_file_parser.py", "parsers/xrd_sf_file_parser.py"],
     [("row expressions", "parsers/parse_fmt_files.py")],
     observe=["parse_den_fmt_file", "parse_pot_fmt_file", "parse_elf_fmt_file", "parse_chdiff_fmt_file",
              "parse_hug_file", "parse_xrd_sf_file"])

prop("C07", "Electric-response and elastic files give every tensor and mode at its place",
     "Parsing a .efield file returns header, cell, coordinates, every mode's frequency, irrep and oscillator strengths, "
     "and every permittivity row per frequency; parsing a .elastic file returns each block under its own name with "
     "units and all its numbers in order, internal strain grouped by atom and direction.",
     "All values and counts within the bounds.",
     "One file of each kind is tested.",
     ["parsers/efield_file_parser.py", "parsers/elastic_file_parser.py", "parsers/parse_utilities.py"],
     [("block parsing", "parsers/efield_file_parser.py"), ("block parsing", "parsers/elastic_file_parser.py")],
     observe=["parse_efield_file", "parse_elastic_file"])

prop("C08", "Magnetic-resonance files give every tensor under its own atom, with units",
     "Parsing a .magres file returns the calculation metadata, cell, atoms, declared units and every shielding, "
     "electric-field-gradient and J-coupling tensor under its own atom or atom pair, all values in order, for indices of "
     "any width.",
     "All values, atom labels, indices and record kinds within the bounds.",
     "One file is tested.",
     ["parsers/magres_file_parser.py"], [("record parsing", "parsers/magres_file_parser.py")],
     observe=["parse_magres_file"])

prop("C09", "TDDFT, electron-phonon and error files give every record",
     "Parsing a .tddft file returns the header, every excitation with its energy, characterisation, transition "
     "overlaps and dipole; parsing a .epme file returns the header and each matrix element under its bands, branch and "
     "k-points; parsing an .err file returns the whole message and the whole call stack in order.",
     "All values and record counts within the bounds.",
     "One file of each kind is tested.",
     ["parsers/tddft_file_parser.py", "parsers/epme_file_parser.py", "parsers/err_file_parser.py"],
     [("record parsing", "parsers/tddft_file_parser.py")],
     observe=["parse_tddft_file", "parse_epme_file", "parse_err_file"])

prop("D01", "Input-file keywords keep their key, value, type and unit",
     "Parsing a .cell or .param file returns every keyword, case-insensitively, with its value as written: logical, "
     "integer, real or vector with optional unit, or text; separators (space, tab, =, :) and comments make no "
     "difference and no keyword is lost, whatever surrounds it.",
     "All keys, values, units, separators, comment placements and orders within the bounds.",
     "Tests cover a fixed set of lines.",
     ["parsers/cell_param_file_parser.py", "utilities/castep_res.py"],
     [("keyword expression", "utilities/castep_res.py"), ("keyword handling", "parsers/cell_param_file_parser.py")],
     observe=["parse_cell_file", "parse_param_file", "parse_cell_param_file"])

prop("D02", "Input-file blocks keep every row with its atom, values and units",
     "Parsing the blocks of a .cell or .param file (lattice, positions with spin and mixtures, k-point and q-point "
     "lists, symmetry operations, constraints, Hubbard U, species data, dispersion corrections, functional definitions, "
     "development code) returns every row in order with its species, numbers and units as written.",
     "All rows, values, options and block orders within the bounds.",
     "Tests cover one sample of each block.",
     ["parsers/cell_param_file_parser.py"], [("block handling", "parsers/cell_param_file_parser.py")],
     observe=["parse_cell_file", "parse_param_file"])

prop("D03", "Pseudopotential strings decompose completely and unambiguously",
     "Parsing an on-the-fly pseudopotential string returns its radii, mesh energies, every projector with its shell, "
     "type, radius and options in order, and its flags and adjustments, exactly as written; the same string yields the "
     "same result wherever it occurs. A string that lacks fields is kept as text; one with an unclosed or malformed bracket is an error.",
     "All strings of the documented grammar within the bounds.",
     "Tests decompose a handful of library strings.",
     ["parsers/castep_file_parser.py", "utilities/castep_res.py", "parsers/cell_param_file_parser.py"],
     [("string decomposition", "parsers/castep_file_parser.py")], observe=["parse_cell_file", "parse_castep_file"])

prop("E01", ".castep: the description of the system is extracted as printed",
     "Parsing a .castep file returns the build information, calculation options with their values and units, unit cell "
     "with lengths and angles, atom positions with labels, velocities and spins, species masses and properties, symmetry "
     "operations, constraints, external fields and k-point sampling exactly as printed.",
     "All values, species, atom counts and optional columns within the bounds.",
     "Tests parse one sample of each section.",
     ["parsers/castep_file_parser.py"], [("section parsing", "parsers/castep_file_parser.py")],
     observe=["parse_castep_file"])

prop("E02", ".castep: SCF cycles and energies are extracted as printed",
     "Every SCF cycle is returned in order with its energies, gain and time, including partial first rows and debug "
     "lines, and every final energy (with and without smearing, spin and dispersion corrections, solvation) is returned "
     "under its own name for every occurrence.",
     "All values, iteration counts and optional lines within the bounds.",
     "Tests parse one sample of each form.",
     ["parsers/castep_file_parser.py"], [("SCF and energy sections", "parsers/castep_file_parser.py")],
     observe=["parse_castep_file"])

prop("E03", ".castep: forces, stresses and population analyses are extracted as printed",
     "Every force, stress and virial block is returned under its own kind, each vector under its own atom and each "
     "tensor component under its own name; Mulliken, Hirshfeld, orbital and bond populations, Born charges and spin "
     "densities are returned per atom or bond exactly as printed, spin-resolved where printed so.",
     "All values, atoms, block kinds and optional columns within the bounds.",
     "Tests parse one sample of each block.",
     ["parsers/castep_file_parser.py"], [("force, stress and population sections", "parsers/castep_file_parser.py")],
     observe=["parse_castep_file"])

prop("E04", ".castep: phonon, response and spectroscopy sections are extracted as printed",
     "Phonon frequencies with their irreps and intensities for every q-point, thermodynamics, dynamical matrices, "
     "permittivities, polarisabilities, susceptibilities, band structures, elastic constants, magnetic-resonance and "
     "TDDFT tables are returned complete, in order and under their own names.",
     "All values, counts and optional columns within the bounds.",
     "Tests parse one sample of each section.",
     ["parsers/castep_file_parser.py"], [("response sections", "parsers/castep_file_parser.py")],
     observe=["parse_castep_file"])

prop("E05", ".castep: molecular dynamics, geometry and transition-state steps are kept apart",
     "Each molecular-dynamics step, geometry-optimisation iteration and transition-state image becomes its own entry, "
     "in order, holding the values printed for it and nothing printed for another step; values printed before the "
     "first and after the last step are returned outside the steps, except that a geometry optimisation's first entry is "
     "the starting point and holds what was printed before the iterations.",
     "All step counts and values within the bounds.",
     "Tests parse one or two steps.",
     ["parsers/castep_file_parser.py"], [("step handling", "parsers/castep_file_parser.py")],
     observe=["parse_castep_file"])

prop("E06", "Filtering keeps exactly the requested sections, unchanged",
     "Parsing a .castep file with any set of filters returns exactly the sections those filters cover, each identical "
     "to what parsing without filtering returns, with no trace of the others. Each named preset (low, medium, high, "
     "full, testing) covers its own fixed set, and each of the first four covers all the one before it does.",
     "All filter sets, over files containing each section alone and in sequence.",
     "There are 2^30 filter sets; tests use a few.",
     ["parsers/castep_file_parser.py"], [("filter checks", "parsers/castep_file_parser.py")],
     over=("inputs", "configurations"), observe=["parse_castep_file", "Filters"])

prop("E07", ".castep: runs and sections do not interfere",
     "A file holding several concatenated runs yields one result per run, each identical to parsing that run alone; "
     "unrecognised lines, blank lines and the order of independent sections do not change any section's values, and "
     "a section printed several times is kept every time, in order, where results are lists (others are as last printed).",
     "All pairs of sections and run sequences within the bounds.",
     "Section interactions grow quadratically; tests parse sections alone.",
     ["parsers/castep_file_parser.py"], [("main loop", "parsers/castep_file_parser.py")],
     over=("inputs", "histories"), observe=["parse_castep_file"])

prop("F01", "The command line parses exactly the files asked for",
     "For any combination of seed names and per-type file options, the files parsed are exactly the explicitly named "
     "ones plus, for each seed, the existing files of every supported type (error files included), under "
     "its own type and once unless asked for twice, wherever the seed's directory is; missing explicit files are an error.",
     "All existence patterns of candidate files, all option combinations within the bounds.",
     "Tests run one or two seeds in one directory.",
     ["cli/args.py", "cli/castep_outputs_main.py"], [("file list extraction", "cli/args.py")],
     over=("inputs", "configurations"), observe=["parse_args", "extract_parsables", "main"])

prop("F02", "Every parser accepts a path or an open file and is chosen by name",
     "Parsing by path text, path object or open handle gives the same result; the parser is the one named, or the one "
     "for the file's extension, for text and binary formats alike, and an unknown name or type is an error; a handle given "
     "open is left open. Parsing several files keeps each file's results under its own name.",
     "All parser names, extensions and file sets within the bounds.",
     "Tests parse by one route per format.",
     ["cli/castep_outputs_main.py", "parsers/__init__.py", "bin_parsers/__init__.py", "utilities/utility.py"],
     [("dispatch", "cli/castep_outputs_main.py"), ("file_or_path", "utilities/utility.py")],
     over=("inputs", "configurations"), observe=["parse_single", "parse_all"])

prop("F03", "Everything parsed can be written as JSON without loss",
     "The result of parsing any supported file, passed through the JSON-safe normalisation used for output, contains "
     "only JSON types with distinct keys, so that dumping never fails and no entry overwrites another; complex numbers "
     "keep both parts. In testing mode the same leaves come out as one flat dictionary per run, named by their path.",
     "All values within the bounds of the parser properties.",
     "Tests dump one file of each kind.",
     ["utilities/utility.py", "cli/castep_outputs_main.py", "utilities/dumpers.py"],
     [("normalisation for output", "cli/castep_outputs_main.py")], observe=["parse_single", "json_dumper", "json_safe"])

prop("F04", "Predicted output files follow from the inputs, without side effects",
     "Predicting the files a calculation generates names exactly the outputs its task and options produce, from the "
     "seed's name, for any combination of cell and parameter settings; the inputs are not modified and the same inputs "
     "always give the same prediction.",
     "All combinations of tasks and flags within the bounds.",
     "Tests check a few combinations; settings multiply.",
     ["tools/get_generated_files.py"], [("prediction rules", "tools/get_generated_files.py")],
     over=("inputs", "configurations"), observe=["get_generated_files"])

prop("F05", "Every output format is handed the whole result, and puts it where it was asked",
     "Writing parsed results in any supported output format (JSON, YAML by either library, pretty-printed, plain) writes "
     "all of the data in that format: a single file's result as it is, several under their own names, nothing dropped, "
     "changed or written twice, so that reading the text back gives the parsed data (JSON-safe in JSON, tuples and lists "
     "being the same). It goes to the screen, to the open file given (left open) or to the end of the output file, whose "
     "earlier content is kept. An unknown format is an error and nothing is written.",
     "All values of a file of every kind and of nested data up to the stated depth, all formats, all destinations.",
     "Tests write each kind's one sample file in three formats to a handle.",
     ["utilities/dumpers.py", "cli/castep_outputs_main.py"], [("dumpers", "utilities/dumpers.py"), ("writing", "cli/castep_outputs_main.py")],
     over=("inputs", "configurations"), observe=["get_dumpers", "parse_all"])

prop("F06", "Every result is its own",
     "What parsing a file returns depends on that file (and the options asked for) alone: parsing other files before, in "
     "between or after, of the same kind or not, or changing or emptying the results they gave, neither changes a result "
     "already returned nor what parsing the same file again returns, for every supported kind of file.",
     "All values of two files of every kind and section within the bounds, in either order.",
     "Tests parse each sample once, in one order, and leave the results alone.",
     ["utilities/utility.py", "parsers/castep_file_parser.py", "parsers/cell_param_file_parser.py", "parsers/magres_file_parser.py",
      "parsers/md_geom_file_parser.py", "bin_parsers/cst_esp_file_parser.py", "bin_parsers/epme_bin_parser.py"],
     [("every parser", "parsers/__init__.py")],
     over=("inputs", "histories"), observe=["parse_single", "parse_castep_file", "MDGeomParser"])
