"""The table every generated file comes from: properties.jsonl, MANIFEST.json, props.py."""
S = []


def P(id, title, statement, over, quant, why, files, mech, harness, quick, thorough, note,
      assumptions=(), state=(), observe=(), **cfg):
    assert len(title) <= 80, (id, len(title))
    S.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, harness=harness, quick=quick, thorough=thorough, note=note,
                  assumptions=list(assumptions), state=list(state), observe=list(observe), cfg=cfg))


I, H, F, C = "inputs", "histories", "fault_sequences", "configurations"

P("P01", "CSV text is read into exactly the table it denotes",
  "Loading a CSV text (comma separated, double-quoted fields with doubled inner quotes, first record = labels) "
  "yields a data frame with one column per label and one row per further record, whose cells are the fields of the text; "
  "each column gets the narrowest type among boolean, integer, double and string that fits all its non-empty fields "
  "(factors instead of strings when asked for) and empty unquoted fields become N/A. Ragged or "
  "malformed texts are refused with a fatal error, never silently misread, and no text of any length makes the reader "
  "crash, hang, leak or read outside of its buffer.",
  [I], "every text over the CSV-relevant characters up to a length, every combination of field spellings per column, every table shape up to a size",
  "The tests read two hand-written files; the claim is about every text, in particular quote/separator placements and type-inference combinations.",
  ["src/nx_csv_lexer.c", "src/nx_csv_parser.c", "src/nx_data_frame.c", "src/nx_lexer.c", "src/nx_io.c"],
  [("tokenizer", "src/nx_csv_lexer.c"), ("record parser and type inference", "src/nx_csv_parser.c"), ("stream slurping", "src/nx_io.c nx_read_file/nx_read_stream")],
  "csv", "all texts over {a,1,\",comma,newline} up to length 8; all pairs and part of the triples of 43 field spellings; shapes up to 40x40; one field of every length up to 2200",
  "length 10; all triples; shapes up to 80x80; field lengths up to 8400",
  "exhaustive within the bounds on the real reader against an independent reference reader")
P("P02", "Data frames behave as labelled, typed, growable tables with N/A cells",
  "After any sequence of adding columns and rows, setting cells, clearing cells to N/A, appending whole rows and converting "
  "columns to factors, every cell reads back exactly the last value written (N/A if none), other cells are unaffected, and "
  "row, column and factor level counts are those of the sequence. Reading or writing a cell through the wrong type, or reading an N/A cell, "
  "is refused with a fatal error and changes nothing; no sequence corrupts or leaks memory.",
  [H], "every operation sequence up to a length over 12 operations, and growth through every capacity threshold",
  "The tests run a few fixed scripts; interactions of row growth, column growth, N/A and factor tables only show in particular orders.",
  ["src/nx_data_frame.c"], [("per-column storage and N/A bitmap", "src/nx_data_frame.c"), ("factor level table", "src/nx_data_frame.c")],
  "dframe", "all sequences of length 6 over 12 operations; all 3-column type tuples; rows/columns through 150 growth steps; 80 factor levels",
  "all sequences of length 7; larger growth", "exhaustive operation sequences on the real code, compared with a reference table after every step")
P("P03", "Saving a data frame as CSV and loading it back preserves it",
  "For every data frame, saving it as CSV and loading the result returns the same labels, the same number of rows and columns, N/A "
  "in the same cells, and cell values equal to the saved ones (strings byte for byte, integers and booleans exactly, doubles to the last bit), with the column types re-inferred from the values. "
  "This holds for streams and files alike, an existing file is replaced completely, files that cannot be opened are refused, and nothing leaks.",
  [I], "every string up to a length as cell and label, every N/A pattern over all type tuples, doubles over a grid of exponents and mantissas",
  "Tests save one frame; quoting and number formatting must be right for every content.",
  ["src/nx_data_frame.c", "src/nx_csv_parser.c", "src/nx_csv_lexer.c"], [("CSV writer", "src/nx_data_frame.c nx_data_frame_save_csv*"), ("reader", "src/nx_csv_parser.c")],
  "dframe", "strings over a 6 letter alphabet up to length 3 as cells and labels; 21892 doubles; 320 integers; all N/A patterns of small frames; shapes",
  "strings up to length 5, finer double grid", "exhaustive within the bounds; one recorded finding (a single column frame with N/A cells)")
P("P04", "JSON text and tree denote the same document",
  "Parsing a JSON document (objects and arrays of any length nested at most 10000 deep, strings with backslash escapes other than \\u, numbers, true/false/null) gives the tree the text denotes and every other text is refused with a fatal error; "
  "printing any tree, compactly or indented, gives a text which parses back to an equal tree (integers and strings exactly, reals to six digits). No text makes reading, printing or freeing crash, hang, leak or read outside of its buffer.",
  [I], "every token sequence, string content, number spelling, truncation and single-byte change within bounds, and every tree up to a size",
  "Tests parse a handful of documents; the claim quantifies over all texts and trees.",
  ["src/nx_json_lexer.c", "src/nx_json_parser.c", "src/nx_json_tree.c", "src/nx_lexer.c", "src/nx_string.c"],
  [("lexer", "src/nx_json_lexer.c"), ("recursive parser", "src/nx_json_parser.c"), ("printer", "src/nx_json_tree.c")],
  "json", "355510 token sequences, all number texts up to length 6 and string contents up to length 5 over their alphabets, all trees up to the node budget, all truncations and single-byte mutations of a document using every construct",
  "one more token/character/node in each enumeration", "exhaustive within the bounds against an independent reference parser and printer check")
P("P05", "Values survive JSON bundling; typed access and JSON logs are faithful",
  "Integers, 64-bit integers, bytes, booleans, strings, reals and arrays of them, and keypoint arrays that are bundled into JSON, printed and read back are equal to the originals (reals to six significant digits); "
  "fetching an element or member (also of typed arrays and keypoints) as a type it does not have is refused with a fatal error. A JSON log holds, after any sequence of appends to its streams, exactly the appended entries in order.",
  [I, H], "all boundary scalars, arrays of every length up to a bound, every type/accessor pair, every append sequence up to a length on three streams",
  "Tests bundle one value of each type.", ["src/nx_json_bundle.c", "src/nx_json_tree.c", "src/nx_json_log.c"],
  [("bundle/unbundle pairs", "src/nx_json_bundle.c"), ("typed node access", "src/nx_json_tree.c"), ("log streams", "src/nx_json_log.c")],
  "json", "1281 scalars, 4005 reals, strings up to length 4, arrays up to length 60, 360 accessor pairs, 59049 log append sequences",
  "longer arrays and sequences", "exhaustive within the bounds on the real code")
P("P06", "The character lexer consumes exactly what it matches",
  "For every text, the lexer's position advances exactly over what was matched and its line and column are those of the text; reading a number takes the longest integer or real literal and tells which of the two it is, "
  "reading a quoted string takes everything up to the first unescaped quote, literals that match no number or string syntax are fatal errors, and a failed text match consumes nothing. The JSON and CSV token streams are those of the text, with decoded string and field texts, end with the end token repeated, and leak nothing.",
  [I], "every text over the lexer's alphabets up to a length and every position in it", "Tests use a few fixed strings.",
  ["src/nx_lexer.c", "src/nx_json_lexer.c", "src/nx_csv_lexer.c"], [("position bookkeeping", "src/nx_lexer.c"), ("number automaton", "src/nx_lexer.c"), ("token streams", "src/nx_json_lexer.c")],
  "json", "all texts up to length 6 (numbers, quoted strings), 55987 position texts, 5461 matching texts; token streams of all texts up to length 4 (JSON, 17 characters) and 6 (CSV, 7 characters), of 28561 word sequences and of texts up to 5000 characters", "length 7", "exhaustive within the bounds")
P("P07", "Command line options get exactly the values the arguments give them",
  "For every set of options and every argument vector, each option has the value of its last occurrence (short or long name alike) or its default when it does not occur in this parse, whether it was set is reported truthfully, and all arguments "
  "that belong to no option are handed over in order or, when none are expected, warned about. A missing required option or remaining argument, an option without its value, duplicate or malformed option names, unknown names and access through the wrong type are fatal errors, and a help switch shows the usage and exits; "
  "usage and value listings show every option with its default or value (up to a thousand characters). The C and C++ interfaces agree, and nothing leaks.",
  [I, H], "every argument vector up to a length over option names, values and near misses, for 36 option sets, and every pair of consecutive parses",
  "Tests parse a few vectors with one option set each; re-parsing, hash-colliding names and odd positions are not reached.",
  ["src/nx_options.c", "src/vg_options.cc"], [("argument scan", "src/nx_options.c nx_options_set_from_args"), ("name table", "src/nx_options.c nx_options_find_in_map"), ("defaults and required", "src/nx_options.c nx_options_check_required")],
  "options", "36 option sets x all vectors of up to 3 arguments from 19 tokens; all pairs of parses of up to 1-2 arguments; all sequences of three parses giving or omitting an option x 23 defaults x 6 values; 1..80 options with colliding names",
  "vectors of up to 4 arguments, all pairs of parses of up to 2 arguments, 300 options", "exhaustive within the bounds against a reference parser", wrap=["nx_log_formatted"])
P("P08", "Python options: parsing, YAML files and dictionaries agree on the values",
  "For every list of arguments, each option of the Python package has the value given last or its default (booleans included), under the key derived from its name, in the returned dictionary and in the option itself; invalid values and unknown arguments exit with an error. "
  "Saving options to YAML and loading them, directly or with --from-yaml (which overrides all other arguments), restores every value with its type, and loading a dictionary resets the options it lacks to their defaults.",
  [I, H], "every sequence of settings up to a length, every string up to a length over YAML's special characters, integers, reals and missing values",
  "Two tests parse one list each; YAML is not tested at all.", ["pyvirg/virg/nexus/options.py"],
  [("argument registration", "OptionItem.add_as_argument"), ("YAML text", "OptionItem.__str__, Options.save_yaml/load_yaml"), ("dictionary", "OptionGroup.from_dict/to_dict")],
  "-", "all sequences of up to 3 of 11 settings x 6 option sets; all strings up to length 2 over 21 characters plus special words; 2000 numbers; 765 option sets of all shapes up to 3 groups; all 1728 histories of 3 of 12 operations", "sequences of up to 4, strings up to length 3, 12000 numbers, 4 groups, histories of 4",
  "exhaustive within the bounds, in-process on the real package", runner="python")
P("P09", "String encodings are lossless and bounded by their buffers",
  "Writing any string in escaped or double-quoted form and decoding it again, and writing it length-prefixed to a stream and reading it back, gives the same bytes; malformed escapes, truncated streams and lengths that cannot be held are refused, never decoded to something else. "
  "Formatting, duplicating, gathering bytes from several sources in chunks, and hexadecimal hash texts produce exactly the specified bytes for every length, without touching memory outside of the given buffers.",
  [I], "every string over the significant characters up to a length, every byte, every truncation, every split and chunking", "Tests use a few literals.",
  ["src/nx_string.c", "src/nx_io.c"], [("encoders", "src/nx_io.c nx_fputs_readable, nx_fputs_double_quoted"), ("decoders", "src/nx_string.c nx_xstr_from_*"), ("gather", "src/nx_string.c nx_memncpy_multi")],
  "base", "all strings up to length 6-7 over 6-8 characters, formatted lengths up to 700, string streams up to 60 bytes with every truncation, 3 sources of up to 5 bytes in 256 chunkings", "lengths +1, formatted up to 5000, streams up to 300", "exhaustive within the bounds against reference codecs; exactly sized buffers under AddressSanitizer")
P("P10", "String arrays behave as lists of optional strings and serialize losslessly",
  "After any sequence of appending, formatting, setting (also to the array's own elements or parts of them), unsetting, resizing and clearing, a string array holds exactly the resulting strings, new elements are unset, and searching returns the first equal element or -1. "
  "Writing an array and reading it back, into a new or a used array, gives the same strings; writing unset elements, every truncation of the written bytes and every negative length is reported as an error, and nothing leaks.",
  [H, I], "every operation sequence up to a length, every array size up to a bound, every truncation", "Tests append a few strings.",
  ["src/nx_string_array.c", "src/nx_string.c"], [("growth", "src/nx_string_array.c nx_string_array_resize"), ("serialization", "src/nx_string_array.c read/write")],
  "base", "all sequences of 5 of 11 operations, sizes up to 300, every truncation of every 64th", "sequences of 6, sizes up to 2000", "exhaustive within the bounds against a list model")
P("P11", "Memory blocks and vectors keep their contents and own their memory once",
  "After any sequence of resizing, reserving, releasing, wrapping caller or owned memory, swapping, copying and zeroing, a block has the requested size, at least the requested capacity, and its earlier contents; caller memory is never freed and is left alone once outgrown, owned memory is freed exactly once. "
  "Keypoint vectors built on them keep every element through growth, copies and wrapping.",
  [H], "every operation sequence up to a length on two blocks / two vectors", "Tests exercise each operation once.",
  ["src/nx_mem_block.c", "src/nx_vector_gen.c", "src/nx_keypoint_vector.c"], [("ownership flag", "src/nx_mem_block.c"), ("field refresh", "src/nx_vector_gen.c")],
  "base", "all sequences of 5 of 15 block operations, of 6 of 10 vector operations", "sequences of 6 and 7", "exhaustive within the bounds against a byte model, AddressSanitizer and heap accounting")
P("P12", "SHA-256 digests are those of FIPS 180-4, however the message is split",
  "The digest of every message equals the SHA-256 standard's, for every length including all padding boundaries, and hashing the same bytes given as any number of parts of any lengths, empty ones included, gives the digest of their concatenation.",
  [I], "all lengths up to a bound, every single-bit change at block boundaries, all splits", "Tests check a few published digests.",
  ["src/nx_hash_sha256.c", "src/nx_string.c"], [("padding", "src/nx_hash_sha256.c nx_sha256_multi"), ("gathering parts", "src/nx_string.c nx_memncpy_multi")],
  "base", "lengths 0..600 x 4 patterns, all splits into up to 4 parts of 12 lengths, up to 200 parts, four lengths from 512 MB to 4 GB around the 32-bit limits", "lengths up to 2100, 700 parts", "exhaustive within the bounds against an independent implementation whose constants are derived, not tabulated", stall=240)
P("P13", "Bit operations and binary descriptor search are exact",
  "Bit counts, rotations, big-endian splitting and bit arrays agree with their definition for every word and index; the distance of two binary descriptors is the number of differing bits, and a descriptor map returns every stored descriptor under its id, reports absent ids, and finds a nearest neighbour of minimal distance.",
  [I, H], "all bit patterns of a stride, all bit pairs, all small maps and queries", "Tests check a few patterns.",
  ["src/nx_bit_ops.c", "include/virg/nexus/nx_bit_ops.h", "src/vg_descriptor_map.cc", "src/vg_brief_extractor.cc", "src/nx_brief_extractor.c"], [("parallel bit count", "src/nx_bit_ops.c"), ("linear search", "src/vg_descriptor_map.cc")],
  "base", "2.6e6 32-bit words, 64x64 bit pairs, bit arrays up to 40 bits, descriptors of 8..64 octets, all maps of up to 4 of 6 descriptors", "all 2^32 words, bit arrays up to 90, maps of 5", "exhaustive within the bounds")
P("P31", "Lines and directories are read completely and exactly",
  "Reading a text line by line returns every line with its terminator, of any length, in order and nothing after the end; directory listings contain exactly the entries in sorted order, existence checks tell directories and files truthfully, ensuring a directory leaves it existing and usable by its owner. Missing paths, short reads, and writing to or closing a stream that fails, quoted strings included, are fatal errors or failures as documented.",
  [I], "every text up to a length, every line length up to a bound, every subset of directory entries", "Not tested at all.",
  ["src/nx_io.c", "src/nx_filesystem.c"], [("line buffer growth", "src/nx_io.c nx_getline"), ("directory scan", "src/nx_filesystem.c")],
  "base", "all texts up to length 9 over 3 characters, NUL included, lines up to 1200 bytes, 128 directory contents, streams failing after every byte count of up to 96 or on closing", "length 11, lines up to 6000", "exhaustive within the bounds, in a scratch directory")
P("P14", "Graphs hold exactly the inserted edges in both representations",
  "After any sequence of insertions, the adjacency matrix and the adjacency lists of a graph contain exactly the inserted undirected edges with the weight given last, symmetrically and without duplicates, self edges are left out, every other pair is absent, and the edge count is the number of distinct edges.",
  [H], "every insertion sequence up to a length on small graphs, all sizes up to a bound", "Tests insert a few edges once.",
  ["src/nx_graph.c"], [("insertion", "src/nx_graph.c nx_graph_insert_adj_mat, nx_graph_insert_adj_lst"), ("search", "src/nx_graph.c nx_graph_edge_list_seach")],
  "num", "all sequences of 4 insertions on 2-4 vertices with up to 3 weights, sizes up to 14 in 6 patterns", "sequences of 5, sizes up to 40", "exhaustive within the bounds against an edge-set model; heap accounting")
P("P15", "Sample statistics are those of the samples, for every size and order",
  "For real and integer samples of any number, order and multiplicity, mean, median, quartiles (medians of the halves without the middle sample), interquartile range, sample standard deviation, minimum and maximum are correct, extreme integers included, and the samples are only reordered. "
  "Scalar minimum, maximum, sign and comparison functions agree with their definition, and the error function is within 1.6e-7.",
  [I], "every sample sequence up to a length over spread values, all lengths up to a bound", "Tests check the sequence 1..5 and its prefixes.",
  ["src/nx_statistics.c", "include/virg/nexus/nx_math.h", "src/nx_math.c"], [("order statistics", "src/nx_statistics.c"), ("comparisons", "include/virg/nexus/nx_math.h")],
  "num", "all sequences up to length 8 over 4 values and 6 over 5 extreme values, lengths up to 120 in 12 patterns, 289 scalar pairs, 40001 erf points", "lengths 10 and 8, 400, 400001 points", "exhaustive within the bounds against long double references")
P("P16", "Matrix, vector, solver and SVD routines satisfy their equations",
  "Products, sums, transposes, determinants, inverses (zero for exactly singular 3x3 matrices) and norms of matrices and vectors equal their definition; symmetric systems given by either triangle are solved, zero ones refused, and every SVD variant returns sorted singular values and orthogonal factors that reproduce the matrix. "
  "Only the elements inside the given dimensions are written for every leading dimension, and matrices written as text are read back bit for bit while ragged rows are fatal errors.",
  [I], "all 3x3 matrices over small entry sets, all symmetric 2x2/3x3 systems over entry sets, all shapes and paddings up to a bound", "Tests check a few matrices of one shape.",
  ["include/virg/nexus/nx_mat.h", "src/nx_mat.c", "include/virg/nexus/nx_mat234.h", "include/virg/nexus/nx_vec.h", "include/virg/nexus/nx_vec234.h", "src/nx_svd.c", "src/nx_linear_solvers.c"],
  [("leading dimensions", "include/virg/nexus/nx_mat.h"), ("in-place transpose cycles", "include/virg/nexus/nx_mat.h nx_dmat_transpose"), ("LAPACK calls", "src/nx_svd.c, src/nx_linear_solvers.c")],
  "num", "39366 3x3 matrices, 22184 SVD inputs in 8 variants, 16654 symmetric systems, all transposes up to 24x24, 735 texts, all vectors up to length 6 over 4 values", "78732 3x3 matrices, shapes up to 20, transposes up to 60", "exhaustive within the bounds; LAPACK itself is the installed library")
P("P19", "Images keep shape, pixels and memory ownership through every operation",
  "After any sequence of creating, resizing, copying, wrapping caller or owned memory, swapping, releasing, zeroing and converting images, each image has the dimensions, types and stride asked for (never shorter than a row), storage for all its rows, and the pixels of the last writing operation; "
  "a copy has the source's pixels and does not share them. Caller memory is never freed, owned memory is freed exactly once, and nothing leaks; the C++ image class behaves likewise.",
  [H], "every operation sequence up to a length on two images, every size up to a bound", "Tests run each operation once on one size.",
  ["src/nx_image.c", "src/nx_mem_block.c", "src/vg_image.cc", "include/virg/nexus/vg_image.hpp"], [("shape and storage", "src/nx_image.c nx_image_resize/copy/wrap/swap"), ("ownership", "src/nx_mem_block.c")],
  "image", "all sequences of 4 of 38 operations, sizes up to 40x12, 552 images of up to thousands of pixels a side, 729 C++ sequences, 3600 C++ wrappings", "all sequences of 5 of 38 operations, sizes up to 120x40", "exhaustive within the bounds against a pixel model, AddressSanitizer and heap accounting")
P("P20", "Image arithmetic and pixel type conversions compute each sample exactly",
  "For images of any shape and stride, a*x+y (truncated and clamped to 0..255 for bytes), differences over the common area, normalization to [0,1] (plain or symmetric around zero, constant images become zero), byte/float conversion (scaled by 255, truncated and clamped) and gray/RGBA conversion give for every sample the value the formula defines. "
  "No sample outside of the image, no padding and no input image is changed, whatever the destination held before.",
  [I], "every byte value with every coefficient pair, all shapes, paddings and prior destination states up to a bound, all small images over a value set", "Tests convert one image.",
  ["src/nx_image.c", "src/nx_colorspace.c", "include/virg/nexus/nx_colorspace.h"], [("per-sample loops", "src/nx_image.c nx_image_axpy, nx_image_subtract, nx_image_normalize_to_zero_one, nx_image_convert_*")],
  "image", "256 values x 143 coefficient pairs, shapes up to 6x5 with 3 paddings, all images up to 5 samples over 6 values, 20000 floats, 760 large images, 1200 C++ calls", "shapes up to 12x9, 6 samples, 300000 floats", "exhaustive within the bounds against double precision formulas")
P("P32", "Grayscale values and colour maps are those of their definition",
  "The gray value of every colour is 0.3 R + 0.59 G + 0.11 B (truncated for bytes, clamped to [0,1] for floats), gray to colour conversion repeats the value with full opacity, and the strided routines convert exactly the pixels of the image for every stride. "
  "Every colour map value in [0,1] is the linear interpolation of the map's table, applied pixel by pixel and opaque for images of both data types.",
  [I], "all 2^24 byte colours, a grid of float colours, all small shapes and strides, a fine sweep of map values", "Tests check a few colours.",
  ["src/nx_colorspace.c", "include/virg/nexus/nx_colorspace.h", "src/nx_image.c", "include/virg/nexus/vg_color_map.hpp"], [("weights", "include/virg/nexus/nx_colorspace.h"), ("interpolation", "src/nx_colorspace.c nx_color_map_apply")],
  "image", "2^24 colours, 3375 float colours, 5 maps x 20001 values, shapes up to 5x4, 200 large images", "5 maps x 400001 values, shapes up to 9x7", "exhaustive within the bounds against a reference copy of the tables")
P("P21", "Resampling, warping and rotating images sample the source at the right places",
  "For gray images of every size, stride and data type: downsampling keeps every second pixel, upsampling and scaling interpolate bilinearly with repeated borders, the anti-aliased reductions apply their five tap kernel, and affine warps and 45 degree rotations give each destination pixel the bilinear sample at its mapped position. "
  "Positions whose interpolation neighbourhood leaves the source become black, white, noise, repeated or mirrored border as asked; results have the documented dimensions, only destination pixels are written, and no source pixel outside the image is read.",
  [I], "all small sizes with an impulse at every pixel, all scale factors of a set, all affine maps over exactly representable coefficients, all background modes", "Tests compare a few images.",
  ["src/nx_image.c", "src/nx_image_warp.c"], [("bilinear sampling", "src/nx_image.c nx_image_scale, nx_image_warp.c"), ("border handling", "src/nx_image_warp.c"), ("five tap reduction", "src/nx_image.c nx_image_downsample_aa_*")],
  "filter", "sizes up to 9x9 with every impulse, 16 scale factors up to 8x8, 8640 affine maps x 25 sizes x 5 modes, all rotations up to 6x6 into 7x7, 1260 long or large images, 3200 C++ calls", "sizes up to 14x14, 12x12, 49 sizes, 9x9 into 12x12", "exhaustive within the bounds against double precision sampling; bytes within the truncation of the exact value")
P("P22", "Smoothing, box filters, derivatives and kernels compute their convolutions",
  "Gaussian kernels are normalized, symmetric and of the documented odd size; buffers get zero, repeated or mirrored borders; smoothing and box filters are the separable convolutions with repeated borders (truncated to bytes after each pass for byte images) and derivatives are central, doubled one-sided at the borders and 0 across a single pixel. "
  "This holds for gray images of every size, stride and data type, for smoothing and box filters also in place and with own or given work buffers, and nothing but the destination pixels is written.",
  [I], "all small sizes with an impulse at every pixel, all sigma, truncation, radius, border and buffer combinations of a set", "Tests filter one or two arrays.",
  ["src/nx_image.c", "src/nx_filter.c"], [("kernels and borders", "src/nx_filter.c"), ("separable passes", "src/nx_image.c nx_image_smooth, nx_image_filter_box_*, nx_image_deriv_*")],
  "filter", "sizes up to 6x6 with every impulse x 25 sigma pairs x 3 truncations x 3 modes, radii 1..4, derivatives up to 9x9, all borders up to 8 of up to 9 values, 756 long or large images, 2940 C++ calls", "sizes up to 9x9, 14x14, borders up to 12 of 14", "exhaustive within the bounds; byte results as intervals propagated through both passes")
P("P23", "Image pyramids have the documented levels, whatever was built before",
  "For every gray image (any stride, byte or float) and every fast, fine or scaled setting whose levels are not empty, the pyramid has the asked number of levels with scale factor^(octave), blur sigma0*2^(i/steps) and correspondingly floored sizes, and their pixels are the smoothed and reduced input. "
  "Rebuilding with a used builder or pyramid, for another image or setting, gives exactly what a new one gives; the input is unchanged and nothing leaks.",
  [I, H], "all settings of a set times image sizes, strides and data types; every sequence of three builds over settings and images", "Tests build two pyramids of one image.",
  ["src/nx_image_pyr_builder.c", "src/nx_image_pyr.c", "src/vg_image_pyr.cc", "src/nx_image.c"], [("level geometry", "src/nx_image_pyr_builder.c nx_image_pyr_builder_init_levels"), ("level computation", "src/nx_image_pyr_builder.c _nx_image_pyr_builder_update_*")],
  "filter", "125 settings x 8 sizes x 2 types x 2 strides x 3 patterns; all 27000 sequences of 3 builds, 128 large images, 1670 C++ pyramids", "5 patterns, all 810000 sequences of 4 builds", "exhaustive within the bounds against an interval model of the smoothing and reductions")
P("P17", "Image files are written and read back exactly, and bad files are refused",
  "Saving any byte image as PNG or PNM and loading it again gives the same pixels (PNM stores no alpha, JPEG is close), the format following the file name when saving and the content when loading; PNG files of every type, bit depth and interlacing, gray and colour JPEG files and PNM files with comments load with their meaning, as stored, as gray or as RGBA, whatever the byte image loaded into held. "
  "Missing, truncated or unsupported PNG and PNM files and damaged PNG files are refused with an error, damaged files never corrupt memory, and neither files nor memory are left behind.",
  [I, F], "all small shapes, strides, types, load modes, destinations and interfaces; every truncation and single-byte change", "Not tested at all.",
  ["src/nx_image_io.c", "src/nx_image_io_pnm.c", "src/nx_image_io_png.c", "src/nx_image_io_jpeg.c"], [("format choice", "src/nx_image_io.c"), ("PNM coding", "src/nx_image_io_pnm.c"), ("PNG transformations", "src/nx_image_io_png.c load_as_png"), ("JPEG rows", "src/nx_image_io_jpeg.c")],
  "imgio", "shapes up to 9x7 x 5 patterns x 3 modes x 10 destinations, 15 PNG kinds x interlacing x transparency up to 9x9, 5 JPEG kinds up to 18x18, 3600 PNM headers, every truncation and single-byte change, 456 images of up to thousands of pixels a side", "shapes up to 18x12, 17x12, 33x33", "exhaustive within the bounds against independent decoders; AddressSanitizer, heap and descriptor accounting; libpng and libjpeg are the installed libraries", wrap=["fclose"])
P("P18", "A file that could not be written completely is never reported as written",
  "When the storage is full after any number of bytes, the target cannot be opened or closing it fails, saving images (PNM, PNG, JPEG), data frames, JSON trees, string arrays, strings, keypoints, SIFT features and match caches, BRIEF extractors and matrices reports the failure by its result, by closing the stream with the library, or as a fatal error; with enough space it succeeds and writes the same file again. "
  "Failures that are returned rather than fatal leave no file open and no memory allocated.",
  [F], "every number of bytes after which the storage is full, for every writer and several sizes", "Tests never make a write fail.",
  ["src/nx_io.c", "src/nx_image_io_pnm.c", "src/nx_image_io_png.c", "src/nx_image_io_jpeg.c", "src/nx_data_frame.c", "src/nx_json_tree.c", "src/nx_string_array.c", "src/nx_string.c", "src/nx_keypoint.c", "src/nx_brief_extractor.c", "src/nx_sift_detector.c", "src/nx_mat.c"],
  [("closing streams", "src/nx_io.c nx_fclose, nx_xfclose"), ("result propagation", "src/nx_image_io_*.c, src/nx_data_frame.c nx_data_frame_save_csv")],
  "imgio", "143 writers, every limit for files up to 3000 bytes and around buffer boundaries of larger ones, 3 unwritable targets, failing closes", "every limit for every file", "exhaustive fault injection within the bounds (file size limit of the process); heap and descriptor accounting", wrap=["fclose"])
P("P24", "FAST corners are exactly the pixels the segment test defines",
  "A pixel at least 3 from the border is detected exactly when 9 contiguous of its 16 circle pixels are all brighter or all darker by more than the threshold; its score is the largest threshold for which that holds, suppression keeps exactly the corners whose score exceeds that of all neighbouring corners, and keypoints come in raster order, numbered from 0, at most as many as asked for. "
  "Detectors (reused, with orientation from the intensity centroid, on every level of a pyramid from the coarsest, thresholds adapted within 5..250) give exactly these keypoints with the level, scale and blur of their image, without changing it.",
  [I, H], "every brighter/similar/darker pattern of the circle, every small score grid, images, pyramids and detector histories", "Tests detect on one image.",
  ["src/nx_fast_detector.c", "src/fast/fast_9.c", "src/fast/fast_nonmax.c"], [("decision tree", "src/fast/fast_9.c"), ("suppression", "src/fast/fast_nonmax.c"), ("pyramid and orientation", "src/nx_fast_detector.c")],
  "detect", "all 3^16 circle patterns at both limits and their scores, 1.1e6 score grids, 14 pictures up to 20x17 x 6 thresholds, 15000 pyramid runs, 468 large images, 300 threshold adaptations, all 14641 detector histories of 4 operations", "all scores at both limits, 30e6 grids, pictures up to 34x28, histories of 5", "exhaustive within the bounds against the definition")
P("P25", "Harris corners are the strict local maxima of the Harris score",
  "The score image is det - k trace^2 of the products of derivatives smoothed by the window; keypoints are exactly the pixels at least 2 from the border whose score exceeds the threshold and all 8 neighbours, in raster order with their score, at most as many as asked for. "
  "The detector class returns these for images and, from the coarsest level, for pyramids, and adapts its threshold by the documented factors to the number found before limiting, over any history of calls.",
  [I, H], "all small score images over three values, pictures of all small sizes, all detector histories up to a length", "Not tested at all.",
  ["src/nx_harris_detector.c", "src/vg_harris_detector.cc"], [("score", "src/nx_harris_detector.c nx_harris_score_image"), ("maxima", "src/nx_harris_detector.c nx_harris_detect_keypoints"), ("adaptation", "src/vg_harris_detector.cc")],
  "detect", "14 pictures up to 10x10 x 4 windows x 4 k, 1.08e6 score images, 384 large images, 1840 adaptations, all 6561 detector histories of 4 operations", "pictures up to 16x16, histories of 5", "exhaustive within the bounds; derivatives and smoothing themselves are decided by P22")
P("P26", "BRIEF descriptors compare the right pixels, and keypoint files are exact",
  "A seed determines the test pattern, inside the radius with pairs at least 3 apart; a point is accepted exactly when all its samples lie in the sampled pyramid level, and each descriptor bit says whether the first sample is brighter, also for rotated patterns, which are refused when a sample is outside or the level does not exist. "
  "Extractors and keypoints written to a stream are read back identically, into new or used objects, and every truncated file is reported.",
  [I, F], "every position around every level of several pyramids, offsets, angles; every truncation", "Tests compute descriptors at a few points.",
  ["src/nx_brief_extractor.c", "src/vg_brief_extractor.cc", "src/nx_keypoint.c"], [("sampling", "src/nx_brief_extractor.c nx_brief_extractor_compute_pyr, nx_brief_extractor_compute_pyr_at_theta"), ("acceptance", "src/nx_brief_extractor.c nx_brief_extractor_check_point_pyr"), ("files", "src/nx_brief_extractor.c, src/nx_keypoint.c")],
  "detect", "400 pattern shapes x 6 seeds, 5 pyramids x 4 pictures x 5 offset sets x 4 level offsets x 9 angles at all positions, descriptors of up to 128 octets, all truncations of 144 extractors and 308 keypoint lists of up to 20000", "1960 pattern shapes", "exhaustive within the bounds; radii from 5; samples within 1e-4 of a pixel boundary may fall on either side")

P("P27", "The USAC driver returns the best admissible hypothesis",
  "Whatever the callbacks answer, nx_usac returns the model with the highest score among those estimated from accepted samples that pass the model and degeneracy checks, the earliest on ties, replaced by its local refinement or, at the end, by the global refinement exactly when that scores higher. "
  "Termination always sees the best model and score so far (a zero model before any), callbacks see the drawn sample, rejected samples are never fit and rejected models never scored, any number of models per fit is considered, and nothing leaks.",
  [I, H], "every combination of callback answers over several iterations and models per iteration", "Tests only run whole homography estimations.",
  ["src/nx_usac.c"], [("hypothesis loop", "src/nx_usac.c nx_usac"), ("refinements", "src/nx_usac.c nx_usac")],
  "random", "all answer combinations of 3 iterations of at most one model (18^3), 2 iterations of at most two models (274^2) and one of three models (4096), each with several global scores", "4 iterations of one model (18^4), 3 iterations of at most two models (274^3)", "exhaustive over callback answers within the bounds; model and score recomputed by an independent oracle", wrap=["nx_uniform_sampler_sample_s"])
P("P29", "A seed determines every random sequence, and samples have their range",
  "For every seed, samplers deliver the SFMT-19937 stream as 32 and 64 bit integers, single and double precision values in [0,1) and filled arrays, in any order of requests and independently of other samplers; seeding again restarts the stream. "
  "Gaussian samples are those of the polar method on that stream for any count, mean and deviation, and are finite for every uniform value including the disk centre.",
  [I, H], "operation sequences at all kinds of block positions, seeds, array sizes, counts, scripted uniform values", "Tests do not test the samplers.",
  ["src/nx_uniform_sampler.c", "src/nx_gaussian_sampler.c", "src/SFMT/SFMT.c"], [("streams", "src/nx_uniform_sampler.c, src/SFMT/SFMT.c"), ("range", "src/nx_uniform_sampler.c nx_uniform_sampler_sample_s"), ("polar method", "src/nx_gaussian_sampler.c")],
  "random", "all sequences of 4 operations of 7 kinds x 10 seeds x 12 block positions, runs of 20000, 160000 seeds, 40 array sizes, counts up to 42, all 15625 scripts of 6 uniform values", "sequences of 5, runs of 200000, 1600000 seeds, 160 sizes, counts up to 152", "exhaustive within the bounds against an independent implementation; 64-bit draws only on even positions and arrays only on block boundaries, as SFMT requires", wrap=["nx_uniform_sampler_sample_s"])

P("P28", "Homography and epipolar estimation recover exact data and report honest inliers",
  "Inlier marking flags exactly the correspondences closer than the tolerance and returns their number; minimal and linear estimators recover the homography or rank-two fundamental matrix of exact data up to scale, from the chosen or marked correspondences only, refusing too few; nx_homography_check accepts exactly unmirrored projected squares with a large enough diagonal angle. "
  "Robust estimators find all inliers of exact data among outliers (of up to 60, larger sets may stop early), draw distinct samples, report as many inliers as they mark under the returned matrix, only reorder the correspondences, and depend on nothing the matrix held before; "
  "normalization and its inverses are exact, coincident points included.",
  [I, H], "inlier patterns, quadrilateral pairs, poses, point counts, outlier ratios, orders, seeds and scripted draws", "Tests estimate a few matrices from random points.",
  ["src/nx_homography.c", "src/nx_usac_homography.c", "src/nx_epipolar.c", "src/nx_point_match_2d_stats.c", "src/vg_point_correspondence_2d.cc", "src/vg_fundamental_matrix.cc"], [("inliers", "src/nx_homography.c nx_homography_mark_inliers, src/nx_epipolar.c nx_fundamental_mark_inliers"), ("estimation", "src/nx_homography.c, src/nx_epipolar.c"), ("robust estimation", "src/nx_homography.c, src/nx_usac_homography.c, src/nx_epipolar.c"), ("normalization", "src/nx_point_match_2d_stats.c")],
  "geom", "all inlier patterns of up to 6 points for 19 matrices, 2401 linear parts x 288 homography checks, all orders of all 3x3-grid quadrilaterals, 36 poses x 8-20 points, all 4-point normalization inputs over 16 positions, all 8^6 correspondence histories, 4800 robust problems, 6750 consistency problems, 960 large sets, 3280 C++ calls, 5 estimators x all scripted sample prefixes", "8 points, 12-point patterns, 5-point normalizations, 8^7 histories, 3x seeds", "exhaustive within the bounds against long double references; exact data only, distances within rounding of the tolerance may be marked either way", wrap=["nx_uniform_sampler_sample_s"])

P("P30", "Rotations, quaternions, cameras and plane transforms agree with their definition",
  "Euler and axis-angle matrices, unit quaternions and their conversions denote the same rotation, half turns included, and quaternion arithmetic is exact, in place too; similarity and affine transforms are the stated products. "
  "Projections are K[R|t] applied to the points, missing parts being neutral; triangulation recovers as many marked points as fit; essential matrices decompose into four distinct proper candidates of which the true one is chosen when the points lie in front of both cameras.",
  [I], "angle and axis grids, all small integer quaternions and pairs, poses, calibrations, inlier patterns", "Tests check a few rotations and poses.",
  ["src/nx_rotation_3d.c", "src/nx_quaternion.c", "include/virg/nexus/nx_quaternion.h", "src/nx_pinhole.c", "src/nx_epipolar.c", "src/nx_transform_2d.c", "src/vg_homography.cc"], [("rotations", "src/nx_rotation_3d.c, src/nx_quaternion.c, include/virg/nexus/nx_quaternion.h"), ("cameras", "src/nx_pinhole.c"), ("relative orientation", "src/nx_epipolar.c nx_essential_decompose_to_Rt, nx_epipolar_pick_best_Rt"), ("plane transforms", "src/nx_transform_2d.c")],
  "geom", "20^3 angle triples, 124 axes x 20 angles, all 624 quaternions over -2..2 and their pairs, 36 poses x 3 calibrations x 8 omissions, all 256 inlier patterns x 10 capacities, 36 poses x 9 calibration pairs x 3 scales, 225 plane transforms x 81 translations", "342 axes, 2400 quaternions and their pairs", "exhaustive on the grids against long double matrix products; K upper triangular with unit last entry", wrap=["nx_uniform_sampler_sample_s"])

P("P33", "SIFT keypoints are the extrema of the difference of Gaussians, with descriptors",
  "Keypoints are exactly the refined scale-space extrema above the peak threshold, at least the border distance inside and not edge like, one per strong peak of the smoothed gradient orientation histogram, with consecutive ids, their octave and scale, and the clamped, normalized 4x4x8 gradient histogram as descriptor. "
  "A blob is found at its place, size and orientation, turned or mirrored pictures give turned or mirrored keypoints, and intensities may be in any unit; "
  "the result depends on the image and parameters alone, not on the buffers handed over (also empty ones) or on what the detector did before.",
  [I, H], "all small image shapes, pictures, parameter sets, blob positions and sizes, symmetries, detector histories and buffer capacities", "Not tested at all.",
  ["src/nx_sift_detector.c"], [("extrema", "src/nx_sift_detector.c nx_sift_process_dog, nx_sift_interp_peak_location"), ("orientation", "src/nx_sift_detector.c nx_sift_compute_ori_hist, nx_sift_compute_keys"), ("descriptor", "src/nx_sift_detector.c nx_sift_compute_fdescriptor, nx_sift_compute_descriptor"), ("buffers", "src/nx_sift_detector.c nx_sift_key_store_append")],
  "sift", "5164 small images x 5 buffer capacities, 704 pictures in 8 parameter sets (3 to 7 scales) with every keypoint and descriptor compared, 14 pictures with many octaves, 1626 single blobs, 192 turned pictures, 88 pictures in 3 units, all 1728 detector histories of 3 images, all 256 option subsets", "all shapes up to 36x36, 1584 pictures, all 6500 blobs, histories of 4", "exhaustive within the bounds against an independent double precision detector on the scale space built with the smoothing decided by P22; decisions within rounding of a threshold may go either way")
P("P34", "SIFT matches are nearest neighbours, and caches and files never change them",
  "Brute-force matching reports, in order, for every descriptor its nearest other descriptor with its squared distance, or with a ratio threshold between 0 and 1 only those sufficiently nearer than the second, and nothing when there is nothing to match to. "
  "Results taken from a cache directory are exactly those computed without it for the same image, shape, type, parameters or keypoints, over any history of calls; a cache file cut short by a crash is an error or harmless, never a wrong result. "
  "Saved keypoints and descriptors are read back exactly, growing the buffers as needed, and truncated files, negative counts and other descriptor dimensions are refused.",
  [I, H, C], "all small descriptor sets and ratio thresholds, all histories of cached calls, every truncation of every file", "Not tested at all.",
  ["src/nx_sift_detector.c"], [("matching", "src/nx_sift_detector.c nx_sift_match_brute_force"), ("caches", "src/nx_sift_detector.c nx_sift_detector_compute_with_cache, nx_sift_match_brute_force_with_cache"), ("files", "src/nx_sift_detector.c nx_sift_xsave, nx_sift_xload")],
  "sift", "57288 matchings of at most 2 to 4 descriptors, all 1000 histories of 3 cached detections over 10 variants, 841 pairs of cached matchings, 128 pairs of parameters, 360 of pictures and 224 of shapes that share a cache, 3312 single changes of cached matchings, 718 crash points of cache files, 36 keypoint files with every truncation", "2 to 5 descriptors over 5 values, histories of 4, every crash point", "exhaustive within the bounds; distances computed independently")

P("P35", "Drawings on images, PDF and SVG files and annotations look as asked for",
  "Any sequence of graphics context operations, through the C or the C++ interface, gives on an RGBA byte image of any size and stride exactly the antialiased picture of the corresponding cairo operations, each colour component in its own channel and nothing outside the pixels written, and gives the corresponding PDF or SVG file; curves end at the given end point, relative operations start from the current point, and a document that cannot be created is a fatal error. "
  "Annotators draw marks, edges, regions and keypoints (circle of diameter 2 sigma at full image scale, coloured by level up to 6 or all white) on an RGBA copy of the byte image, and match images show both pictures side by side with the asked matches as edges and diamonds; the annotated images never change.",
  [I, H], "all sequences of drawing operations up to a length, all small image sizes and strides, all pairs and triples of annotations, match sets and inlier patterns", "Tests draw one square and look at nothing.",
  ["src/nx_gc_cairo_imp.c", "include/virg/nexus/vg_graphics_context.hpp", "src/vg_graphics_context.cc", "src/vg_image_annotator.cc", "include/virg/nexus/vg_color.hpp"], [("drawing operations", "src/nx_gc_cairo_imp.c"), ("annotations", "src/vg_image_annotator.cc"), ("match images", "src/vg_image_annotator.cc create_match_image")],
  "gc", "all 17576 sequences of 3 of 26 operations in 2 interfaces, 24024 sized pictures, 1920 colours, 8112 documents, 7920 operations with unusual values on pictures and as many in documents, 7056 annotation triples, 2700 edges with marks and regions, 1782 keypoint sizes, 882 canvas changes, 9072 match images", "all 456976 sequences of 4, all 37044 annotation triples", "exhaustive within the bounds; the installed cairo is the reference for what an operation draws, annotations within 4 grey levels")
P("P36", "Affine views and checkerboard scores show the picture they are made from",
  "The result of an affine warp (scale > 0, tilt >= 1, any angles, any gray byte image) just encloses the image transformed by scale R(planar) diag(1/tilt,1) R(tilt angle); forward and inverse transforms are inverse to each other and map the image centre to the result centre, pixels from at least one pixel inside show the picture there through the three truncating bilinear stages, blurred along the tilt by 0.8 sqrt(tilt^2-1), for scales above 1 by 0.8 sqrt(scale^2-1) and by the asked post blur, and pixels from outside are the fixed colour, the nearest border value or noise. "
  "The result depends on image and settings only, not on earlier warps. "
  "Checkerboard images are the truncated means along x, y and both diagonals, and the score is the smoothed squared range of the four, largest at checkerboard corners; inputs never change and nothing leaks.",
  [I, H], "all combinations of scales, tilts, angles, backgrounds and pictures of a set, all impulses in all small images, all histories of warps", "Not tested at all.",
  ["src/nx_affine_warp_processor.c", "src/nx_checkerboard_detector.c", "src/nx_filter.c", "src/nx_image_warp.c"], [("transforms", "src/nx_affine_warp_processor.c nx_affine_warp_processor_update_transforms"), ("sampling and blur", "src/nx_affine_warp_processor.c warp_buffer_affine_bilinear, warp_processor_blur"), ("background", "src/nx_affine_warp_processor.c fill_warp_buffer_bg"), ("checkerboards", "src/nx_checkerboard_detector.c")],
  "warp", "12800 views of 2 sizes, 24300 small impulses, all 13824 histories of 3 warps, 3348 checkerboard inputs with every impulse up to 7x7, 1024 score inputs, 3744 corners", "25600 views of 4 sizes, impulses up to 7x7, all 331776 histories of 4, impulses up to 10x10", "exhaustive within the bounds against an interval model of every stage; sizes within 1e-6 of a rounding boundary are checked by ramps only; the outermost pixel ring may be either picture or background")

P("P37", "Dataset readers report exactly what the files say, and refuse damaged ones",
  "KITTI sequences have the poses (column-major 3x4), times, calibrations, cameras and lidar found on disk, without ground truth when there is no pose file; Temple Color sequences have their frame range, attributes (one per line) and boxes, and VGG sequences their homographies (column-major, identity first); frame loading gives the picture of the asked camera and number, of any length of sequence. "
  "Missing directories, sequences, files and frames, numbers of poses and times that differ, and files that end too early are fatal errors; nothing leaks.",
  [I, F], "all sequence ids and names, sensor sets, attribute sets, lengths around buffer limits, missing files and truncations", "Not tested at all.",
  ["src/nx_kitti_slam.c", "src/nx_temple_color_128.c", "src/nx_vgg_affine_dataset.c"], [("KITTI", "src/nx_kitti_slam.c"), ("Temple Color", "src/nx_temple_color_128.c"), ("VGG", "src/nx_vgg_affine_dataset.c")],
  "data", "528 KITTI layouts, lengths up to 2301, all 16 sensor sets, 36 length pairs, calibration files cut at every 7th byte, all 129 and 2048 Temple names and attribute sets, all 8 VGG sequences, every missing number of every homography", "calibration files cut at every byte", "exhaustive within the bounds on directories laid out by the harness")
P("P38", "Gnuplot scripts contain exactly the commands and data that were sent",
  "Every operation appends the corresponding gnuplot commands, in order and after the initial settings, to the given stream or to a pipe to gnuplot (persistent when asked): formatted commands verbatim, titles and axis labels as such, terminals of the asked kind, size and output, and data frames (without missing values) as rows separated by blanks, inline ended by e or as the named data block. "
  "Flushing makes them arrive, freeing closes the pipe but never a given stream, nothing leaks, and a pipe that cannot be opened is a fatal error.",
  [H, F], "all sequences of operations up to a length, on streams and pipes", "Tests send commands to a gnuplot that need not exist and look at nothing.",
  ["src/nx_gnuplot.c", "src/nx_data_frame.c"], [("commands", "src/nx_gnuplot.c"), ("data", "src/nx_gnuplot.c nx_gnuplot_send_data_frame")],
  "data", "all 17576 sequences of 3 of 26 operations on streams and pipes", "all 456976 sequences of 4", "exhaustive within the bounds; popen and pclose are replaced at link time; blanks and command separators may vary", wrap=["popen", "pclose"])
P("P39", "Log lines appear exactly when asked for, fatal errors reach their handler",
  "A log call prints exactly one line [I, L, W or E][tag][function:line] message, whatever its length, to standard error when its level is at least the verbosity set last (a fresh process shows everything but info) and nothing otherwise; the line is coloured from start to end on a terminal and plain elsewhere. "
  "A fatal error, whatever the verbosity, calls the function installed last with exactly the arguments of the call; without one, or after installing NULL, it prints its line with F and the call stack and exits with NX_EXIT_FATAL, also when no memory is left.",
  [I, H], "all histories of verbosities, log calls, fatal functions and fatal errors up to a length, all levels with all kinds of messages", "Not tested at all.",
  ["src/nx_log_c_impl.c", "include/virg/nexus/nx_log.h"], [("log lines", "src/nx_log_c_impl.c nx_log_formatted"), ("fatal errors", "src/nx_log_c_impl.c nx_log_fatal, default_fatal_func")],
  "log", "all 248832 histories of 5 of 12 operations, 6480 messages and 4860 fatal errors (also when the symbols of the call stack cannot be allocated) over verbosities, levels, texts and tags of up to 20000 bytes, every level on a terminal, a fresh process", "all 2985984 histories of 6", "exhaustive within the bounds; everything that reaches descriptor 2 is captured",
  wrap=["backtrace_symbols"], state=[("verbosity", "level set last", "src/nx_log_c_impl.c"), ("fatal function", "handler installed last, or none", "src/nx_log_c_impl.c")])
P("P40", "Running out of memory is a reported error, never a crash or a wrong result",
  "Whichever allocation of whichever operation fails, alone or with all later ones, the operation ends in a fatal error or its documented failure return, or gives its usual result when it can do without; it never crashes, exits otherwise or returns anything else, and the next operations work as ever. "
  "The allocation functions return blocks of the asked size and alignment, zeroed or keeping their contents as their kind demands, report sizes that cannot be had, products that do not fit included (the x variants as fatal errors, the others by NULL), and leave the block alone when growing it fails.",
  [I, F], "every allocation of every operation of a list, block sizes, size products, alignments", "Tests never run out of memory.",
  ["src/nx_alloc.c", "src/fast/fast_nonmax.c"], [("allocation functions", "src/nx_alloc.c"), ("growing arrays", "include/virg/nexus/nx_alloc.h NX_ENSURE_CAPACITY")],
  "alloc", "86 operations x every allocation x (once / from then on) = 4890 faults, 170 allocator calls, 578 reallocations, 1440 aligned blocks, 400 size products", "the same", "exhaustive over the allocation points of the listed operations; faults are injected at link time into the library's own calls, not into libpng, libjpeg, cairo or C++ new",
  wrap=["malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign", "strdup", "strndup"])
P("P41", "OpenGL helpers return complete objects and report every driver failure",
  "Shaders are compiled from exactly the given source as the asked type, programs linked with both shaders and buffers filled with the given bytes before they are returned; whatever the driver answers, an object that cannot be created or a failed compilation, link or validation is a fatal error that ends with the driver's log of any length, and driver debug messages are logged at the level of their severity. "
  "Over any history, each buffer keeps its own storage, binding changes only its target, and freeing deletes exactly that buffer. "
  "The perspective matrix shows points at the camera's pixels with the depth range mapped to -1..1, and the model-view-projection matrix is P V M, missing parts being neutral.",
  [I, H, F], "every driver answer and log length up to a bound, all histories of buffer operations, grids of cameras, all products of unit matrices", "Not tested at all.",
  ["src/GL/nx_gl.c", "src/GL/nx_gl_shader.c", "src/GL/nx_gl_program.c", "src/GL/nx_gl_buffer.c", "src/GL/nx_gl_projection.c"], [("compilation and linking", "src/GL/nx_gl_shader.c, src/GL/nx_gl_program.c"), ("buffers", "src/GL/nx_gl_buffer.c"), ("matrices", "src/GL/nx_gl_projection.c")],
  "gl", "every outcome x logs of 60 lengths up to 20000 (26000 calls), all 248832 histories of 5 of 12 buffer operations, 1350 debug messages, 6400 cameras, 7600 matrix products", "logs of 400 lengths, all 2985984 histories of 6", "exhaustive within the bounds against a model driver that replaces libGL at link time", wrap=["nx_log_formatted"], gl=True)

TOOLS = dict(wrap=["nx_sift_detector_compute_with_cache", "nx_sift_match_brute_force_with_cache", "nx_homography_estimate_norm_ransac", "nx_image_xsave", "nx_sift_detector_new", "nx_sift_detector_compute", "nx_usac_estimate_homography"],
             programs={"tools/nx_panorama_builder.c": "", "tools/nx_stitch_main.c": "nx_stitch_main", "tools/nx_harris_detector_main.c": "harris_main", "tools/nx_sift_detector_main.c": "sift_main", "tools/nx_fit_homography_main.c": "fit_main", "tools/nx_sift_benchmark_main.c": "bench_main"})
P("P42", "Panoramas hold every image, joined along its strongest chain of matches",
  "For every outcome of the pairwise matching, the panorama spans the bounding box of all images and shows each of them mapped by the product of the pairwise homographies along its cheapest chain of pairs to the image with the most inliers, later images over earlier ones and zero where there is none. "
  "A pair counts with at least 20 matches and 20 inliers (n of them cost exp(-n/1000)). Images that no chain connects, fewer than two images and unreadable ones are fatal errors, and nothing leaks.",
  [I, H], "all directed match graphs of up to 4 images and undirected ones of 5, with several strengths and placements", "The tool is not tested at all; the outcome depends on the whole graph of pairwise matches.",
  ["tools/nx_panorama_builder.c", "tools/nx_stitch_main.c"], [("match graph, reference image, chains of homographies", "tools/nx_panorama_builder.c: nx_panorama_builder_init, nx_panorama_builder_find_shortest_paths"), ("composition", "tools/nx_panorama_builder.c: nx_panorama_builder_composite")],
  "tools", "12096 outcomes for two images, the match graphs of three images with 4 strengths, all 4096 directed graphs of 4 images in 3 orders of strength, all 1024 undirected ones of 5 images, scaled, mirrored, turned and perspective views", "all placements of three images, 8 orders for 4 and 6 for 5 images", "exhaustive within the bounds; detection, matching and fitting are replaced at link time by every answer they can give", **TOOLS)

P("P43", "The command line programs report what the library computes for their options",
  "For every input and option, nx-harris-detector prints its options and the Harris keypoints as JSON and marks them in the named image, nx-sift-detector prints and saves the keypoints and descriptors of the detector set up by its --sift options, nx-sift-benchmark prints for each VGG sequence and pair the keypoints, ratio-tested matches and true inliers within 3, 2 and 1 pixels, and nx-fit-homography --benchmark-ransac the matches, true inliers and the statistics of inliers and validation errors (in pixels of the input, homogeneous points) over its runs. "
  "Detector and estimator get the given options, images and normalized matches. Unreadable or malformed inputs are fatal errors, and no program leaks memory or files.",
  [I], "all combinations of a few values of every option, with scripted detections and fits", "The programs have no tests; their output is the product users see.",
  ["tools/nx_harris_detector_main.c", "tools/nx_sift_detector_main.c", "tools/nx_sift_benchmark_main.c", "tools/nx_fit_homography_main.c"], [("detectors' reports", "tools/nx_harris_detector_main.c: main; tools/nx_sift_detector_main.c: main"), ("benchmarks", "tools/nx_sift_benchmark_main.c: evaluate_vgg_pair; tools/nx_fit_homography_main.c: ransac_benchmark")],
  "tools", "720 option combinations of the Harris tool, 360 runs of the SIFT tool, 1800 match sets, 1800 series of fits and 1700 option sets of the fitting tool, 40 datasets of 48 images", "longer series of fits, 8 datasets for all options", "exhaustive within the bounds; the programs run in the checker, detection and fitting are replaced at link time by scripted answers", **TOOLS)
