HEAD = '''# Model checking virg-nexus

virg-nexus is a sequential C11/C++11 library (plus a small Python package): parsers and tables (CSV, JSON, data
frames, options), containers and numerics, images (pixel operations, files, pyramids), keypoint detectors and
descriptors, geometry estimation, random sampling. It has no threads and no protocol, so the space to explore is not
schedules but **inputs, operation histories, fault points, crash points and configurations**. All checks explore the
*real code*: there is no abstract model of the implementation whose fidelity would have to be argued. What is modelled
is the environment (inputs, callers, callback answers, full disks, torn files) and the specification (a small
reference per property).

## How a property is decided

* `check.py <ID>` builds the library from /repo's working tree (the sources CMakeLists.txt lists, release
  configuration, AddressSanitizer, objects cached by content), links one harness of `harness/`, and runs it in 8
  shards. The harness enumerates a bounded space in a fixed order; nothing is sampled and no random number decides
  what is explored (`VERIF_SEED` is not used). Each enumerated case is identified by (group, index), published in a
  shared page before it runs so that crashes and hangs are attributable, and can be replayed alone.
* On every case the observable result of the real code is compared with an independent oracle: a reference
  implementation in the harness, a defining equation, or an invariant; plus AddressSanitizer (buffers are sized
  exactly, paddings poisoned), heap accounting (no case may leave memory behind), file descriptor accounting where
  files are involved, and a stall watchdog (a case that does not end is a violation).
* `NX_FATAL` is the library's error report: the harness installs its own fatal handler and turns "reports a fatal
  error" into an observable outcome. `exit` is wrapped at link time. Faults (full disk, unwritable targets) are real
  ones: RLIMIT_FSIZE of the process, /dev/full, directories; scripted random draws and callback answers use link-time
  wrapping (`--wrap`) of one function. There are no hooks in /repo.
* A suspected violation is confirmed by running the single case in a new process; only then `VIOLATION
  property=<ID> replay=<file>` is printed. `check.py <ID> --replay <file>` repeats it.
* Evidence (`evidence/<ID>.json`) counts distinct states (hashes of the observable state after steps), transitions
  (calls of the code under test) and cases per group, and keeps sample cases. "How model traces were validated
  against the implementation" is immediate: every trace *is* an execution of the implementation.
* Oracles judge behaviour, not text: comparisons of floating point results use tolerances or interval bounds wide
  enough for reordered or fused arithmetic, order of results is only compared where it is documented or relied upon,
  and decisions within rounding of a threshold may go either way.

Everything that is not a deciding step: `tools/mkseed.py` and `tools/runseeds.py` (planted bugs), `tools/mutate.py`
(mutation campaigns, used to find blind spots of the oracles).

`spec.py` is the single table from which properties.jsonl, MANIFEST.json, and the section below are generated
(`gen.py`). Times are for the quick tier on 8 cores after the library is built (about 20 s the first time).

## Properties

'''
COST = {}
ORACLE = {
 "P01": "An independent reference reader (records, quoting, type inference) written from the format rules; a text is accepted or refused by both, and the frames are compared cell by cell.",
 "P02": "A reference table (vectors of optional typed cells) executes the same operation; after every step all labels, types, sizes, cells and N/A flags are compared.",
 "P03": "Round trip: frame -> file -> frame must be the identity on labels, types and cells; numbers must come back bit for bit.",
 "P04": "An independent JSON parser decides acceptance and the tree; printed trees are parsed back by it and by the library.",
 "P05": "Round trip identity per value kind; for accessors the expected value or refusal from the type table; for logs the model is the list of appended records.",
 "P06": "Longest-match reference of each token function over the same text, including position, line and column bookkeeping.",
 "P07": "A reference option parser (names, types, defaults, repeated parses, refusal of unknown or incomplete arguments).",
 "P08": "The in-process Python package against a table of settings; YAML written is loaded with PyYAML and by the package.",
 "P09": "Reference codecs; all buffers have exactly the documented size under AddressSanitizer.",
 "P10": "A list-of-optional-strings model, compared after every operation; serialization round trip and every truncation.",
 "P11": "A byte-array model with ownership; AddressSanitizer catches double frees and stale pointers, heap accounting leaks.",
 "P12": "An independent SHA-256 whose constants are computed from the primes.",
 "P13": "Bit-by-bit definitions; brute-force search over the map with all ties enumerated.",
 "P14": "An edge-set model queried in every way the two representations offer.",
 "P15": "Sorting and long double summation.",
 "P16": "Defining equations (A x = b, U S V' = A, orthogonality, ordering) in long double, and direct formulas.",
 "P17": "Independent PNM/PNG encoders and decoders in the harness (zlib streams written directly), known pixel values; for lossy JPEG known flat and gradient images with tolerance.",
 "P18": "A writer that reports success must have left a file with exactly the bytes of the unconstrained run; with every file size limit in range.",
 "P19": "A pixel-array model with ownership flags; compared after every operation of the sequence.",
 "P20": "Double precision formulas per sample, saturated and truncated as documented.",
 "P21": "Sampling positions and interpolation weights in double precision, impulse responses for all positions.",
 "P22": "Direct two-dimensional convolution with the kernel definition; intervals for byte images.",
 "P23": "Level sizes, scales and an interval model of the reductions; results must not depend on earlier builds.",
 "P24": "The segment test written as the definition (all 16 rotations); score by binary search definition; non-maximum suppression over all neighbours.",
 "P25": "Score image from its formula; keypoints by definition; adaptive threshold by the documented factors.",
 "P26": "Bits recomputed from the pixels at the rounded rotated offsets; acceptance by testing every sample.",
 "P27": "The environment answers every callback with every possible answer; the oracle replays the answers and computes the best admissible hypothesis.",
 "P28": "Known ground-truth matrices; inliers recomputed in long double; draws scripted by wrapping the sampler.",
 "P29": "Independent SFMT-19937 and polar method.",
 "P30": "Long double matrix products and the defining identities.",
 "P31": "The text split by definition; directory contents created by the harness in a scratch directory.",
 "P32": "Reference tables and formulas.",
 "P33": "An independent double precision SIFT (extrema, refinement, edge test, orientation histogram, descriptor) evaluated on the scale space, with margins: what is certain must be found, what is found must be possible. Plus ground truth that needs no reference: blobs, symmetries, units, histories.",
 "P34": "Exhaustive nearest neighbours; equality of cached and uncached results; every prefix of every cache file as the state a crash leaves behind.",
 "P35": "The same operations issued directly to the installed cairo give the expected picture or document (compared byte by byte, the creation time stands still); annotations are compared with a cairo drawing of the documented shapes within 4 grey levels.",
 "P36": "Interval model: each truncating bilinear stage and each blur pass maps an interval per pixel to an interval, the result has to lie inside; sizes and transforms are recomputed in double precision; warps after any history must equal those of a fresh processor.",
 "P37": "The harness lays out the dataset directory, so what each field must be is known; damaged layouts must end in the fatal handler.",
 "P38": "Each operation has its expected text; the concatenation must equal what arrived on the stream or the (link-time replaced) pipe, up to white space and empty commands.",
 "P39": "A two-variable model (verbosity, installed fatal function) predicts after every operation of a history which line appears on standard error, which function is called with which arguments, and whether and with which code the process would exit (exit is replaced at link time).",
 "P40": "Each operation first runs without faults, which counts its allocations and hashes its result; then every allocation in turn fails (alone, or with all later ones) and the outcome has to be a fatal error, the documented failure return, or the same hash. AddressSanitizer decides about crashes. Allocator functions are compared with a byte model.",
 "P41": "The OpenGL entry points are replaced by a model driver that keeps objects, bindings, compile and link results and records every call; buffers, shaders, programs, projections and error reports are compared with what the driver holds after every sequence of operations within the bounds.",
 "P42": "Detection, matching and robust fitting are replaced at link time by scripted answers, and every match graph within the bounds is one script; a reference (exhaustive cheapest chains, products of homographies in double precision, a painter's composition) predicts size and pixels of the panorama the real program saves.",
 "P43": "The programs' main functions run inside the checker with scripted keypoints, descriptors and homographies; reference matching, inlier counts, statistics and a small JSON reader predict every number they print and every file they save, and the parameters and normalized matches they hand to the library are compared on the way.",
}
TAIL = '''
## Genuine defects found

Each was demonstrated against the real code by the named check, repaired by a minimal `fix:` commit in /repo and
listed in known_findings.txt (`fixed:` lines suppress nothing). The checks report them again when the commit is
reverted. One defect is recorded instead of repaired:

* **P03, known finding `single-column-na`**: a data frame with a single column that contains N/A is saved as CSV with
  an empty line for the N/A record, which the loader refuses. The file format has no other spelling for a lone N/A
  (an empty quoted field is the empty string), so a repair would change the format; the check prints KNOWN-FINDING for
  exactly this class and reports any other round-trip failure.

## Behaviour deliberately not claimed

Preconditions or under-specified corners that the checks avoid, so that neither a repair nor a refactoring there
raises an alarm:

* nx_string_array_write with NULL elements; corrupt negative sizes in string array files; nx_getline's return value at
  EOF; negative positions in json array access; `\\u` escapes (unsupported) and text after a JSON document; doubles in
  JSON have six digits; `\\r` in CSV is an ordinary character; nx_rotr by 0.
* Derivatives of images with a dimension below 2, in-place derivatives, smoothing
  of byte images truncates between the passes (modelled by intervals), convert_dtype on colour images, loading into
  float images, colour map values outside [0,1], the fixed-background warp of the exact last row and column.
* A truncated JPEG is completed by libjpeg itself and loads; only PNG and PNM truncations are claimed to be refused.
* BRIEF radii below 5 (the pattern generator may not end), near-singular symmetric solves, 4-point estimators with the
  origin on the vanishing line, RANSAC on more than 100 (homography) or 200 (fundamental) points, which may stop early,
  K that is not upper triangular.
* SIFT border distances below 3; exact ties of scale-space extrema; corrupt (not truncated) cache files; the option
  default of --sift-double-image differs from the struct default (FALSE/TRUE) and is not claimed either way.
* Gnuplot data frames with N/A; Temple Color names that are a prefix of another name; affine warps with tilt below 1 and
  the outermost pixel ring of a warp; blur for scales below 1 (the code blurs only when scale > 1); write errors of PDF and
  SVG documents at close; annotator colours of levels above 6 (random).
* The OpenGL helpers are decided against a model driver (P41), because there is no display here; windows (SDL/GLFW applications) are not built; the stereo matcher tool is an unfinished prototype (its refinement step treats the success of the solver as fatal) and is not claimed; wall-clock timers have no bounded-exhaustive property.

## False alarms corrected while building

P26 radius bound (offsets may reach the radius itself), P28 singular and collinear test data, quads with the origin at
infinity, rounding near the horizon of normalized RANSAC, large fundamental sets (early stop); P17/P18 descriptor
accounting (the AddressSanitizer watchdog opens descriptors of its own; now retried); P33 extrema that drift up to 7
pixels during refinement, two extrema that end at the same place, blobs placed exactly between pixels (ties), and
orientation windows cut by the image border under rotation. P35 PDF creation dates (time now
stands still in the harness). In each case the property text or the oracle was corrected,
never the tolerance for the failing case alone.

## Planted bugs

%s
Mutation campaigns (`tools/mutate.py`) over the anchored files were used to find further blind spots; surviving mutants
were inspected and either are equivalent, concern behaviour not claimed above, or led to a stronger check.
'''
FIXED = {
 "9e792ab": "P04", "f9fba52": "P01", "bfbd7e6": "P03", "d60193e": "P01", "7d3936d": "P09", "7e33a0c": "P09", "ebc3a81": "P06", "e9b4d66": "P18",
 "b3e4355": "P20", "9d8550d": "P20", "92d8634": "P22", "36dd5e9": "P21", "b16856c": "P15", "3f7d83d": "P15", "457d645": "P14", "6edde58": "P26", "7327caf": "P05",
 "e71a3aa": "P28", "4304a64": "P28", "008e3df": "P29", "e6814f8": "P29", "b91842d": "P17", "fd7c722": "P21", "b523eec": "P21", "a4a4e08": "P21", "7dcf6ae": "P10",
 "e22ef1a": "P30", "0092826": "P28", "2e9b9ff": "P28", "e5a3478": "P21", "2ad1906": "P17", "a815fdf": "P17", "1a3e002": "P03", "25576cc": "P10", "77a949c": "P08",
 "dde5b9e": "P08", "7bba41c": "P23", "7470edf": "P20", "75fd13a": "P32", "f8dae47": "P17", "7415485": "P17", "2912600": "P17", "0cd9cfc": "P17", "b08c965": "P34",
 "f756177": "P34", "743ff26": "P18", "2a6289a": "P34", "c17c44e": "P26", "9dad442": "P25", "c2da071": "P28", "4a7a29a": "P28", "6a5a272": "P28", "3e63125": "P30",
 "e421a57": "P33", "6931640": "P34", "59a2046": "P33", "58b3d46": "P33", "c19c195": "P33",
 "f9f57e4": "P35", "a0c8d5a": "P35", "3e169fb": "P35", "f34dd18": "P38", "06e4dfb": "P37", "5c8db82": "P22", "7c61294": "P36",
 "d458fde": "P22", "c51adce": "P40", "0b99631": "P40", "02cff7b": "P09", "c5c9857": "P10", "05a191e": "P04", "529c1a4": "P10",
 "bd4ba5d": "P08", "01365bb": "P08", "49bf272": "P08", "5ba7922": "P04", "b11d203": "P04", "c5098ea": "P05", "e71a9bf": "P39", "173c8a6": "P42", "a513ff8": "P42", "045d15c": "P42", "4d1b04f": "P43", "68567eb": "P43"}
