"""What decides each property: the suites that are built and run, and how the result is reported."""
BASE = ["basiclog", "basicsys"]
MATH = BASE + ["basicmath"]
IMG = MATH + ["basicimg"]
CHECKS = {}
def check(pid, level, technique, note, rule, runs, assumptions=()):
    CHECKS[pid] = dict(level=level, technique=technique, note=note, rule=rule, runs=runs, assumptions=list(assumptions))
def run(harness, variant="fast", modules=IMG, quick=60, thorough=600, **k):
    return dict(harness=harness, variant=variant, modules=modules, quick=quick, thorough=thorough, **k)

STUB = "the OpenCV functions the module links against are stand-ins; the properties do not go through them"
OMP = "OpenMP parallel regions run on the harness's own runtime (static scheduling as the compiler emits it), not on libomp"

check("M01", "exploration", "exhaustive bounded enumeration of images and settings on the real extractors, against the MSER definition as executable oracle",
      "Every image of the listed shapes and alphabets, and complete structured families beyond internal capacities; nothing is claimed for images outside them.",
      "a case is one image with the whole grid of settings and all four extractors; images are enumerated completely per shape and alphabet; all are non-trivial (regions are compared pixel by pixel with the reference)",
      [run("s_m01", quick=120, thorough=840)], [OMP])

check("M02", "exploration", "exhaustive bounded enumeration of images and thread numbers on the real extractors, each against the one-thread result",
      "Every image of the listed shapes and alphabets under every supported thread number; nothing is claimed for images outside them.",
      "a case is one image extracted with every setting of the grid and every supported thread number of both algorithms; all cases are non-trivial",
      [run("s_m02", quick=120, thorough=840)], [OMP])

check("M03", "model_checking", "stateless exploration of the real extractors under a controlled scheduler: every interleaving of the workers at lock operations and worker ends, happens-before race detection on every memory access",
      "Parallel regions of the listed images; with no unsynchronised conflicting pair of accesses in an execution, every interleaving with the same lock order is equivalent to it, so lock orders and worker orders are all that has to be enumerated.",
      "a case is one schedule, or one image with every parallel configuration in several worker orders; each logs every memory access of the workers",
      [run("s_m03", "sched", quick=120, thorough=840)], [OMP, "accesses inside libc and libc++ functions that are not inlined are seen only for memcpy, memmove, memset and allocation"])

check("M04", "exploration", "exhaustive enumeration of operation sequences on one real extractor, each result against that of a fresh extractor",
      "Every sequence of three operations over the listed images, settings, thread numbers and cache clears; nothing is claimed for longer histories.",
      "a case is one sequence of operations; all cases are non-trivial (each ends with a comparison with a fresh extractor)",
      [run("s_m04", quick=120, thorough=840)], [OMP])

check("M06", "exploration", "exhaustive bounded enumeration of images and settings on the real comparison extractors, against the MSER definition and the component tree",
      "Every image of the listed shapes and alphabets and the listed structured images; nothing is claimed for images outside them.",
      "a case is one image (dense or a view of a larger matrix) with the whole grid of settings; all cases are non-trivial",
      [run("s_m06", quick=120, thorough=840)], [OMP])

FS = "the file system and the C library are those of the machine the check runs on; file buffers are also run on in-process devices whose failures the check chooses"
check("S01", "exploration", "exhaustive bounded enumeration of documents on the real writer and reader, each written and read through all four kinds of buffer, under AddressSanitizer",
      "Every document of the listed sizes over the listed leaf values; nothing is claimed for larger documents beyond the listed families.",
      "a case is one document; all are non-trivial except a root that the format cannot tell from an empty one, which is left out",
      [run("s_s01", "asan", BASE, quick=120, thorough=840)], [FS])
check("S02", "model_checking", "exhaustive enumeration of operation sequences on the real buffers against a byte-sequence model, and of all failure points of the device under them",
      "Every sequence of the listed operations up to the depth of each group; device failures at every one of its first calls.",
      "a case is one operation sequence on one kind of buffer (with one failure point in the failure groups); trivial cases are those in which the chosen failure was never reached",
      [run("s_s02", "asan", BASE, quick=120, thorough=840)], [FS])
check("S04", "exploration", "exhaustive bounded enumeration of texts, tags, words and costs on the real helpers against direct definitions, under AddressSanitizer",
      "Every text and word of the listed alphabets and lengths, and listed long words; the C locale.",
      "a case is one text with its tag, or one pair of words under all costs; all cases are non-trivial",
      [run("s_s04", "asan", BASE, quick=120, thorough=840)], [])
check("S06", "exploration", "exhaustive enumeration of all Unicode characters and of bounded sequences of boundary characters, bytes and halves of characters through the real conversions, against the tables of the Unicode standard, under AddressSanitizer",
      "Every character; every sequence of the listed boundary values up to the length; the locales C, POSIX, C.UTF-8 and one that is not installed.",
      "a case is one block of characters, one sequence, or one setting of locales; an empty text is trivial",
      [run("s_s06", "asan", BASE, quick=120, thorough=840)], ["Texts hold no zero character; wide characters have 32 bits here."])
check("M07", "model_checking", "exhaustive enumeration of operation sequences on real results and extractors against a model of values, and of the pictures of all regions of enumerated images, under AddressSanitizer",
      "Every sequence of three (thorough: four) operations over two images; pictures of every region of the listed images under all storage kinds.",
      "a case is one sequence of operations, or one image drawn under every storage setting; a sequence is non-trivial when one of its results holds several regions",
      [run("s_m07", "asan", quick=120, thorough=840)], [OMP, STUB])
check("M08", "exploration", "exhaustive bounded enumeration of images, sizes, layouts and settings on the real extractors, every access checked by AddressSanitizer, every extraction repeated over differently filled fresh memory, every allocation counted",
      "Every size up to the bound with the listed contents, every image of the listed small shapes, and listed images that need the most memory.",
      "a case is one size with all contents and settings, or one image with all settings; all cases are non-trivial",
      [run("s_m08", "asan", quick=120, thorough=600), run("s_m08", "fast", quick=120, thorough=300)], [OMP])
check("M10", "exploration", "exhaustive bounded enumeration of images and masks on the real extractors that take masks, against the MSER definition on the admitted pixels, under AddressSanitizer",
      "Every image and mask of the listed shapes and listed structured images and masks.",
      "a case is one image with one mask (or all rectangles or values) and the whole grid of settings; all cases are non-trivial",
      [run("s_m10", "asan", quick=120, thorough=840)], [])
check("S03", "model_checking", "exhaustive enumeration of path texts against their definitions and of small directory trees and operations on a real file system against a model of the tree, as an unprivileged user in a scratch directory",
      "Every path text up to the length, every tree of the listed shapes, every combination of source, target and name; one file system, no concurrent changes to it.",
      "a case is one text, or one tree with one operation; a deletion of an empty directory is trivial",
      [run("s_s03", "asan", BASE, quick=120, thorough=840)], [FS])
check("T01", "model_checking", "exhaustive enumeration of sequences of view, copy and write operations on real matrices against a model in which a view is a list of cells, under AddressSanitizer",
      "Every sequence of the listed operations up to the depth of each group, from the listed shapes, channel numbers and depths.",
      "a case is one sequence of operations, or one pair of depths or shapes; all cases are non-trivial",
      [run("s_t01", "asan", MATH, quick=120, thorough=840)], [])
check("T02", "exploration", "exhaustive enumeration of operations, depths, shapes, numbers of channels and kinds of views of all operands on the real matrix operations, against their definition on the elements, under AddressSanitizer",
      "Every combination of the listed operations, shapes and kinds of views with fixed values; every small symmetric matrix.",
      "a case is one combination of operation, depth, shape, channels and views; all cases are non-trivial",
      [run("s_t02", "asan", MATH, quick=120, thorough=600)], [])
check("T05", "exploration", "exhaustive enumeration of shapes, windows, strides, kinds, depths, views and small contents on the real pooling and its reverse, against their definition on the elements, under AddressSanitizer",
      "Every combination of the listed shapes with every window and stride up to the bound; every content of the small matrices over three values.",
      "a case is one matrix with one window and stride under all kinds of pooling and their reverse; all cases are non-trivial",
      [run("s_t05", "asan", MATH, quick=120, thorough=600)], [])
check("T04", "exploration", "exhaustive enumeration of depths, shapes, views, buffers and small documents on the real writer and reader of matrices, under AddressSanitizer",
      "Every combination of the listed shapes, depths, channels, views and buffers with boundary values; every document of up to three matrices.",
      "a case is one matrix through four kinds of buffer, one document, or one value; all cases are non-trivial",
      [run("s_t04", "asan", MATH, quick=120, thorough=600)], [FS])
check("T07", "exploration", "exhaustive enumeration of short sequences, orders and directions on the real sorting, selection and dynamic programming, against brute force, under AddressSanitizer",
      "Every sequence over the listed values up to the length bound; every order of up to nine (thorough: ten) distinct elements; every choice of items and limits for the bag.",
      "a case is one sequence (or pair of sequences, or list of items) through all functions of its group; non-trivial are those with more than one element",
      [run("s_t07", "asan", MATH, quick=120, thorough=800)], [])
check("T08", "exploration", "exhaustive enumeration of boundary values, short vectors, shapes and rectangles on the real helpers, against their definition, under AddressSanitizer",
      "Every combination of the listed boundary values, every vector over the listed values up to the length bound, every rectangle with every point or rectangle around it within the bound.",
      "a case is one tuple of values, one vector or one rectangle through all functions of its group; all but empty vectors are non-trivial",
      [run("s_t08", "asan", MATH, quick=120, thorough=600)], [])
check("T09", "exploration", "exhaustive enumeration of raw numbers of the C library (boundaries and evenly spaced parts, all combinations for permutations and samples) through the real generators, under AddressSanitizer",
      "Every listed range, parameter and shape with all edge values and evenly spaced raw numbers; every combination of equal parts for permutations and samples up to the bound.",
      "a case is one range, parameter pair or shape with all its raw numbers; non-trivial are all but empty samples and permutations",
      [run("s_t09", "asan", MATH, quick=120, thorough=600)], ["The raw numbers of rand() are replaced by enumerated ones; that those of the C library are uniform is assumed."])
check("T06", "model_checking", "exhaustive enumeration of shapes, layouts, channels, boundaries, strides, arrangements and results on the real matrix product, convolution and blur in the configuration with MKL (on a stand-in that computes by MKL's documentation and refuses what it refuses), against their definition, under AddressSanitizer; every order of the workers with detection of unordered accesses; recorded programs with products against the chain rule",
      "Every size, view, stride, boundary and arrangement of the listed ranges; every recorded program of the listed operations up to three steps that contains a product or convolution.",
      "a case is one combination (with all views of the second operand), or one program; programs whose shapes do not fit are trivial",
      [run("s_t06", "mkl", quick=120, thorough=500, args=["--only", "!workers"]), run("s_t06", "mklsched", quick=60, thorough=120, args=["--only", "workers"]), run("s_t10", "mkl", MATH, quick=120, thorough=400, leaks=True, args=["--only", "product"])],
      ["MKL is not installed: a stand-in computes by its documentation (arrays with a negative stride are given by their lowest address, as the repository's own tests rely on)", OMP])
check("T10", "model_checking", "exhaustive enumeration of recorded computations up to three steps, and of histories of computing, changing stages, asking and resetting, on the real derivative recorder against the chain rule on single elements, under AddressSanitizer",
      "Every computation of one step with any of the 67 operations (nine shapes, six kinds of memory, two depths), of two steps with any (thorough: views and the other depth for 24 of them), of three steps with 12 (thorough: 24) operations, each with the derivative of the last two results by every matrix in it; every history of three (thorough: four) steps.",
      "a case is one computation with all its derivatives, or one history; those whose shapes do not fit or that have no derivative are trivial",
      [run("s_t10", "asan", MATH, quick=150, thorough=850, leaks=True)], ["Values are compared within the precision of the depth times the size of the derivative."])
check("T11", "model_checking", "exhaustive enumeration of histories of adding, giving back, resetting, beginning again, clearing and visiting on the real block memory against a model of slots, under AddressSanitizer",
      "Every history of the listed operations up to the depth, from six ways to begin, for plain, padded and constructed elements.",
      "a case is one history; all that are possible are non-trivial (giving back what is not there ends a case)",
      [run("s_t11", "asan", MATH, quick=120, thorough=800)], [])
check("T12", "model_checking", "exhaustive enumeration of histories of taking, copying, viewing, dropping and writing matrices on the real cache against a model of buffers, under AddressSanitizer; stateless exploration of threads that use it under a controlled scheduler with race detection",
      "Every history of the listed operations up to the depth with two or three matrices; two threads with two (thorough: three) operations and three threads with one under every interleaving of their locks up to one (thorough: two) preemptions.",
      "a case is one history, one pair of kinds of matrices, or one schedule; histories that are not possible are trivial",
      [run("s_t12", "asan", MATH, quick=120, thorough=500), run("s_t03", "sched", MATH, quick=120, thorough=300, args=["--only", "cache"])], [])
check("T03", "model_checking", "stateless exploration of threads sharing real matrices under a controlled scheduler: every interleaving at locks and atomics up to a preemption bound, happens-before race detection on every access, all memory accounted for",
      "Two threads with one or two operations and three with one, from the listed operations, up to three, one and one preemptions (thorough: three, two, two); unsynchronised accesses are reported whatever the interleaving, so finer switch points add nothing.",
      "a case is one schedule of one program; all are non-trivial",
      [run("s_t03", "sched", MATH, quick=120, thorough=800, args=["--only", "matrices"])], ["accesses inside libc and libc++ functions that are not inlined are seen only for memcpy, memmove, memset and allocation"])
check("L01", "model_checking", "exhaustive enumeration of messages, filters, levels, time zones and times, and of histories of logging to files with changes of directory, limits and clock against a model of the files; stateless exploration of threads that log under a controlled scheduler with race detection",
      "Every combination of the listed levels, tags, lengths, filters, zones and times; every history of the file logger up to the depth; every program of two threads with two operations and three with one under every interleaving of locks up to one (thorough: two) preemptions.",
      "a case is one combination, one history or one schedule; histories that are not possible are trivial",
      [run("s_l01", "asan", BASE, quick=120, thorough=600, args=["--only", "!threads"]), run("s_l01", "sched", BASE, quick=120, thorough=240, args=["--only", "threads"])], [FS])
check("S05", "model_checking", "exhaustive enumeration of histories of counting, timing and testing against a model, and stateless exploration of threads that count under a controlled scheduler with race detection",
      "Every history of beginning, counting, ending and changing the logger up to length 4 (thorough 5); every history of a timer up to that length on a clock of ours, for every combination of levels; every program of two threads with two operations and three with one under every interleaving of locks up to two preemptions.",
      "a case is one history or one schedule; all are non-trivial",
      [run("s_s05", "asan", BASE, quick=60, thorough=400, args=["--only", "!threads"]), run("s_s05", "sched", BASE, quick=60, thorough=300, args=["--only", "threads"])], ["gettimeofday is replaced by a clock of ours"])
check("C01", "exploration", "exhaustive enumeration of small images, masks, starting points and kinds of views on the real component extraction against flood fill by definition, and of histories of copying components, under AddressSanitizer",
      "Every image of the listed shapes over two or three values with 1, 3 and 4 channels, every mask, rectangle and value of small images in four pixel types, all with both neighbourhoods; listed large images; every history of copies up to the depth.",
      "a case is one image, one mask, or one history; all are non-trivial",
      [run("s_c01", "asan", IMG, quick=120, thorough=600)], [STUB])
check("C02", "exploration", "exhaustive enumeration of small fields of gradient magnitudes and directions, small pictures, chains of weak pixels, kinds of views and histories of one detector on the real edge detection against its definition, under AddressSanitizer",
      "Every field of the listed shapes and magnitudes with the listed directions, every chain up to the length, every picture of the listed shapes; listed large pictures.",
      "a case is one field or picture with all its settings, or one history; chains that leave the picture are trivial",
      [run("s_c02", "asan", IMG, quick=60, thorough=600)], [STUB])
check("C03", "exploration", "exhaustive enumeration of small fields of gradients, of settings on larger ones, of kinds of views and histories of one detector on the real detection with local thresholds against its definition, under AddressSanitizer",
      "Every field of the listed shapes and patterns over the listed magnitudes; listed larger fields with every combination of the listed settings. Fields where a magnitude equals a computed threshold are left out.",
      "a case is one field with its settings, or one history; non-trivial are those that leave an edge",
      [run("s_c03", "asan", IMG, quick=60, thorough=600)], [STUB])
check("C05", "exploration", "exhaustive bounded enumeration of picture shapes, depths, channels, layouts, targets and settings through the real helpers against direct definitions, under AddressSanitizer, with every allocation counted",
      "Every picture shape up to the bound, all depths OpenCV knows, up to five channels, eight kinds of views and six kinds of targets; OpenCV's own operations are stand-ins (nearest resizing, integer color weights, whole kernels).",
      "a case is one shape with its channels, layout and target; all cases are non-trivial",
      [run("s_c05", "asan", IMG, quick=120, thorough=840)], [STUB])
check("C04", "exploration", "exhaustive enumeration of small sets of edge pixels, directions, shapes, kinds of views and lists of widths on the real stroke width transform against its definition, under AddressSanitizer",
      "Every set of edge pixels of the listed shapes with the listed patterns of gradients, every pair of listed directions in the listed places; directions whose pixels depend on rounding are left out.",
      "a case is one picture with its settings; non-trivial are those with a ray",
      [run("s_c04", "asan", IMG, quick=60, thorough=600)], [STUB])
