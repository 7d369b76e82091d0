#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text of every property lives here."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOIMG = "No stable test links the image module at all; its own demo runs one photograph and compares nothing."
I = "basicimg/src/"; H = "basicimg/include/"

prop("M01", "Fast MSER extractors report exactly the stable extremal regions",
 "For every 8-bit single-channel image and every parameter setting (delta, stability bound, non-maximum-suppression similarity, duplicate bound, minimum and maximum area, polarity), Fast MSER V1, Fast MSER V2 and the linear-time extractors CV-MSER+ and MS-MSER each report exactly the regions that the MSER definition selects from the image's component tree: same pixel sets, same grey levels, none missing, none extra, none twice. With delta 0 (or an infinite stability bound, no suppression and a negative duplicate bound) that is every extremal region of admissible area except the whole image. This holds with 4-neighbour and 8-neighbour connectivity.",
 ["inputs", "configurations"], "all images up to the bound (every image of small shapes over small grey alphabets, plus complete families of structured larger images that cross internal block and pool capacities) times a grid of parameter settings, both polarities",
 NOIMG + " The definition is over every image and setting; internal capacities (256 nested levels, block pools, merge lists) are crossed only by particular images.",
 [I+"img_fast_mser_v1.cpp", I+"img_fast_mser_v2.cpp", I+"img_linked_linear_mser.cpp", I+"img_ms_mser.cpp", I+"img_mser_base.cpp", H+"img_mser_base.h"],
 [("flooding with a level stack builds the component tree", I+"img_fast_mser_v1.cpp:build_tree"), ("partition trees connected and merged", I+"img_fast_mser_v2.cpp:merge_tree"), ("variation, nms and duplicate removal", I+"img_linked_linear_mser.cpp:recognize_mser")],
 observe=["img_mser_base::extract result: size, grey level, decoded pixel list of each MSER"])

prop("M02", "Extraction result does not depend on the number of threads",
 "For every image and parameter setting, the set of regions extracted by Fast MSER V1 with 2, 4, 8, 16 or 32 threads, and by Fast MSER V2 with 4 or 32 threads, is the set extracted with the default thread number: partitioning the image never loses, splits, duplicates or alters a region, including regions that touch or span several partitions.",
 ["inputs", "configurations"], "all images up to the bound, placed so that regions cross, touch or fill every partition boundary of each supported thread number, times parameter settings",
 NOIMG + " A lost link between two partitions shows only for regions meeting at a particular border position.",
 [I+"img_fast_mser_v1.cpp", I+"img_fast_mser_v2.cpp", H+"img_fast_mser_v1.h", H+"img_fast_mser_v2.h"],
 [("per-patch trees", I+"img_fast_mser_v1.cpp:process_tree_patch"), ("connecting patch borders", I+"img_fast_mser_v1.cpp:connect")],
 observe=["img_mser_base::extract result for each set_parallel_thread_number"])

prop("M03", "Parallel extraction is free of races and schedule independent",
 "Under every interleaving of the worker threads, one extraction with the parallel extractors yields the same regions with the same pixels, and no two workers touch the same memory in conflicting ways without synchronisation.",
 ["schedules", "inputs"], "every Mazurkiewicz-inequivalent interleaving of the parallel regions' workers at the granularity of single memory accesses, for each image of the bound and each supported thread number",
 NOIMG + " A test run sees one schedule; a race between neighbouring patches needs a particular overlap.",
 [I+"img_fast_mser_v1.cpp", I+"img_fast_mser_v2.cpp"],
 [("every worker owns one patch and its own pools", I+"img_fast_mser_v1.cpp:#pragma omp parallel for"), ("patches padded so that borders are not shared", I+"img_fast_mser_v2.cpp:init_comp")],
 observe=["memory accesses of each worker", "result of extract"])

prop("M04", "An extractor's result depends only on image and parameters, not history",
 "Extracting from an image gives the same result whatever was done with that extractor object before: earlier images of any size, other parameters, other thread numbers, cache clearing, or a reused result object. Repeating an extraction repeats its result.",
 ["histories"], "all sequences up to a depth of extract calls over a set of images of different shapes, parameter changes, thread-number changes and cache clears on one extractor",
 NOIMG + " Stale buffers show only after particular sequences of image sizes.",
 [I+"img_fast_mser_v1.cpp", I+"img_fast_mser_v2.cpp", I+"img_linked_linear_mser.cpp", I+"img_ms_mser.cpp", I+"img_origin_mser.cpp", I+"img_opencv_mser.cpp", I+"img_opencv3_mser.cpp", I+"img_vlfeat_mser.cpp"],
 [("buffers reallocated when the image area changes, otherwise reset", I+"img_linked_linear_mser.cpp:allocate_memory"), ("clear_memory_cache", H+"img_mser_base.h")],
 observe=["result of extract on a used extractor against a fresh one"])

prop("M06", "Comparison extractors report true extremal regions",
 "For every 8-bit single-channel image (dense, or a view of a larger image) and every setting, the original MSER extractor reports exactly the regions the MSER definition selects, the whole image counting as a region. The OpenCV 3 port reports only extremal regions of the interior of the image (the one-pixel frame is left out), with their grey level, of admissible size, of the polarity asked for, none twice, and every one of them when the settings suppress nothing. The older OpenCV port reports regions whose size, bounding box and distinct pixels agree; no extractor changes its source image.",
 ["inputs", "configurations"], "all images up to the bound (every image of small shapes over small grey alphabets, structured larger images) times a grid of settings, both polarities, dense and strided sources",
 NOIMG,
 [I+"img_origin_mser.cpp", I+"img_opencv3_mser.cpp", I+"img_opencv_mser.cpp", H+"img_origin_mser.h", H+"img_opencv3_mser.h"],
 [("pixels in grey order joined by union-find", I+"img_origin_mser.cpp:build_tree"), ("component tree with growth history", I+"img_opencv3_mser.cpp:extract_pixel")],
 observe=["result of extract"])

prop("M07", "A result is a value: copies and later work never change it, every region draws",
 "A result, once reported, keeps exactly the regions, grey levels, boxes and points it was given, whatever happens to the extractor (further extractions, cache clearing, destruction), to the source image, or to the results it was copied to, assigned from (itself included) or moved within a container; regions with points of their own copy deeply, and their memory is given back with the last result holding it. The list of regions names every region once, dark ones first, and the picture of a region, also when written to files of a directory that did not exist, shows exactly its pixels, centred in the square around its bounding box, whatever way its points are stored.",
 ["histories", "inputs", "configurations"], "all sequences of extractions, copies, assignments, destructions and cache clears over three results up to a depth; every region of all small images and of structured larger ones under all storage settings",
 NOIMG + " Results share blocks of points between regions, and refer to other regions by position; only particular copies or storage settings go wrong.",
 [I+"img_mser_base.cpp", H+"img_mser_base.h", I+"img_mser_helper.cpp"],
 [("points of copied results moved to the copy's memory", I+"img_mser_base.cpp:operator="), ("drawing by storage kind", I+"img_mser_helper.cpp:image_from_mser")],
 observe=["decoded regions of every result after every operation", "pixels of the pictures"])

prop("M08", "Extraction is memory safe and gives all its memory back",
 "Extracting from an 8-bit single-channel image of any size and row distance, with any supported extractor, thread number and setting, reads no byte outside the image's pixels and its own memory, writes only its own memory, and leaves the image unchanged. The result never depends on memory that was not written before or on the distance between rows, and all memory is given back when result and extractor are gone. The extractors meant are both Fast MSER versions, CV-MSER+, MS-MSER, the original extractor and the two OpenCV ports.",
 ["inputs", "configurations"], "all image sizes up to the bound with several contents, all images of small shapes, images that need the most memory; dense images and images with forbidden gaps between rows; several fillings of fresh memory",
 NOIMG + " An access one pixel past a row is invisible in a dense photograph.",
 [I+"img_fast_mser_v1.cpp", I+"img_fast_mser_v2.cpp", I+"img_linked_linear_mser.cpp", I+"img_ms_mser.cpp", I+"img_origin_mser.cpp", I+"img_opencv_mser.cpp", I+"img_opencv3_mser.cpp"],
 [("buffers sized from the image", I+"img_fast_mser_v1.cpp:allocate_memory"), ("frames around the pixels", I+"img_linked_linear_mser.cpp:allocate_memory")],
 observe=["every memory access", "allocations", "results"])

prop("M10", "Masks restrict extraction to the admitted pixels",
 "With a mask (an image of zeros and ones, a rectangle, or a grey value to leave out) the linear-time extractor CV-MSER+ and the original extractor report only regions of admitted pixels, and exactly those the MSER definition selects: excluded pixels separate regions and never belong to one; areas are bounded relative to the whole image. For the original extractor every connected part of the admitted pixels counts as a region; for CV-MSER+ excluded pixels count as brighter (for the other polarity darker) than all others, and a rectangle as an image of its own. A mask that admits nothing gives an empty result, and masks and images may be views of larger images.",
 ["inputs", "configurations"], "all masks of all images up to the bound, all rectangles, all values, structured masks of structured larger images, times a grid of settings; dense and strided sources and masks",
 NOIMG + " No demo passes a mask.",
 [I+"img_linked_linear_mser.cpp", I+"img_origin_mser.cpp", H+"img_connected_component.h"],
 [("excluded pixels at a level above all", I+"img_linked_linear_mser.cpp:pre_process_image"), ("bounding rectangle of the admitted pixels", I+"img_origin_mser.cpp:allocate_memory")],
 observe=["result of extract with a mask"])

SY = "basicsys/src/"; SH = "basicsys/include/"
prop("S01", "JSON documents read back exactly as they were written",
 "Every document written with the JSON writer (nested maps with distinct keys and sequences of texts, booleans, integers and reals, whose texts avoid the reserved characters) is read back with the same structure, order, names and values, from memory or file, in text or binary form, by key, by index, by iteration in both directions, and into vectors and maps, whatever was read before. Integers of every width survive exactly when read as the type they were written as; reals are exact in binary and to their printed decimals in text; in text form a sequence holds nodes of one kind (plain values, maps or sequences).",
 ["inputs", "histories"], "all documents up to a number of nodes and a depth over a small set of texts, all pairs of boundary values of every type, every character, large and deep documents, several documents in one buffer; four kinds of buffer; every way of reading",
 "The test writes one document and looks at a handful of its values; what breaks depends on the shape of the document, the width of a number or the position an earlier read left.",
 [SY+"sys_json.cpp", SH+"sys_json.h", SY+"sys_buffer.cpp"],
 [("text form told apart by tabs and line ends", SY+"sys_json.cpp:text_load_struct_info"), ("binary form with sizes patched afterwards", SY+"sys_json.cpp:post_process_map_seq")],
 observe=["values, names, sizes and order given by the reader"])

prop("S02", "Buffers keep bytes and position exactly and report every failure",
 "Whatever is written to a byte or text buffer, in memory or in a file, by any sequence of writes and seeks within the data, ends up there exactly, and reading any sequence of values, texts, lines and seeks gives exactly those bytes, position, size and end; appending keeps what a file held and closing releases the file. A read past the end is reported and moves nothing, and a file that cannot be opened or a device that fails is always reported by the status by the time the buffer is closed, never as data that is silently lost or wrong.",
 ["histories", "fault_sequences"], "all sequences of writes and seeks, and of reads and seeks, up to a depth on six kinds of buffers against one model; every point at which the device under a file buffer can fail, in several ways, for all short sequences",
 "The buffer test is empty; buffers are only used through JSON, with one kind of history and a device that never fails.",
 [SY+"sys_buffer.cpp", SH+"sys_buffer.h", SH+"sys_basic_define.h"],
 [("position in memory buffers", SY+"sys_buffer.cpp:sys_byte_buffer_writer"), ("status set when the C library reports an error", SY+"sys_buffer.cpp:sys_byte_file_buffer_writer")],
 observe=["content, position, size, end of data and status after every operation"])

prop("S04", "Text helpers follow their definitions",
 "Splitting a text by any tag gives the pieces between its successive occurrences, replacing changes every occurrence from left to right and nothing else, trimming removes exactly the leading character, and case functions change letters only. The edit distance is the least cost of turning the first word into the second under the given costs of insertion, replacement and deletion, for words of any length, and composing text from values gives the same digits whatever the value and length.",
 ["inputs"], "all texts and tags over small alphabets up to a length, all pairs of words with a grid of costs, words around every internal buffer size, boundary values of every number type",
 "The test splits three texts by one character; tags of several characters, costs, long words and boundary values are never tried.",
 [SY+"sys_strhelper.cpp", SY+"sys_strcombine.cpp", SH+"sys_strcombine.h"],
 [("split, replace, levenshtein_distance", SY+"sys_strhelper.cpp"), ("composition", SY+"sys_strcombine.cpp")],
 observe=["result of each helper"])

prop("S06", "Texts keep every character between wide, UTF-8 and local encodings",
 "A text without zero characters converted to UTF-8 is its encoding by the Unicode standard, and converting that back gives the same characters, whatever characters it holds and however long it is; two halves of a character become that character, and what is no character or no well-formed sequence becomes the replacement character, one for each longest beginning of a sequence. Conversion to and from the local encoding follows the user's locale and ends before the first character that one does not know; where local texts are UTF-8 they stay as they are. No conversion changes the locale of the process or of the thread, and all memory is given back.",
 ["inputs", "configurations"], "all 1,112,063 characters alone and in contexts; all sequences of boundary characters, bytes and surrogates up to a length; lengths to a million; locales of user, process and thread",
 "The test converts one Chinese word between two encodings that are the same on this system; every other conversion, and every malformed text, is never tried.",
 [SY+"sys_strconvert.cpp", SH+"sys_strconvert.h"], [("conversions", SY+"sys_strconvert.cpp")],
 observe=["converted text", "locale of process and thread"])

prop("S03", "Files are listed, made, copied, moved and deleted exactly as asked",
 "Listing a directory gives exactly its files, or its sub directories, whose names end in the extension asked for; making a path makes every missing directory on it; deleting a directory removes it with everything below it and nothing outside it, following no links. Copying and moving carry the exact bytes whatever the names are, keep an existing target when told to fail, and report truthfully whether they succeeded. The name, title, extension and directory of a path text are its parts between the last separators and dots.",
 ["inputs", "histories", "configurations"], "all path texts over separators, dots and letters up to a length; all small directory trees with files, links, blanks and hidden names; all combinations of existing, absent and blocked targets and of names with special characters",
 "No test touches the file system helpers; deleting the wrong files or taking names apart shows only with particular trees and names.",
 [SY+"sys_path.cpp"], [("listing", SY+"sys_path.cpp"), ("delete_dir, delete_sub_dir", SY+"sys_path.cpp"), ("copy_file, move_file", SY+"sys_path.cpp")],
 state=[("directory tree","what exists below a directory with its contents",SY+"sys_path.cpp")], observe=["tree after each operation", "reported success", "listed names"])

prop("S05", "Shared counters, timers and test counts report exactly what happened",
 "Between its beginning and its end the analyzer keeps for every name the value that setting, adding and taking the maximum give in some order of the calls of all threads, with no call lost or torn; ending reports each name with its value once and forgets it, and calls outside that time change nothing, however often it is begun and ended. A timer reports the whole milliseconds between every beginning and end since it was reset and how many there were, at the level asked for and by itself at its end when told to, and the tester reports how many of the conditions it was given held.",
 ["schedules", "histories"], "all histories of up to four (thorough: five) calls with and without a logger; all programs of two threads with two calls and three threads with one under all interleavings of the locks up to two preemptions; a clock that jumps by chosen amounts",
 "No test calls the analyzer from several threads or twice, and timers depend on the real clock.",
 [SY+"sys_alg_analyzer.cpp", SY+"sys_timer.cpp", SY+"sys_tester.cpp", SH+"sys_tester.h", SY+"sys_thread_lock.cpp"],
 [("one map behind one lock", SY+"sys_alg_analyzer.cpp"), ("begin, end and out", SY+"sys_timer.cpp"), ("condition counts", SY+"sys_tester.cpp")],
 state=[("counters", "value of every name", SY+"sys_alg_analyzer.cpp"), ("cost and count", "what a timer measured", SY+"sys_timer.cpp")], observe=["what the logger is told", "cost of a timer"])

BM = "basicmath/src/"; BH = "basicmath/include/"
prop("T01", "A matrix view shows exactly the cells it names, a copy is independent",
 "Taking an index, range, region, row, column, plane or channel, transposing, flipping, splitting, joining, adding or dropping dimensions, turning channels into a dimension and back, and reshaping a matrix give a view whose every element is the element of the source that the operation names, however such operations are nested and for any number of dimensions, channels and any depth; what is written through one view is seen through all others and nowhere else, while clones, repeats, copies and channel splits never change with their source. Setting from values or from another matrix, conversion between depths, comparison (equal exactly when shape, depth and every element agree), iteration and locating an element by address act on exactly the elements of the view in their order. Memory lives as long as the last matrix that uses it, and what the matrix owns is given back.",
 ["histories", "inputs"], "all sequences of up to three (thorough: four) such operations from all shapes of a list up to six dimensions, one to five channels and ten depths, then every write, seen through every matrix of the sequence; all pairs of depths with boundary values",
 "The tests look at a few views of one matrix each; what breaks are views of views, special paths by number of channels or dimensions, and steps that are negative or do not follow each other.",
 [BM+"mt_mat.cpp", BH+"mt_mat.h", BM+"mt_array_iteration.cpp"],
 [("views share the memory and change size and step", BM+"mt_mat.cpp"), ("continuous runs found from the steps", BM+"mt_array_iteration.cpp:get_continuous_dim"), ("memory given back with the last reference", BM+"mt_mat.cpp:try_deallocate")],
 state=[("memory", "shared by all views of one matrix and counted", BM+"mt_mat.cpp")], observe=["every element of every live matrix after each operation", "sharing and number of references", "every memory access and leak"])

prop("T02", "Matrix arithmetic works element by element on any view",
 "Adding, subtracting, multiplying and dividing matrices of the same shape, or a matrix and one number, one number per channel or a smaller matrix repeated over it, powers, exponentials, logarithms, absolute values, activations, comparison masks and losses give for every element and channel exactly the value of the operation on the corresponding elements, for every depth, number of channels and dimensions, and whatever kinds of views the operands are; in-place forms change exactly the elements of their view and nothing else, other forms give new memory and leave their operands alone. Reductions give the sum, mean, extreme or variance over all elements or one dimension of matrices of reals; expanding, striding, and joining along a dimension or by channels place every element where it belongs. The eigenvalues of a symmetric matrix come in descending order with orthonormal vectors.",
 ["inputs"], "all combinations of operation, depth, shapes of one to five dimensions, several numbers of channels and eight kinds of views for each operand; all symmetric matrices of small integers up to three by three",
 "The tests compare a few operations on dense matrices; every operation has separate code for continuous, two and three dimensional, single channel and general matrices.",
 [BM+"mt_mat_math_operation.cpp", BM+"mt_mat_helper.cpp"],
 [("one loop per layout", BM+"mt_mat_math_operation.cpp:mat_operation"), ("repeated bias", BM+"mt_mat_math_operation.cpp:operation_bias"), ("joining", BM+"mt_mat_helper.cpp:merge_align_dim")],
 observe=["every element of results and operands", "memory around views", "every memory access and leak"])

prop("T04", "A saved matrix loads back the same",
 "A matrix of any shape, depth, number of channels and kind of view, saved to a text or binary file or buffer, alone or with others in a document by name or in sequence, loads back with the same shape, depth and elements: integers of every width exactly, reals exactly in binary form and to their printed decimals in text, an empty matrix as empty. Loading gives memory of its own whatever the target held before, saving replaces what a file held and leaves the matrix alone.",
 ["inputs", "configurations"], "all depths, shapes of one to six dimensions, five numbers of channels, eight kinds of views, four kinds of buffer with boundary values; all documents of up to three matrices in all orders of reading; all bytes and all powers of two with their neighbours",
 "No test saves a matrix; what breaks are views, wide integers, empty matrices and matrices among others.",
 [BM+"mt_mat_serialize.cpp", BM+"mt_mat_helper.cpp", BM+"mt_data_type.cpp", SY+"sys_json.cpp"],
 [("write, read", BM+"mt_mat_serialize.cpp"), ("save, load", BM+"mt_mat_helper.cpp"), ("names of depths", BM+"mt_data_type.cpp:depth_i32")],
 observe=["shape and elements of the loaded matrix", "the target's former memory", "every memory access and leak"])

prop("T05", "Pooling takes exactly the elements below each window, unpooling gives back",
 "Pooling a matrix gives, for windows starting at every multiple of the stride until one reaches the end of a dimension, the mean, sum, greatest, least or first of exactly the elements below the window, per channel, clipped at the border, for every depth, number of dimensions and channels and kind of view; the mask names for every channel the first element that holds the extreme, and pooling by a mask takes exactly the elements it names, means being exact to the precision of the type even when sums exceed it. Unpooling adds every pooled value back to exactly the elements it came from (means divided by their number, extremes at the element the mask names for that channel) and leaves zero elsewhere; operands never change.",
 ["inputs"], "all windows and strides up to the bound over shapes of one to five dimensions, ten depths, several numbers of channels, eight kinds of views of source, mask and pooled matrix; every content of small matrices over three values",
 "No test pools anything; every number of dimensions and channels and every kind has its own loop, and results go wrong only with clipped windows, ties, several channels or views.",
 [BM+"mt_pooling.cpp", BM+"mt_mat_helper.cpp", BH+"mt_helper.h"],
 [("one loop per number of dimensions and channels", BM+"mt_pooling.cpp:pooling_2d_channel_1"), ("reverse", BM+"mt_pooling.cpp:unpooling"), ("number of windows", BM+"mt_mat_helper.cpp:get_pooling_result_size")],
 observe=["every element of results, masks and operands", "memory around views", "every memory access and leak"])

prop("T06", "Matrix products, convolutions and blurs are exact with MKL, for every layout",
 "In a build with MKL, the product of two matrices is, per channel, the sum of products of rows and columns, and a convolution (kernel mirrored) sums, for every place of the result that the boundary (inside only, all, or as large as the source) and the strides leave, the products of exactly the elements below the kernel, the channels arranged by rows, by columns or as all pairs; both are the same whatever views of memory source, kernel and result are, in one dimension or many, however many workers share the channels, and when the result is written over an operand, and MKL is only called with arguments it accepts. Derivatives of products and of convolutions by rows inside the source follow the chain rule. A blur of one channel is the product of the two normal kernels of the given sizes and deviations over the picture with nothing around it; a deviation of zero changes nothing.",
 ["inputs", "configurations", "programs"], "all shapes up to the bound with all pairs of 48 kinds of views as factors; all sizes of source and kernel, strides, boundaries and arrangements in up to three dimensions, lists in up to six; results new, given, as views or over an operand; up to 20 channels; all programs of up to three steps with a product",
 "The tests of products and convolutions do not run without MKL; errors need turned or flipped operands, strides that do not divide, or several channels.",
 [BM+"ml_multiplication.cpp", BM+"mt_convolution.cpp", BM+"mt_mat_helper.cpp", BM+"mt_auto_derivative_tree.cpp", "basicimg/src/img_img.cpp"],
 [("layout given to MKL", BM+"ml_multiplication.cpp:mul"), ("channels and steps", BM+"mt_convolution.cpp:conv"), ("size of the result", BM+"mt_mat_helper.cpp:get_conv_result_size"), ("derivatives", BM+"mt_auto_derivative_tree.cpp:mt_ad_conv_tree_node"), ("blur", "basicimg/src/img_img.cpp:gaussian_blur")],
 observe=["every element of results and operands", "arguments refused by MKL, tasks left", "memory around views", "every memory access and leak"])

prop("T07", "Sorting, selecting and the dynamic programs give exact optimal answers",
 "Every sorting function orders any sequence in the wanted direction, keeps its elements, and reports for each the index it came from; the k greatest or least of a stream are held after every element, with repetitions and fewer than k elements; median (lower of two), extremes and their first positions are exact. The longest common part of two sequences, with all its places in both, the greatest sum of consecutive elements with its range, and the most valuable choice of items within a weight limit with its value and a choice that attains it, equal what trying everything gives, for integers and reals.",
 ["inputs"], "all sequences over small alphabets with boundary values up to length 9, all permutations of up to ten elements, all pairs of sequences, all item lists up to the bound with all limits; several element types; results with stale content",
 "Tests sample nothing of this; errors show only for certain orders, repetitions, positions at the very start or end, or ties.",
 [BH+"mt_sort.h", BH+"mt_top_k.h", BH+"mt_helper.h", BH+"dynamic_programming/mt_01_bag.h", BH+"dynamic_programming/mt_longest_common_substring.h", BH+"dynamic_programming/mt_max_sum_for_continuous_element.h"],
 [("heap", BH+"mt_sort.h:heap_adjust"), ("k best", BH+"mt_top_k.h:traverse"), ("choice of items", BH+"dynamic_programming/mt_01_bag.h:detrermine_flag"), ("table of common parts", BH+"dynamic_programming/mt_longest_common_substring.h:mt_longest_common_substring")],
 observe=["every result, index and choice", "every memory access and leak"])

prop("T08", "Helpers on numbers, vectors, histograms and rectangles compute what they say",
 "Comparing integers of any type gives their exact order and comparing reals treats them as equal only within the relative or absolute tolerance; combinations, factorials, bit counts, byte reversal, digit functions, nearest integers, sums, products, running sums, copying between arrays, vectors and pointers, reversal, partition into odd and even (in order if asked), greatest difference of means and conversion between element number and position in several dimensions are exact whenever the result fits. A histogram counts every value exactly once in contiguous equal bins that cover all values; rectangles (inclusive corners) contain exactly their points, and appending, adjusting, expanding, shrinking and distance follow from that; whatever a result held before does not matter.",
 ["inputs"], "all pairs of boundary values of ten types, all vectors over small alphabets up to length 8, all shapes up to six dimensions, all rectangles of the bound with every point and rectangle around them, boards of one or two ships with up to four shots",
 "Tests sample nothing of this; errors show only for negative values, wrap-around, ties, empty or single elements, or results that held something.",
 [BM+"mt_helper.cpp", BH+"mt_helper.h", BM+"mt_hist.cpp", BH+"mt_rect_t.h", BH+"mt_point_t.h", BH+"mt_scalar_t.h", BM+"mt_trigonometric_function.cpp", BM+"mt_angle_helper.cpp"],
 [("order of values", BH+"mt_helper.h:compare_value"), ("histogram", BM+"mt_hist.cpp:hist"), ("rectangles", BH+"mt_rect_t.h:adjust_by_append_point"), ("split", BM+"mt_helper.cpp:split_array_to_max_mean_sub_arrays")],
 observe=["every result", "every memory access and leak"])

prop("T09", "Random numbers stay in range and follow their distribution and the seed",
 "Random integers lie within their inclusive range and take each value for an equal share of the raw numbers, uniform reals lie between their bounds without the open ones and spread evenly, binomial numbers follow the binomial distribution for any number of trials, normal numbers are finite and follow the normal distribution. Samples are drawn evenly, permutations hold every index once and every order comes from equally many raw sequences; matrices of random numbers have the given shape and draw every channel of every element on its own, and all results follow from the seed alone.",
 ["inputs"], "all listed ranges, bounds and parameters with the edges of the raw numbers and evenly spaced ones; all combinations of equal parts of the raw numbers for permutations up to seven and samples up to six elements; shapes up to five dimensions, five depths, up to nine channels",
 "A test sees a few draws of one seed; wrong ranges, biases and lost seeds show only over all raw numbers or at their edges.",
 [BM+"mt_random.cpp", BH+"mt_random.h", BM+"mt_array_iteration.cpp"],
 [("integers", BM+"mt_random.cpp:random_next_i32"), ("open bounds", BM+"mt_random.cpp:random_uniform"), ("binomial", BM+"mt_random.cpp:bernoulli_iid"), ("permutation", BM+"mt_random.cpp:randperm")],
 observe=["every number drawn for every raw number", "how many raw numbers are used", "every memory access and leak"])

prop("T03", "Threads may share a matrix's memory, each through its own matrix",
 "Threads that copy, view, reshape, flip, clone, assign, compare, add, write to separate elements of and drop matrices that share memory, each changing only matrices of its own, never touch the same memory unsynchronised, never block each other for ever, and each sees what it would see alone, however they interleave. The number of references is exact when they are done, and the memory and everything that belongs to it is given back exactly once, by whoever is last, and never while anybody still uses it.",
 ["schedules", "programs"], "all programs of two threads with one or two operations and three threads with one, from eleven operations, under all interleavings of locks and atomics up to the preemption bound",
 "Tests run one thread; a lost count or early release needs two threads in the same few instructions.",
 [BM+"mt_mat.cpp", BH+"mt_mat.h", SY+"sys_thread_lock.cpp"],
 [("count under a lock of its own", BM+"mt_mat.cpp:reference_info"), ("release with the last reference", BM+"mt_mat.cpp:try_deallocate")],
 state=[("references", "how many matrices use the memory", BM+"mt_mat.cpp:reference_info")], observe=["every access of every thread with its locks", "contents, references and memory in the end", "locks destroyed in use, deadlocks"])

prop("T10", "Derivatives of recorded computations follow the chain rule",
 "The derivative of a recorded result by any matrix it was computed from is, element by element, what the chain rule gives, whichever of the recorded operations lead there: arithmetic with matrices, constants and biases, powers, exponentials, logarithms, absolute values, copies, reshaping, flipping, parts, strides, channels, expanding, repeating, pooling, activations, quadratic losses and logarithmic ones of an activation used for nothing else, sums, products and merges of lists - not exchanged dimensions, which are not supported (matrix products and convolutions are another property). It has the shape of that matrix, is empty if nothing leads there, and sums over several results; operations without an attached operand or in the ignoring stage count as constants, and a reset forgets the record. Asking again, also after more was recorded, or after the caller changed a returned derivative, gives the same; asking changes neither the operands nor the stage, and all memory is given back.",
 ["programs", "histories", "inputs"], "all computations of up to two steps with any operation and three with the listed ones, on nine pairs of shapes with up to four dimensions and three channels, as views and in both depths; all histories of three (thorough: four) steps",
 "A test follows one formula; wrong local derivatives, lost paths and stale results need certain operations in a row, matrices used twice or certain shapes.",
 [BM+"mt_auto_derivative.cpp", BM+"mt_auto_derivative_tree.cpp", BH+"mt_auto_derivative.h", BH+"mt_auto_derivative_tree.h", BM+"mt_mat_math_operation.cpp", BM+"mt_mat.cpp", BM+"mt_mat_helper.cpp"],
 [("paths to a result", BM+"mt_auto_derivative.cpp:derivative"), ("local derivatives", BM+"mt_auto_derivative_tree.cpp"), ("recording", BM+"mt_auto_derivative.cpp:get_node")],
 state=[("record", "nodes with their matrix and operands", BM+"mt_auto_derivative.cpp"), ("kept derivatives", "up to the cache size per node", BH+"mt_auto_derivative_tree.h")], observe=["every derivative by every matrix", "values of all operands after asking", "stage, attachment, leaks"])

prop("T11", "Block memory keeps every element in place and hands out nothing twice",
 "Elements added to a block memory keep their address and content while more are added, are found by number and by a visit in the order they were added, even one continued after more were added, and are told from addresses that are not theirs. A place given back is the next to be handed out, the last one first, up to the given number of places, and none is ever handed out twice; beginning again, whether with the same or other parameters, uses the memory again or replaces it, and everything is given back and destroyed with the block memory or when cleared.",
 ["histories"], "all histories of up to five (thorough: seven) of nine operations from six ways to begin, for three types of elements; up to a thousand elements over all block sizes",
 "The test adds and visits once; the errors need a block boundary, a return of places and a new beginning in one history.",
 [BH+"mt_block_memory.h"],
 [("next block", BH+"mt_block_memory.h:next_block"), ("places given back", BH+"mt_block_memory.h:basicmath_block_memory_reuse"), ("begin", BH+"mt_block_memory.h:init")],
 state=[("blocks", "kept over a new beginning with the same parameters", BH+"mt_block_memory.h")], observe=["address and content of every element after each operation", "visits", "memory size, constructed elements, leaks"])

prop("T12", "Matrices from the cache are never shared with live ones, memory is bounded",
 "While the cache is on in a thread, new matrices have the requested shape and their memory belongs to no live matrix, copy or view, in whatever threads these live; a released matrix of the same shape, depth and channels is taken again instead of new memory, and what is kept is never more than the limit, or twice what is in use if that is more, after each request and each change of the limit, nothing being let go below it. When the thread leaves its outermost scope everything released is given back; threads that use the cache at once never touch memory unsynchronised, block each other or change each other's matrices, and results of matrix operations are the same with the cache on and off.",
 ["histories", "schedules"], "all histories of up to four (thorough: six) of twelve operations with two or three matrices of eight kinds; all pairs of 600 kinds of matrices; programs of two and three threads under all interleavings of locks up to the preemption bound",
 "No test turns the cache on; a matrix handed out twice needs a certain order of copies, views, drops, limits and threads.",
 [BM+"mt_mat_cache.cpp", BH+"mt_mat_cache.h", BM+"mt_mat.cpp"],
 [("take or make", BM+"mt_mat_cache.cpp:get"), ("limit", BM+"mt_mat_cache.cpp:statistic_memory"), ("scopes", BM+"mt_mat_cache.cpp:enable_cache")],
 state=[("cached matrices", "all that were made while on", BM+"mt_mat_cache.cpp"), ("threads", "who has it on", BM+"mt_mat_cache.cpp")], observe=["content and address of every live matrix after each operation", "memory held, read off the allocator", "every access of every thread with its locks"])

LG = "basiclog/src/basiclog.cpp"
prop("L01", "What is logged comes out whole, once, in order and where it should",
 "A message logged at an enabled level with a tag that is not filtered reaches the logger exactly once with its level, local time and zone, tag, line, file and full text, long ones in consecutive pieces, while one that is not enabled or is filtered leaves nothing and its text is not even computed; asserts speak only when their condition is false, and with no logger nothing happens. The file logger writes every piece, in order, to files of its directory of at most the given number of pieces, keeps at most the given number of files by removing its oldest, applies changed limits and directories to what follows, never replaces a file that is there, and goes on when no file can be made; the console shows every byte. Messages of threads come out whole and none is lost, whoever changes levels and filters meanwhile.",
 ["histories", "inputs", "schedules"], "all combinations of level, tag, filters and text around the lengths where it is cut, fourteen zones with every quarter of days at the ends of months and years, all histories of up to three (thorough: five) operations on the file logger, all interleavings of locks of two and three threads up to the preemption bound",
 "The test prints two lines; what breaks are long and non-ascii text, files within one second, lowered limits, other zones and threads.",
 [LG, "basiclog/include/basiclog.h"],
 [("one message", LG+":print"), ("files", LG+":log_file_logger::print"), ("time stamp", LG+":format_timestamp"), ("levels", "basiclog/include/basiclog.h:basiclog_debug")],
 state=[("files", "those the logger made, oldest first", LG+":m_list_files")], observe=["every piece the logger is given", "every file after each operation", "bytes on the console", "every access of threads with their locks"])

prop("C01", "Connected components hold exactly the connected pixels, once each",
 "For an image of bytes with one, three or four channels and a background colour, and for images of any pixel type with no mask, a mask image of zeros and ones, a rectangle or a value to leave out, the components are exactly the classes of admitted pixels connected by four or eight neighbours: every admitted pixel in one component, once, with its exact bounding box; images and masks may be views, may admit nothing, and never change. The component of one start pixel is the one that holds it, or empty if that pixel is not admitted. Extracting again into the same result replaces it, copies of components and of results keep their points and boxes whatever happens to the original, everything is given back, and pictures of components show exactly their pixels within the part asked for, gray or in colour.",
 ["inputs", "histories"], "all images of small shapes over two or three colours, all masks, rectangles, values and start pixels of small images, seven kinds of views, four pixel types, both neighbourhoods; all histories of four (thorough: five) extractions and copies",
 "The module is only compiled, no test calls it; borders, masks, views, empty and repeated results each take another path.",
 [H+"img_connected_component.h", I+"img_connected_component.cpp"],
 [("extraction with a bordered copy of the image", H+"img_connected_component.h"), ("ownership of points", I+"img_connected_component.cpp")],
 state=[("components", "points and box of each", H+"img_connected_component.h")], observe=["points and boxes", "pictures", "every memory access and leak"])

prop("C02", "Edge detection marks exactly the gradient ridges linked to a strong one",
 "A pixel is 255 exactly if its gradient magnitude, in whole numbers, is above the low threshold, it is a ridge (larger than the neighbour before it and not smaller than the one after it across the edge, where the gradient is closest to the horizontal or the vertical, and larger than both where it is closest to a diagonal, with nothing beyond the image), and it is linked through eight neighbours of that kind to one above the high threshold; all others are 0. Gradients and magnitudes that are not given are those of the picture, by the chosen norm; pictures, gradients and results may be views of any layout, and nothing but the result changes. What is detected never depends on earlier pictures, settings, or on the memory kept, and nothing is kept once that is turned off or cleared.",
 ["inputs", "histories"], "all pictures of magnitudes of small shapes with up to 24 directions in all sectors, all chains of weak pixels up to length six in 5x5, all small pictures, all views, all histories of three (thorough: four) operations, rows wider than the internal stack",
 "No test detects an edge; borders of sectors, ties, links in each direction, given gradients, views and wide rows each take another path.",
 [I+"img_canny.cpp", H+"img_canny.h", I+"img_img.cpp"],
 [("ridges and links", I+"img_canny.cpp:canny_impl"), ("gradients given or computed", I+"img_canny.cpp:edge_detection"), ("pictures for OpenCV", I+"img_img.cpp:from_basiccv")],
 state=[("gradients kept", "of the last picture", H+"img_canny.h"), ("stack", "strong pixels not followed yet", I+"img_canny.cpp")], observe=["every pixel of the result", "given gradients after the call", "what is kept", "every memory access and leak"])

prop("C03", "Locally thresholded edges follow the mean of the windows around each place",
 "Of the edges that plain detection finds with the minimum as high threshold and its share as low one, a pixel stays if its magnitude is above the mean magnitude of the edge pixels in all windows over its place times the given ratio, within minimum and maximum, or above the density threshold where more than the given number of these windows are dense. Then groups of at most the given number of pixels, all below the fixed limit for noise, are removed (groups are followed through inner pixels), and from each remaining pixel in reading order edge pixels of at least the low share of its threshold are added along neighbours. The source, given gradients and magnitudes may be views and do not change, and no earlier picture or setting has an effect.",
 ["inputs", "histories"], "all fields of several line patterns and shapes over two to five magnitudes with four settings each, larger fields with every combination of settings, all views, all histories of three (thorough: four) pictures and clears",
 "No test runs it; windows at the border, dense places, small groups and tracing each matter in few pictures only.",
 [I+"img_auto_threshold_canny.cpp", H+"img_auto_threshold_canny.h"],
 [("windows", I+"img_auto_threshold_canny.cpp:edge_detection"), ("small groups", I+"img_auto_threshold_canny.cpp:remove_small_edge"), ("tracing", I+"img_auto_threshold_canny.cpp:trace_edge")],
 state=[("memory kept", "integral pictures of the last call", H+"img_auto_threshold_canny.h")], observe=["every pixel of the result", "given matrices after the call", "every memory access and leak"])

prop("C04", "Stroke widths are the smallest ray over each pixel, corrected by ray medians",
 "From each edge pixel with a gradient a ray goes pixel by pixel along it (against it for dark strokes), passing corners the same way in both directions, until it leaves the picture or meets an edge pixel; the first pixel there or around it, away from the start, whose direction is opposite within the given angle ends the ray, provided pixels without edge lie between. Each pixel holds the smallest width (distance of the ends less one, at least one) of the rays over it, then lowered to the smallest median of the widths along these rays, or the invalid value if there is none. As a picture, widths are spread over the gray levels from the smallest on, over a range of at least 200, and invalid ones are white; pictures and gradients may be views and never change.",
 ["inputs"], "all sets of edge pixels of small shapes with six (thorough: 24) patterns of gradients, two and three edge pixels in all places with directions in all quadrants, bars, wedges and rings, all combinations of views, all small lists of widths",
 "No test computes a stroke width; corners, borders, angles, pixels without gradient and medians each matter for few rays only.",
 [I+"img_stroke_width_transform.cpp", H+"img_stroke_width_transform.h"],
 [("rays", I+"img_stroke_width_transform.cpp:swt"), ("corners", I+"img_stroke_width_transform.cpp:get_next_point"), ("medians", I+"img_stroke_width_transform.cpp:median_stroke_width"), ("picture", I+"img_stroke_width_transform.cpp:normalize_swt_image")],
 state=[("rays", "points and width of each", H+"img_stroke_width_transform.h")], observe=["every width", "the inputs after the call", "every memory access and leak"])

prop("C05", "Pictures reach OpenCV and files unchanged, helpers give what they name",
 "A matrix of two dimensions given to OpenCV or saved has the same rows, columns, channels, depth and values there, whatever its layout, and a loaded picture is the stored one; saving tells whether it succeeded, and a picture that cannot be read gives an empty matrix. Resizing, color conversion and derivatives of a picture are what OpenCV gives for it with the kind, order and size asked for, magnitudes are those of both gradients by the chosen norm, and a chessboard has squares of the given size in every channel; a point is in a picture, or on its boundary, exactly if its column and row are. The result may be any matrix, also the operand of resizing, color conversion and magnitudes; no other operand, no earlier result and no memory beside a view changes, and all memory is given back.",
 ["inputs", "configurations"], "all shapes up to 4x4 (thorough: 7x7), all depths, one to five channels, eight layouts, every kind of target (none, same shape, view, other shape or depth, the operand itself), all conversions and boundary colors",
 "The tests of this module need OpenCV and pictures that are not there, so it is only compiled; views, results that are operands, and single colors are in no test.",
 [I+"img_img.cpp", H+"img_img.h"],
 [("matrix to OpenCV", I+"img_img.cpp:from_basiccv"), ("memory of OpenCV", I+"img_img.cpp:use_opencv_memory"), ("colors", I+"img_img.cpp:cvt_color"), ("magnitudes", I+"img_img.cpp:generate_gradient_mag"), ("points", H+"img_img.h:point_in_image")],
 observe=["every value of the result", "the operands and memory beside the result", "every memory access and leak"])

NOT_APPLICABLE = {}
