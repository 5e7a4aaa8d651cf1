#!/usr/bin/env python3
# Writes properties.jsonl (one property per line) from the table below.
import json
I='include/pigo/impl/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Edge lists load exactly",
  "Loading a well-formed edge list (one `src dst [weight]` entry per line, with any mix of blank lines, '#' or '%' comment lines and trailing comments, spaces, tabs and CRLF line ends, with or without a final newline) yields exactly the file's entries in file order, with their weights when the object is weighted. Columns the object does not use are ignored. The entry count is the number of entry lines, rows and columns are one more than the largest row and column label seen, and labels are the larger of the two.",
  ["inputs","configurations"],"every well-formed edge-list file, every label/ordinal/weight type able to hold its values, every storage kind, every OpenMP thread count",
  "The tests load a handful of files of about ten lines; entries lost or duplicated where the file is cut between threads, at a missing final newline, inside a comment, or with labels beyond 32 bits depend on exact byte positions and thread counts they never sample.",
  [I+"coo.impl.hpp",I+"pigo.impl.hpp","include/pigo/coo.hpp"],
  [("two-pass parallel edge-list reader (count, prefix sum, fill)",I+"coo.impl.hpp: COO::read_el_"),("per-line entry reader","coo.impl.hpp: detail::read_coord_entry_i_, read_wgt_i_"),("cursor primitives",I+"pigo.impl.hpp: FileReader::*")],
  ["COO x(), y(), w(), m(), n(), nrows(), ncols()"])
p("C02","Results do not depend on thread count or schedule",
  "Loading, converting, symmetrising, sorting, de-duplicating, copying, saving and writing give the same result whatever the number of OpenMP threads and however they are scheduled. Loaded entry order and written or saved files of coordinate objects are identical byte for byte; a row of a converted compressed object may come out in any order but always holds the same entries, and is identical after sorting.",
  ["schedules","configurations","inputs"],"every thread count (including more threads than bytes or rows) and every legal OpenMP schedule, for every valid input",
  "ctest runs each operation once with one thread count (OMP_NUM_THREADS=4) on tiny inputs, so most chunk boundaries, thread counts and orders in which threads reach a barrier, a single block or a dynamic chunk never occur.",
  [I+"coo.impl.hpp",I+"csr.impl.hpp",I+"tensor.impl.hpp",I+"pigo.impl.hpp"],
  [("per-thread ranges aligned to line starts","COO::read_el_, CSR::read_graph_, Tensor::read_el_"),("barriers, single blocks and prefix sums between passes","read_el_, read_graph_, convert_coo_, write"),("static worksharing repeated for size and write passes","COO::write, Tensor::write")],
  ["all accessors, bytes of saved and written files"])
p("C03","Parallel operations are free of data races",
  "No operation of the library lets two of its own threads access the same memory location at the same time, one of them writing, without synchronisation. Loading, converting, sorting, de-duplicating, copying, saving, writing and scanning are all covered, for weighted and unweighted objects.",
  ["schedules","inputs"],"every schedule of the library's OpenMP teams, for every valid input and team size",
  "A test run observes one interleaving and only its final values; an unsynchronised access nearly always gives the expected value on small inputs.",
  [I+"csr.impl.hpp",I+"coo.impl.hpp",I+"tensor.impl.hpp",I+"pigo.impl.hpp"],
  [("atomic increments and captures on shared degree counters",I+"csr.impl.hpp: convert_coo_"),("barriers around shared prefix sums","read_el_, read_graph_, write, find_offsets"),("disjoint output ranges per thread","read_el_, parallel_read, parallel_write")],
  ["every memory access of the compiled library, via ThreadSanitizer"])
p("C04","Matrix Market files load exactly and bad headers are rejected",
  "Loading a Matrix Market coordinate file yields exactly its entries in file order with the indices as written (filtered or mirrored only as the object's load options ask); rows and columns are the header's sizes plus one, labels the larger of the two, however few entries there are, and a symmetrised object reports the larger size for both. A file whose header declares a different number of entries than it holds, or a row or column size smaller than one its kept entries use (for a symmetrised object: both sizes smaller), is rejected with a PIGO error, and a header of another Matrix Market format with the not-implemented error.",
  ["inputs","configurations"],"every coordinate-format Matrix Market file, consistent or with a contradicting header, under every load option and thread count",
  "Tests read five fixed small files with default load options; header/content contradictions at other counts, empty matrices, and the combination of header checks with load-time filters are not sampled.",
  [I+"coo.impl.hpp"],
  [("header parse and post-load sanity checks",I+"coo.impl.hpp: COO::read_mm_")],
  ["COO/CSR accessors, exception type"])
p("C05","Adjacency (.graph) files load exactly",
  "Loading an adjacency file (header `rows entries ...`, then one line of neighbours per row, with comments before, right after the header, between rows or at line ends, blank lines for rows without neighbours anywhere, and with or without a final newline) gives each row exactly the neighbours on its line, in order. If no neighbour 0 occurs in the file it is 1-based and row i of the file is row i with an additional empty row 0, otherwise the first line is row 0; the labels are the header's row count and the rows have one more when 1-based, and the header may count each entry once or each pair once. A file with fewer row lines than declared, with neighbours beyond the declared rows, or whose neighbour count does not match the header, is rejected with a PIGO error, and so is a weighted load.",
  ["inputs","configurations"],"every adjacency file with at least one neighbour, every thread count, label and ordinal type",
  "Tests read five files of 3 to 10 rows; empty first rows, unterminated last lines, comment placement and thread boundaries inside rows, gaps and numbers are not covered.",
  [I+"csr.impl.hpp",I+"pigo.impl.hpp"],
  [("two-pass adjacency reader with zero detection",I+"csr.impl.hpp: CSR::read_graph_"),("header cross-checks",I+"csr.impl.hpp: end of read_graph_")],
  ["CSR offsets(), endpoints(), n(), m(), nrows(), ncols(), exception type"])
p("C06","Coordinate-to-compressed conversion conserves every entry",
  "Converting a coordinate object to a compressed-row object keeps every entry exactly once in the row of its first coordinate, with its weight still attached, whatever the order, duplicates, self loops or empty rows. The offsets start at 0, never decrease, end at the entry count, and have one slot per label plus one; label, row, column and entry counts carry over and the source object is unchanged.",
  ["inputs","schedules","configurations"],"every coordinate object, every thread count and schedule, every pair of compatible label, ordinal, weight and storage types",
  "Tests convert a few small fixed graphs; losing or doubling an entry needs particular contention on a row, particular empty rows or thread splits.",
  [I+"csr.impl.hpp"],
  [("degree count, prefix sum and atomic slot claim",I+"csr.impl.hpp: CSR::convert_coo_"),("weight copy",I+"csr.impl.hpp: detail::copy_weight")],
  ["CSR offsets(), endpoints(), weights(), n(), m(), nrows(), ncols()"])
p("C07","Compressed-to-coordinate conversion is exact",
  "Converting a compressed-row object to a coordinate object yields each entry of each row, in row order, with its weight and the same label, row, column and entry counts. With symmetrisation (in any order of the mirrored entries) each off-diagonal entry appears in both directions with the same weight and each diagonal entry once; with symmetrisation and upper-triangle each entry appears once with the smaller label first; combinations that are not supported are refused with the not-implemented error.",
  ["inputs","configurations"],"every compressed-row object (including rectangular ones and differing label and ordinal types) and every load option, storage kind and thread count",
  "Tests cover two five-edge graphs with raw pointers and equal types; weights in vectors, rectangular dimensions, differing type widths and self loops are not sampled.",
  [I+"coo.impl.hpp"],
  [("row-parallel expansion",I+"coo.impl.hpp: COO::convert_csr_"),("reading compressed files into coordinate objects",I+"coo.impl.hpp: COO::read_")],
  ["COO x(), y(), w(), m(), n(), nrows(), ncols()"])
p("C08","Load-time symmetrise, triangle and self-loop options are exact",
  "With symmetrise, each off-diagonal entry of the file is followed by its mirror with the same weight and diagonal entries stay single; with symmetrise and upper-triangle each entry appears once with the smaller label first; with upper-triangle alone entries below the diagonal are dropped; with self-loop removal diagonal entries are dropped, in every combination. All other entries keep file order and their own weight.",
  ["inputs","configurations","schedules"],"every edge list, every combination of the three options, weighted or not, every thread count",
  "Tests use four option combinations on a dozen lines; a dropped entry at the end of a thread's range, runs of dropped entries, and weights next to dropped entries are not sampled.",
  [I+"coo.impl.hpp"],
  [("filtering count and fill readers",I+"coo.impl.hpp: detail::read_coord_entry_i_")],
  ["COO x(), y(), w(), m()"])
p("C09","Sorting and duplicate removal are exact",
  "Sorting a compressed object leaves every row ascending and holding the same entries as before, each weight still with its neighbour. Building the duplicate-free object gives each row exactly the distinct neighbours of that row in ascending order, each with a weight one of its duplicates had, with matching offsets, counts and dimensions, and loses no entry of the source.",
  ["inputs","configurations","schedules"],"every compressed object, weighted or not, every storage kind, including conversion to other types while de-duplicating, every thread count",
  "Tests sort and clean one small file; many rows (beyond one dynamic chunk), all-duplicate rows, empty rows, equal neighbours with different weights and type changes are not covered.",
  [I+"csr.impl.hpp"],
  [("per-row sort",I+"csr.impl.hpp: CSR::sort"),("count, prefix sum and copy of distinct neighbours",I+"csr.impl.hpp: CSR::new_csr_without_dups")],
  ["CSR offsets(), endpoints(), weights(), n(), m(), nrows(), ncols()"])
p("C10","Binary save and load is lossless",
  "Saving a coordinate, compressed, directed-graph or tensor object and loading the file, explicitly or by auto-detection, with the same label, ordinal and weight types but any storage kind and thread count, gives an object with identical counts, dimensions, structure and weights, bit for bit, including loaded or built objects without entries. The file is exactly as long as its content, an older longer file of the same name is fully replaced, and a loaded object saves to an identical file.",
  ["inputs","configurations","histories"],"every object of the four binary-capable classes and every storage kind, type combination and thread count on either side",
  "Tests round-trip one small object per class with one thread count; sizes that do not divide among threads, empty objects, weight widths and overwriting a longer file are not sampled.",
  [I+"coo.impl.hpp",I+"csr.impl.hpp",I+"graph.impl.hpp",I+"tensor.impl.hpp",I+"pigo.impl.hpp"],
  [("size computation, header and parallel copies","COO::save/read_bin_, CSR::save/read_bin_/save_size, DiGraph::save/read_, Tensor::save/read_bin_"),("parallel block copy",I+"pigo.impl.hpp: parallel_write, parallel_read")],
  ["bytes of the file, accessors of the reloaded object"])
p("C11","Incompatible or truncated binary files are rejected",
  "Loading a PIGO binary file that is of another kind or an unknown version, that was saved with different label or ordinal widths (or weight width, for tensors), or that ends before the data its header announces, raises an exception. It never returns an object and never reads outside the file.",
  ["inputs","fault_sequences","configurations"],"every saved file of every class, every mismatching type width or kind, and every truncation length",
  "Tests try one mismatching width per class; truncation at each byte and kind confusion are not tried.",
  [I+"coo.impl.hpp",I+"csr.impl.hpp",I+"graph.impl.hpp",I+"tensor.impl.hpp",I+"pigo.impl.hpp"],
  [("magic and width checks","COO::read_bin_, CSR::read_bin_, Tensor::read_bin_, DiGraph::read_"),("bounds of reads from a file",I+"pigo.impl.hpp: File::read, File::parallel_read, FileReader::at_str")],
  ["exception, process survival, guarded file mapping"])
p("C12","ASCII output is exact and re-readable",
  "Writing a non-empty coordinate object or tensor as text produces exactly one line per entry in entry order, fields separated by single spaces, integers in plain decimal and floating-point weights with six decimals, with nothing before, between or after the lines and no shorter or longer file. Reading the text back gives the same coordinates in the same order and the same weights (to six decimals when floating-point).",
  ["inputs","configurations"],"every non-empty object with finite weights, every type (including extreme and negative integer weights), storage kind and thread count",
  "Tests write a handful of short entries and only re-read them; values of mixed digit counts across thread boundaries, extreme integers and file length are not checked.",
  [I+"coo.impl.hpp",I+"tensor.impl.hpp",I+"pigo.impl.hpp"],
  [("size pass, prefix sum, write pass","COO::write, Tensor::write"),("text formatting",I+"pigo.impl.hpp: write_size, write_ascii")],
  ["bytes of the written file, accessors of the re-read object"])
p("C13","Numbers convert to and from text accurately",
  "Formatting any integer of any width gives its exact decimal digits, and formatting any finite float or double gives its value with six decimals, correctly rounded to within the last of 17 significant digits, always in the C locale's format; the predicted size always equals the characters produced. Parsing decimal text gives the exact integer for every value that fits the type, and for plain, signed and exponent floating-point notation (whose parts fit the type) the value to within ordinary rounding of the type.",
  ["inputs"],"every integer of every width, every finite floating-point bit pattern, every decimal spelling of up to 17 significant digits in normal range",
  "Tests format a few short values; rounding carries, digit-count boundaries, denormals, huge magnitudes, extreme negatives and exponent spellings need value sweeps with an independent oracle.",
  [I+"stb.impl.hpp",I+"pigo.impl.hpp","include/pigo.hpp"],
  [("double to text",I+"stb.impl.hpp: stbsp_to_chars, stbsp__real_to_str"),("integer to text and sizes",I+"pigo.impl.hpp: write_size, write_ascii"),("text to number",I+"pigo.impl.hpp: FileReader::read_int, read_fp, read_sign")],
  ["write_size, write_ascii, FileReader::read_int, FileReader::read_fp, weights of loaded objects"])
p("C14","Sparse tensor files load exactly",
  "Loading a sparse tensor text file (one entry per line: the coordinates, then the weight if the object is weighted, with comment lines, trailing comments, blank lines, spaces or tabs, CRLF line ends, and with or without a final newline) yields its order from the first entry line, every entry in file order, all coordinates and, when weighted, every weight in integer, decimal or exponent notation. The maximum-label query returns the largest coordinate of each dimension.",
  ["inputs","configurations","schedules"],"every well-formed tensor file of any order from 1 up, weighted or not, every type, storage kind and thread count",
  "Tests load two five-line files and one column file; order detection with other spellings of the first line and thread boundaries are not sampled.",
  [I+"tensor.impl.hpp",I+"pigo.impl.hpp","include/pigo/tensor.hpp"],
  [("order detection",I+"pigo.impl.hpp: FileReader::count_spaces_to_eol; Tensor::read_el_"),("two-pass parallel reader",I+"tensor.impl.hpp: Tensor::read_el_, detail::read_tensor_entry_i_"),("per-thread maxima",I+"tensor.impl.hpp: Tensor::max_labels")],
  ["Tensor c(), w(), m(), order(), max_labels()"])
p("C15","No memory error or undefined behaviour on valid use",
  "On well-formed inputs and documented use, no operation reads or writes outside the memory it owns, uses freed or uninitialised memory, or executes undefined behaviour. In particular no byte at or beyond the end of an opened file is ever touched, whatever the file's length or content.",
  ["inputs","configurations","histories","schedules"],"every sequence of documented operations on every valid input (including files that end exactly at a page boundary), type and storage kind, and team size",
  "The tests run without instrumentation; a one-byte over-read, a stale pointer or an uninitialised field almost always goes unnoticed in an optimised run on small files.",
  ["include/pigo.hpp",I+"pigo.impl.hpp",I+"coo.impl.hpp",I+"csr.impl.hpp",I+"graph.impl.hpp",I+"tensor.impl.hpp",I+"stb.impl.hpp"],
  [("end-of-file checks in the cursor","FileReader::*"),("allocation sizes from the counting pass","allocate_ in COO, CSR, Tensor"),("ownership of temporary storage","convert_coo_, convert_csr_, new_csr_without_dups")],
  ["AddressSanitizer, UndefinedBehaviorSanitizer, memcheck, guard pages and poisoned tails around file mappings"])
p("C16","Contents do not depend on storage or integer types",
  "The same input loaded, converted, saved or written through raw-pointer, vector or shared-pointer storage, and through any label and ordinal types wide enough for the data (equal or different from each other, signed or unsigned), describes the same entries, weights, counts and dimensions. Converting between such types in either direction loses nothing.",
  ["configurations","inputs"],"every combination of storage kinds and label, ordinal and weight types wide enough for the data, across every load route and conversion",
  "Each test instantiates one or two type combinations; most template combinations are never compiled, let alone compared.",
  ["include/pigo.hpp",I+"coo.impl.hpp",I+"csr.impl.hpp",I+"tensor.impl.hpp",I+"graph.impl.hpp"],
  [("storage abstraction","include/pigo.hpp: detail::allocate_mem_, get_value_, set_value_, get_raw_data_"),("intermediate objects built with chosen types","COO::read_, CSR::read_")],
  ["all accessors across instantiations"])
p("C17","Copies are independent and free releases everything once",
  "Copying or assigning a coordinate object or tensor, including self-assignment and overwriting an object that already holds data, gives an equal object whose later modification or release never affects the other. Transposing swaps row and column of every entry and the row and column counts, keeps weights in place, and undoes itself; releasing an object frees all raw memory it owns exactly once, also when it is empty, default-constructed or already released, and no operation leaves raw memory of its intermediate steps behind.",
  ["histories","inputs","configurations"],"every sequence of construct, copy, assign, modify, transpose and free on objects of every storage kind, including small ordinal types",
  "Tests copy and transpose one small object each; sequences, empty objects and leaks are not observed.",
  ["include/pigo/coo.hpp","include/pigo/tensor.hpp","include/pigo/csr.hpp","include/pigo.hpp"],
  [("deep copy","COO::copy_, COO::operator=, Tensor::copy_, Tensor::operator="),("release","COO::free, CSR::free, Tensor::free, detail::free_mem_"),("transpose","COO::transpose")],
  ["accessors of both objects, LeakSanitizer, AddressSanitizer"])
p("C18","Directed graphs and matrices hold two views of the same entries",
  "A directed graph's in-edges are exactly the transpose of its out-edges, and a matrix's column view exactly the transpose of its row view, with the same weights, one for one, and swapped row and column counts. This holds however the object was built (file of any supported type, coordinate object, binary file) and the counts it reports are those of the data.",
  ["inputs","configurations"],"every graph or matrix (rectangular, with empty rows, duplicates and self loops), build route, weight setting, storage kind and thread count",
  "Tests build one small square-ish graph from an edge list and look at a few rows.",
  ["include/pigo/graph.hpp","include/pigo/matrix.hpp",I+"graph.impl.hpp"],
  [("copy, transpose, convert","DiGraph::from_coo_, Matrix::from_coo_"),("paired binary save and load",I+"graph.impl.hpp: DiGraph::save, read_")],
  ["in(), out(), csr(), csc(), n(), m(), nrows(), ncols()"])
p("C19","Neighbour iteration visits exactly a vertex's adjacency",
  "For every vertex of a graph, iterating over its neighbours visits exactly the entries stored for that vertex, each once and in stored order, the degree is their number, and start and end offsets delimit them. The degrees add up to the number of edges, and vertices without edges iterate over nothing.",
  ["inputs","configurations"],"every graph, vertex, storage kind and vertex or edge-counter type",
  "Tests iterate one vertex of one graph.",
  ["include/pigo/graph.hpp",I+"graph.impl.hpp"],
  [("edge iterators and offset lookup","EdgeIt, EdgeItT, BaseGraph::neighbor_start, neighbor_end, degree")],
  ["BaseGraph::neighbors, degree, neighbor_start, neighbor_end"])
p("C20","File handles read and write exact bytes",
  "A file created through the library has exactly the requested size and, after the handle is closed, exactly the bytes written through sequential values, strings, seeks and parallel blocks; an opened file reports its true size and returns exactly its bytes by sequential, string-matching and parallel reads, advancing the position by what was read, at any offset including beyond 4 GiB. Reading or writing past the end or seeking outside the file raises an error and transfers nothing; moving a handle carries its state over, and every mapping is released exactly once.",
  ["inputs","histories","configurations"],"every sequence of handle operations, block size, offset, thread count and handle move",
  "Tests write and read one small array; block sizes smaller than the team, large offsets, moves and out-of-range access are never exercised.",
  ["include/pigo.hpp",I+"pigo.impl.hpp"],
  [("mapping life cycle",I+"pigo.impl.hpp: File::File, ~File, operator=; include/pigo.hpp: File(File&&)"),("position-advancing transfer",I+"pigo.impl.hpp: read, write, parallel_read, parallel_write, File::seek")],
  ["bytes of files, recorded mmap/munmap calls, exceptions"])
p("C21","I/O failures surface as errors without leaks or termination",
  "When opening, creating, sizing or mapping a file fails at any step (including closing it and advising on the mapping), loading, saving or writing raises a PIGO error that the caller can catch; the process is never terminated, and no file descriptor or mapping stays behind. The same holds for missing, unreadable, empty or non-regular inputs and for unwritable output paths, and the library stays usable afterwards.",
  ["fault_sequences","configurations"],"every single failing system or stdio call in the open, create, size and map sequence of every load, save and write route, and every thread count",
  "No test makes any file operation fail.",
  [I+"pigo.impl.hpp",I+"coo.impl.hpp",I+"tensor.impl.hpp"],
  [("error checks and cleanup in the file constructor",I+"pigo.impl.hpp: File::File"),("file creation from inside parallel writers","COO::write, Tensor::write")],
  ["exceptions, /proc/self/fd, recorded mmap/munmap calls, process exit status"])
p("C22","Automatic file-type detection picks the right reader",
  "With automatic detection a file beginning with a PIGO binary header is read as that binary kind whatever its name, an unknown PIGO header is refused, otherwise a name ending in .mtx is Matrix Market, one ending in .graph is an adjacency file, and anything else is an edge list. Loading with automatic detection equals loading with that type given explicitly, and a type the class cannot load is refused with the not-implemented error.",
  ["inputs","configurations"],"every file name and leading content, every class and explicit or automatic type",
  "Tests use a few conventional names.",
  [I+"pigo.impl.hpp",I+"coo.impl.hpp",I+"csr.impl.hpp",I+"graph.impl.hpp",I+"tensor.impl.hpp"],
  [("header and extension inspection",I+"pigo.impl.hpp: File::guess_file_type"),("dispatch","COO::read_, CSR::read_, DiGraph::read_, Tensor::read_")],
  ["File::guess_file_type, loaded contents, exception type"])
p("C23","Every way of building the library gives the same behaviour",
  "The library compiled without OpenMP, as the generated single-header release, as the shipped single-header release, in several translation units of one program, with different compilers, language standards from C++11 and optimisation levels, gives the same results on the same inputs as the normal parallel build. Each such build compiles and links (without OpenMP when the compiler lacks it).",
  ["configurations","inputs"],"every supported build configuration and every valid input",
  "The test suite compiles the include tree once with OpenMP, one compiler and one standard.",
  ["include/pigo.hpp","generate_release.py","release/pigo.hpp",I+"pigo.impl.hpp",I+"coo.impl.hpp",I+"csr.impl.hpp",I+"tensor.impl.hpp"],
  [("sequential fallbacks under _OPENMP","every parallel region"),("single-header generation","generate_release.py"),("inline definitions","include/pigo/impl/*.hpp")],
  ["result digests of the same workload in each build"])
p("C24","Character search finds every offset",
  "Searching an open file or buffer for a character returns the offsets of exactly its occurrences, in ascending order, each once, including at the very first and last byte, counted from the reader's position. Bytes outside the reader's range are never reported or touched, for any number of threads.",
  ["inputs","schedules","configurations"],"every buffer content and length, searched character (including NUL), starting position and thread count",
  "One test searches one 500-byte file for newlines with one thread count.",
  ["include/pigo.hpp",I+"pigo.impl.hpp"],
  [("two-pass parallel search",I+"pigo.impl.hpp: FileReader::find_offsets"),("cursor movement","include/pigo.hpp: FileReader::move_to, operator+, smaller_end")],
  ["FileReader::find_offsets result tensor"])
p("C25","Independent use from several application threads is safe",
  "Application threads that each work on their own objects and files, or that only read or copy one shared object, obtain the same results as when run alone, with no data race between them. This includes calls made from inside the application's own OpenMP regions.",
  ["schedules","histories"],"every interleaving of independent library calls from several application threads or an enclosing parallel region",
  "No test calls the library from more than one thread.",
  ["include/pigo.hpp",I+"pigo.impl.hpp",I+"stb.impl.hpp",I+"coo.impl.hpp",I+"csr.impl.hpp",I+"tensor.impl.hpp"],
  [("absence of mutable shared state","static data in stb.impl.hpp, File, FileReader"),("team size discovered per call","num_threads computation in each reader")],
  ["all accessors, written files, ThreadSanitizer"])
p("C26","Reported dimensions always bound the entries",
  "In every object the library builds, by any load route, option, conversion, transposition or round trip, each entry's row is below the reported rows and its column below the reported columns, the label count is at least both (for an object read from an adjacency file it is the file's row count), and the entry count is the number of entries actually present and initialised. Compressed objects have a valid offset for every label and row.",
  ["inputs","histories","configurations"],"every chain of loads, conversions, symmetrisations, transpositions, saves and loads on every valid input, square or rectangular",
  "Tests check dimensions in a few places after single loads; chains of operations and rectangular or symmetrised inputs are not sampled.",
  [I+"coo.impl.hpp",I+"csr.impl.hpp","include/pigo/coo.hpp","include/pigo/matrix.hpp","include/pigo/graph.hpp"],
  [("dimension bookkeeping","read_el_, read_mm_, read_graph_, convert_coo_, convert_csr_, transpose, read_bin_")],
  ["n(), nrows(), ncols(), m() against the entries"])
p("C27","The documented programs do what their documentation says",
  "The programs of the documentation compile unchanged and do what is said of them. Cleaning a graph writes every undirected edge of its input once, smaller label first, in ascending order, without loops or duplicates, and cleaning the result changes nothing. Symmetrising writes every off-diagonal entry in both directions and every loop once, in ascending order. Edge search answers correctly for every pair of vertices and refuses vertices the graph does not have. The README's neighbour listing and the binary-array tutorial print and read exactly what is in the file. The result does not depend on the number of threads, nor, where several file kinds are accepted, on the kind.",
  ["inputs","configurations"],"every valid input file of each kind a program accepts, every query and thread count",
  "The example programs are not part of the test suite: no test runs them, nor the chain of options, conversions, sorting and writing they are made of.",
  ["docs/examples/clean_graph.cpp","docs/examples/symmetrize.cpp","docs/examples/find_edge.cpp","README.md",I+"coo.impl.hpp",I+"csr.impl.hpp","include/pigo/graph.hpp"],
  [("read, convert, sort, remove duplicates, write","docs/examples/*.cpp over COO, CSR and Graph"),("sequential and parallel reads of one file","docs/tutorials/read_binary.rst over ROFile")],
  ["files written, output and exit status of the documented programs"])
p("C28","Operations change nothing but what they are asked to",
  "Reading, saving, writing, converting, copying, sorting or releasing leaves everything else as it was. Inputs need no more than read permission and are not changed or touched; the only file that appears or changes is the one named by the caller. An object never changes when files it was loaded from or saved to are changed, cut or deleted afterwards, changing an object never changes a file or another object loaded from the same file, and source objects stay as they were (apart from what the operation is documented to change). Nothing is printed, no descriptor stays open, and the working directory, environment, locale, umask, signal handling, rounding mode, stream formatting, random-number state and OpenMP settings of the application are the same afterwards.",
  ["inputs","histories","configurations"],"every load, conversion, save, write and release, on every kind of file and object, as any user, with any thread count and OpenMP setting, including calls that fail",
  "The tests look only at the returned values; none looks at the rest of the directory or the process, and none changes a file after loading it.",
  [I+"pigo.impl.hpp",I+"coo.impl.hpp",I+"csr.impl.hpp",I+"tensor.impl.hpp","include/pigo.hpp"],
  [("open flags and mapping protection",I+"pigo.impl.hpp: File::File"),("copies out of the mapping","read_bin_, File::parallel_read"),("number of threads for nested regions","the omp_ calls before each parallel region")],
  ["directory listings with content and times, process settings, accessors of all objects involved"])
p("C29","The text cursor follows its documentation and stays in its range",
  "A file reader set on any range of bytes never leaves or looks beyond that range, whatever the bytes. Moving to the next integer, signed integer, number, line end or given character lands exactly there (at the end when there is none), skipping '%' and '#' comments where documented and nothing else; reading a number returns its value and stops right behind it; the questions (more to read, size, current character, at a string, at a line end, at a zero) are answered from the range alone and do not move the cursor; adding a count or a smaller end stays within the range; copies are independent.",
  ["inputs","histories"],"every byte range and every sequence of cursor operations on it (numbers that fit the type read)",
  "Tests walk one or two short texts; ends inside a number or comment, ranges that stop before more digits, and arbitrary bytes are not sampled.",
  ["include/pigo.hpp",I+"pigo.impl.hpp"],
  [("cursor primitives","include/pigo.hpp: FileReader"),("scanning loops",I+"pigo.impl.hpp: FileReader::skip_comments .. at_str")],
  ["FileReader::d, good(), size(), peek(), returned values"])
with open('properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
