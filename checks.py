"""What each check runs: source, variant, groups of cases, number of cases (quick / thorough)."""
def J(variant, group, q, t=None, **kw):
    d = dict(variant=variant, group=group, q=q, **kw)
    if t is not None: d['t'] = t
    return d

def P(f, n=3): return [f] + [[f, '-DPART=%d' % i] for i in range(1, n)]    # split into parts
CHECKS = {}
CHECKS['C01'] = dict(src='c01.cpp',
    rule='each case is a seeded model (entry list) rendered to edge-list text with random spelling, comments, blank lines, line ends and columns, loaded with a random team size, type set, storage kind and entry point, and compared with the model; distinct inputs = distinct (text, team size)',
    jobs=[J('rel', 'plain', 12000), J('rel', 'weighted', 12000), J('rel', 'cuts', 600), J('rel', 'large', 60), J('rel', 'huge', 1, 2),
          J('asan', 'plain', 4000), J('asan', 'weighted', 4000), J('asan', 'cuts', 200), J('sched', 'plain', 2000), J('sched', 'cuts', 120)])
CHECKS['C04'] = dict(src='c04.cpp', split=True,
    rule='seeded Matrix Market texts (consistent; or with one contradiction between header and entries; or with another format banner) loaded under the load options with random team sizes; distinct inputs = distinct (text, team size)',
    jobs=[J('rel', 'huge', 1, 3, slices=1, mem=28), J('rel', 'good', 8000), J('rel', 'options', 8000), J('rel', 'contradict', 8000), J('rel', 'csr', 1500), J('rel', 'format', 1500), J('asan', ['good', 'options', 'contradict'], 1500), J('asan', 'format', 400)])
CHECKS['C05'] = dict(src='c05.cpp',
    rule='seeded adjacency texts (0- or 1-based, empty rows, comments, unterminated ends; or with one contradiction) loaded with random team sizes; distinct inputs = distinct (text, team size)',
    jobs=[J('rel', 'huge', 1, 3, slices=1, mem=28), J('rel', 'good', 12000), J('rel', 'cuts', 500), J('rel', 'large', 40), J('rel', 'reject', 6000), J('rel', 'weighted', 600), J('asan', ['good', 'reject'], 2500), J('asan', 'cuts', 150), J('sched', 'good', 1200), J('sched', 'cuts', 80)])
CHECKS['C06'] = dict(src='c06.cpp',
    rule='seeded coordinate objects (skewed, duplicate-heavy, single hot row, empty rows, rectangular) converted with random team sizes, type and storage pairs; compared per row as multisets of (endpoint, weight); distinct inputs = distinct (object, team size)',
    jobs=[J('rel', 'labels', 3, 12, slices=1, mem=4), J('rel', 'huge', 0, 2, slices=1, mem=64), J('rel', 'plain', 5000), J('rel', 'weighted', 5000), J('rel', 'large', 80), J('rel', 'contend', 120), J('asan', ['plain', 'weighted'], 1500), J('sched', 'small', 3000), J('sched', 'weighted', 300), J('tsan', ['small', 'weighted'], 800)])
CHECKS['C07'] = dict(src='c07.cpp', split=True,
    rule='seeded compressed objects (rectangular, one-based, empty rows, duplicates, self loops) converted under each supported option with random team sizes, type and storage pairs; distinct inputs = distinct (object, option, team size)',
    jobs=[J('rel', 'huge', 1, 3, slices=1, mem=28), J('rel', 'labels', 3, 12, slices=1, mem=4), J('rel', ['plain', 'sym', 'symut'], 3000), J('rel', 'large', 60), J('rel', 'graph', 2500), J('rel', 'refused', 600), J('asan', ['plain', 'sym', 'symut'], 700), J('sched', ['plain', 'sym'], 300)])
CHECKS['C08'] = dict(src='c08.cpp',
    rule='seeded edge-list texts with runs of diagonal and lower-triangle entries, loaded under each of the 8 option combinations, weighted or not, with random or all team sizes; distinct inputs = distinct (text, options, team size)',
    jobs=[J('rel', 'files', 15000), J('rel', 'cuts', 1500), J('rel', 'large', 60), J('asan', 'files', 3000), J('asan', 'cuts', 300), J('sched', 'cuts', 120)])
CHECKS['C09'] = dict(src='c09.cpp',
    rule='seeded compressed objects (all-duplicate rows, empty rows, equal neighbours with different weights, up to 200000 rows) sorted and de-duplicated to the same or other types with random team sizes; distinct inputs = distinct (object, team size)',
    jobs=[J('rel', 'labels', 3, 12, slices=1, mem=4), J('rel', ['same', 'cross'], 1500), J('rel', 'narrow', 1500), J('rel', 'rows', 60), J('rel', 'small', 3000), J('asan', ['same', 'cross'], 250), J('asan', 'small', 1000), J('sched', 'small', 1500), J('sched', 'rows', 8)])
CHECKS['C10'] = dict(src='c10.cpp', split=True,
    rule='seeded coordinate, compressed, directed-graph and tensor objects (empty ones, extreme counts, arbitrary weight bits) saved, loaded into another storage kind by one of four entry points, compared bit for bit and saved again; distinct inputs = distinct (object, team sizes)',
    jobs=[J('rel', 'huge', 2, 4, slices=1, mem=28), J('rel', ['coo', 'csr', 'digraph', 'tensor'], 3000), J('rel', 'large', 60), J('rel', 'loaded', 1500), J('asan', ['coo', 'csr', 'digraph', 'tensor'], 600), J('sched', ['coo', 'tensor'], 200)])
CHECKS['C11'] = dict(src='c11.cpp', split=True, level='fault_enumeration',
    rule='seeded saved objects of every kind: every truncation length (small files) or every page boundary, header byte and random length (large files), every other kind, one changed header byte, other label/ordinal/weight widths, and headers announcing more data up to overflowing sizes; each must raise an exception; distinct inputs = distinct (file, modification)',
    jobs=[J('rel', 'truncated', 250), J('rel', 'truncated_large', 40), J('rel', ['kinds', 'version', 'widths', 'announce'], 5000), J('asan', 'truncated', 100), J('asan', 'truncated_large', 16), J('asan', ['kinds', 'version', 'widths', 'announce'], 2000)])
CHECKS['C12'] = dict(src='c12.cpp',
    rule='seeded non-empty coordinate objects and tensors (all digit lengths, type extremes, floating-point weights around rounding and digit-count boundaries) written as text over absent or longer existing files, checked line by line against an independent decimal oracle and read back; distinct inputs = distinct (object, team size)',
    jobs=[J('rel', 'huge', 1, 3, slices=1, mem=28), J('rel', ['coo', 'tensor'], 6000), J('rel', 'large', 24), J('asan', ['coo', 'tensor'], 1200), J('sched', ['coo', 'tensor'], 250)])
CHECKS['C13'] = dict(src='c13.cpp',
    rule='all 8- and 16-bit integers, seeded 32/64-bit integers around type extremes and powers of ten, floats and doubles of every binary exponent and around ties of the sixth decimal, formatted into exactly sized buffers and compared with 128-bit decimal oracles; seeded decimal texts parsed from exactly sized buffers; the same under a locale with a decimal comma; distinct inputs = distinct values or texts',
    jobs=[J('rel', 'exhaustive', 2, slices=1), J('rel', 'ints', 400), J('rel', 'signed_ints', 400), J('rel', 'fp_out', 2000), J('rel', 'fp_exponents', 24), J('rel', 'fp_in', 1500), J('rel', 'fp_sweep', 96, 4096), J('rel', 'locale', 60, slices=1),
          J('asan', 'exhaustive', 1, slices=1), J('asan', 'ints', 150), J('asan', 'fp_out', 300), J('asan', 'fp_exponents', 6), J('asan', 'fp_in', 300), J('asan', 'signed_ints', 60)])
CHECKS['C14'] = dict(src='c14.cpp',
    rule='seeded tensors of order 1 to 12 rendered as noisy text (comments, blank lines, trailing comments, CRLF, unterminated end, page-exact sizes, integer/decimal/exponent weights), loaded with random team sizes, types, storage and entry points, compared entry by entry; maximum-label queries; distinct inputs = distinct (text, team size)',
    jobs=[J('rel', 'huge', 1, 3, slices=1, mem=28), J('rel', ['weighted', 'plain'], 8000), J('rel', 'cuts', 600), J('rel', 'large', 60), J('rel', 'maxima', 3000), J('asan', ['weighted', 'plain'], 2000), J('asan', ['cuts', 'maxima'], 200), J('sched', ['weighted', 'plain'], 500), J('sched', 'cuts', 80)])
MA = ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free']
MW = ['-Wl,--wrap=malloc,--wrap=free']
CHECKS['C17'] = dict(src='c17.cpp', split=True,
    rule='seeded histories of construct, copy, assign (also to itself), modify, transpose, release and release again over several live objects, each compared with its model after every operation; every route that builds an object followed by its release, with every raw allocation tracked; distinct inputs = distinct histories',
    jobs=[J('rel', ['coo', 'tensor'], 6000, link=MW), J('rel', 'mixed', 1500, link=MW), J('rel', 'routes', 5000, link=MW), J('asan', ['coo', 'tensor'], 1000, leak=True), J('asan', 'mixed', 300, leak=True), J('asan', 'routes', 1200, leak=True)])
CHECKS['C18'] = dict(src=P('c18.cpp'),
    rule='seeded matrices (rectangular, empty rows, duplicates, self loops) turned into directed graphs and matrices by every build route with random team sizes, types and storage kinds; both views compared with the model per row as multisets of (endpoint, weight); distinct inputs = distinct (entries, route, team size)',
    jobs=[J('rel', 'small', 8000), J('rel', 'large', 60), J('rel', 'cross', 1500), J('asan', 'small', 1500), J('asan', 'cross', 300), J('sched', 'small', 400)])
CHECKS['C19'] = dict(src='c19.cpp',
    rule='seeded graphs filled by hand, converted, loaded or sorted; every vertex iterated with range-for and with explicit iterators and compared with the stored entries (address and value), degree and offsets; distinct inputs = distinct (graph, route)',
    jobs=[J('rel', 'huge', 1, 3, slices=1, mem=28), J('rel', 'small', 8000), J('rel', 'large', 60), J('rel', 'files', 3000), J('asan', 'small', 1500), J('asan', 'files', 500)])
CHECKS['C20'] = dict(src='c20.cpp',
    rule='seeded histories of create, open, typed and string reads and writes, seeks, parallel blocks, out-of-range accesses, moves and closes over several handles, compared with a byte model after every operation and with the closed file; parallel blocks of 1 byte to 3 MB under every team size; a sparse file beyond 4 GiB; distinct inputs = distinct histories or blocks',
    jobs=[J('rel', 'hugeblock', 1, 3, slices=1, mem=28), J('rel', 'history', 40000), J('rel', 'blocks', 8000), J('rel', 'huge', 1, 3, slices=1, mem=28), J('rel', 'edge', 500), J('asan', 'history', 8000), J('asan', ['blocks', 'edge'], 300), J('sched', 'blocks', 400)])
CHECKS['C24'] = dict(src='c24.cpp',
    rule='seeded buffers (exactly sized allocations) and files (ending at a page boundary) searched for a present or absent byte from any start and end with random team sizes, types and storage kinds, compared with a sequential scan; distinct inputs = distinct (content, range, character, team size)',
    jobs=[J('rel', ['buffer', 'file'], 10000), J('rel', 'large', 16), J('rel', 'cursor', 2000), J('rel', 'huge', 1, 2, slices=1), J('asan', ['buffer', 'file'], 3000), J('asan', 'cursor', 600), J('sched', 'buffer', 2000)])
CHECKS['C21'] = dict(src='c21.cpp', level='fault_enumeration',
    rule='29 load, save and write routes with random team sizes: every system or stdio call of the route made to fail in turn (once, and from then on), and real failures (missing, empty, unreadable, directory, device, link loop, long name, full device, size and descriptor limits, cut files); distinct inputs = distinct (route, call or failure, team size)',
    jobs=[J('rel', 'calls', 290), J('rel', 'sticky', 174), J('rel', 'paths', 116), J('rel', 'contents', 600), J('asan', 'calls', 58), J('asan', 'paths', 29), J('asan', 'contents', 150)])
CHECKS['C22'] = dict(src='c22.cpp',
    rule='seeded file names (types as suffixes, infixes, directories, other case) times leading contents (each header, cut, corrupted or continued headers, text); detection compared with the rule; every class loading every kind automatically and explicitly; distinct inputs = distinct (name, content, class)',
    jobs=[J('rel', 'guess', 12000), J('rel', 'loads', 10000), J('asan', 'guess', 2500), J('asan', 'loads', 2000)])
CHECKS['C26'] = dict(src=P('c26.cpp'),
    rule='seeded chains of up to 12 operations (load under each option, convert, symmetrise, transpose, copy, sort, de-duplicate, save, load, write, read, directed graph, matrix) with random team sizes; after each step every entry is compared with the reported dimensions and the count with the expected number of entries; distinct inputs = distinct chains',
    jobs=[J('rel', 'chains', 6000), J('rel', 'large', 40), J('rel', 'tensor', 1500), J('asan', 'chains', 1200), J('sched', 'chains', 150)])

CHECKS['C27'] = dict(src='c27.cpp',
    rule='the programs of docs/examples (compiled unchanged), README.md and the tutorials run on seeded input files of every kind they accept, with random team sizes; their output files, printed text, exit codes and exceptions are compared with the documented results; distinct inputs = distinct (program, input, team size)',
    jobs=[J('rel', 'small', 12000), J('rel', 'large', 200), J('rel', 'usage', 10), J('asan', 'small', 2000), J('asan', 'usage', 5), J('sched', 'small', 400)])

CHECKS['C28'] = dict(src='c28.cpp', split=True,
    rule='seeded matrices in files of every kind loaded (also read-only, by an unprivileged user), saved, written, converted, sorted, copied and released with random team sizes, each call between two snapshots of the directory (names, contents, times, modes, owners) and of the process (OpenMP settings, locale, environment, signal handlers, umask, rounding mode, directory, random numbers, output); objects compared again after their files were cut, overwritten, deleted, replaced or extended; distinct inputs = distinct (object, route, team size)',
    jobs=[J('rel', 'flows', 3000), J('rel', 'large', 60), J('rel', 'memory', 1200), J('rel', 'refused', 1200), J('rel', 'absent', 1500), J('asan', 'flows', 500), J('asan', 'memory', 250)])

CHECKS['C29'] = dict(src='c29.cpp',
    rule='random sequences of cursor operations on random bytes and number texts, on three copies of the range (ending at an inaccessible page, before digits, before other characters) in lockstep with a model of the documentation: position, range, values and answers compared after every operation; distinct inputs = distinct (text, range)',
    jobs=[J('rel', 'small', 120000), J('rel', 'large', 3000), J('rel', 'walk', 30000), J('asan', 'small', 30000), J('asan', 'walk', 6000)])

CHECKS['C30'] = dict(technique='runtime monitoring: the real code under seeded workloads with every request for memory intercepted and refused in turn, a monitor of the results, objects, mappings and descriptors after each, repeated under ASan/UBSan', src='c30.cpp', level='fault_enumeration',
    rule='57 routes (load, save, write, convert, copy, assign, sort, de-duplicate, construct, search) with random team sizes: every request for the memory of an object refused in turn (once, and from then on); objects of every class and storage constructed with sizes beyond any memory; distinct inputs = distinct (route, request, team size) or (class, sizes)',
    jobs=[J('rel', ['each', 'sticky'], 540, link=MA), J('asan', ['each', 'sticky'], 108, link=MA), J('rel', 'sizes', 4000, link=MA)])
CHECKS['C31'] = dict(technique='runtime monitoring: the real code under seeded workloads with every memory request and release intercepted, an accounting oracle on the peak and on what stays behind', src='c31.cpp',
    rule='57 routes (load, save, write, convert, copy, assign, sort, de-duplicate, construct, search) on objects of about a million bytes with teams of 1 to 40 threads: every request and release of memory counted, the peak beyond the result compared with the data handled; distinct inputs = distinct (route, team size)',
    jobs=[J('rel', 'peak', 570, link=MA)])

CHECKS['C32'] = dict(technique='runtime monitoring: the real code loading generated malformed text, a soundness monitor on every object, repeated loads with different fresh memory and under ASan/UBSan with guarded file mappings', src=P('c32.cpp', 4),
    rule='texts with missing or additional columns and weights, stray characters, garbage headers and long runs of one thing, loaded through 46 text routes (every class, option, label and weight type) with random team sizes, twice with different contents of fresh memory; objects checked entry by entry, converted and loaded under ASan; distinct inputs = distinct (text, route, team size)',
    jobs=[J('rel', 'small', 20000), J('rel', 'medium', 4000), J('rel', 'large', 200), J('rel', 'runs', 1200), J('asan', 'small', 8000), J('asan', 'medium', 1500), J('asan', 'runs', 400)])

WL = ['-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memchr']
CHECKS['C33'] = dict(technique='runtime monitoring: the real code under seeded workloads of two sizes and several team sizes, instrumented to count the basic blocks and bytes each thread executes and moves; an oracle on growth, repetition and division of the work', src='c33.cpp',
    rule='seeded texts of 17 shapes and objects of 7 forms, in two sizes, loaded, converted, sorted, de-duplicated, copied, saved, written and searched with one thread and with a team; the work (basic blocks executed, bytes moved) of all threads and of the busiest one compared between the sizes and the teams; distinct inputs = distinct (operation, shape, team size, work)',
    jobs=[J('rel', g, n, extra=['-fsanitize-coverage=trace-pc'], link=WL) for g, n in [('texts', 1000), ('objects', 900), ('tensors', 120), ('blocks', 100)]])

def CB(*ids): return [['combo.cpp', '-DCOMBO=%d' % i] for i in ids]
CORE = CB(0, 1, 2, 3, 5)
CHECKS['C02'] = dict(src=['c02.cpp'] + CORE,
    rule='seeded runs of 14 groups of operations (every load route and option, conversion, sort, duplicate removal, copy, transposition, save, write, graphs, matrices, tensors, search, handles); every step digested and compared with the same run under one thread, for random and for all team sizes 2 to 33, team sizes changing between steps, a thread limit, and seeded schedules; distinct inputs = distinct (run, team size)',
    jobs=[J('rel', 'teams', 6000), J('rel', 'every', 600), J('rel', 'large', 24), J('rel', 'teams', 600, env={'OMP_THREAD_LIMIT': '3'}), J('sched', 'schedules', 900)])
CHECKS['C16'] = dict(src=['c16.cpp'] + CB(*range(23)),
    rule='seeded runs of 14 groups of operations, each executed with every one of 23 label, ordinal, weight and storage combinations able to hold the data (8- to 64-bit, signed and unsigned, equal and different), each also converting to a fixed wide combination; every step digested and compared across combinations; distinct inputs = distinct (run, group)',
    jobs=[J('o1', 'small', 6000), J('o1', 'medium', 800), J('o1', 'wide', 60)])

RACE = 'tsan:data-race'
def T(src, group, q, **kw): return J('tsan', group, q, src=src, only=RACE, **kw)
CHECKS['C03'] = dict(src=['c03.cpp'] + CB(0, 1, 2, 3, 5, 7, 8, 17),
    rule='seeded runs of 14 groups of operations over 8 type and storage combinations, and the workloads of seven other checks, executed under ThreadSanitizer on an OpenMP runtime that declares to it exactly the orderings OpenMP promises, with random team sizes before every step and seeded delays; distinct inputs = distinct runs',
    jobs=[J('tsan', 'small', 2400, only=RACE), J('tsan', 'medium', 1400, only=RACE), J('tsan', 'wide', 240, only=RACE), J('tsan', 'large', 80, only=RACE),
          T('c04.cpp', ['good', 'contradict'], 300), T('c05.cpp', ['good', 'reject'], 300), T('c09.cpp', ['same', 'rows'], 16),
          T('c12.cpp', ['coo', 'tensor'], 200), T('c14.cpp', 'weighted', 300), T('c20.cpp', 'blocks', 300), T('c24.cpp', ['buffer', 'file'], 300)])

MEM = 'asan:|ubsan|crash|valgrind|past-end|uninitialised'
STRICT = ['-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR', '-fsanitize=float-cast-overflow']
def A(src, group, q, **kw): return J('asan', group, q, src=src, only=MEM, **kw)
VG = ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no', '--track-origins=no', '--max-stackframe=4000000', '--num-callers=20']
C15 = ['c15.cpp'] + CB(0, 1, 2, 3, 5, 10)
CHECKS['C15'] = dict(src=C15,
    rule='seeded runs of 14 groups of operations and the workloads of seven other checks under AddressSanitizer and UndefinedBehaviorSanitizer and under memcheck, with file mappings that end at an inaccessible page or a poisoned tail; the same runs repeated with four different contents of fresh memory; files of arbitrary content ending at a page boundary; distinct inputs = distinct runs or contents',
    jobs=[J('asan', 'small', 3000, only=MEM, extra=STRICT), J('asan', 'medium', 900, only=MEM, extra=STRICT), J('asan', 'large', 40, only=MEM, extra=STRICT), J('asan', 'ends', 2500, only=MEM, extra=STRICT),
          J('rel', 'fill', 2500, only=MEM), J('rel', 'ends', 6000, only=MEM), J('rel', 'memcheck', 120, 6000, slices=6, only=MEM, prefix=VG, timeout=600, order=1),
          A('c05.cpp', ['good', 'cuts'], 200), A('c09.cpp', ['same', 'small'], 60), A('c13.cpp', ['fp_out', 'fp_in', 'ints'], 60), A('c14.cpp', ['weighted', 'plain', 'maxima'], 400), A('c17.cpp', ['coo', 'tensor', 'mixed'], 150), A('c20.cpp', ['history', 'blocks', 'edge'], 150), A('c24.cpp', ['buffer', 'cursor'], 300)])

import c23
CHECKS['C23'] = dict(jobs=[], extra_steps=[c23.step],
    rule='seeded runs of 14 groups of operations over four type and storage combinations in separate translation units, executed by programs built from the include tree, the shipped and a freshly generated single header, with and without OpenMP, by two compilers, for C++11 to C++23 and every optimisation level; the digests of all steps are compared with the reference build; distinct inputs = distinct runs')
LIM = {'OMP_THREAD_LIMIT': '5'}
CHECKS['C25'] = dict(src=['c25.cpp'] + CB(0, 1, 2, 5),
    rule='seeded sets of up to 15 runs (14 groups of operations) executed by 2 to 5 application threads, or inside the application\'s own parallel regions of seven forms with one to three levels of nesting, with teams cut by a thread limit, and 2 to 5 threads reading, copying, converting, saving and writing the same objects and files; every result compared with the same call made alone; distinct inputs = distinct runs',
    jobs=[J('rel', 'threads', 1200), J('rel', 'region', 1200), J('rel', 'region', 400, env=LIM), J('rel', 'threads', 300, env=LIM), J('rel', 'shared', 900),
          J('tsan', 'threads', 300), J('tsan', 'region', 400), J('tsan', 'limited', 500), J('tsan', 'shared', 300), J('sched', 'region', 300), J('sched', 'limited', 600), J('asan', 'threads', 200), J('asan', 'region', 200, env=LIM), J('asan', 'shared', 150)])
