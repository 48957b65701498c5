prop('P01', 'Concurrent analyses of one kernel do not influence each other',
     'Any number of kerncraft invocations running at the same time on the same kernel file, with equal or '
     'different settings, each end with the exit status and the report they would give if they had run alone. '
     'No invocation fails, warns differently or reports different numbers because of the others.',
     ['schedules', 'configurations'],
     'All interleavings of 2-4 processes at system-call granularity, all models, machines, compilers, '
     'in-core models, predictors, cores and start offsets.',
     'The tests run one process at a time; an interleaving of two processes sharing intermediates never occurs.',
     [K, CP, ICM, 'kerncraft/models/benchmark.py'], [LOCK, FRESH, LOC], [STORE],
     ['stdout and exit status of each invocation'],
     technique=SIM,
     note='Every simulated process runs the real CLI; its report is compared with a lone cold run.')

prop('P02', 'Intermediates have one producer, no half-read file, no deadlock',
     'At any time at most one live process produces a given intermediate file and nobody reads it while it is '
     'being produced in place. Whatever mixture of processes runs and whichever of them are killed, interrupted '
     'or fail while holding or awaiting a lock, all others finish within a bounded number of steps.',
     ['schedules', 'crash_points', 'fault_sequences'],
     '2-5 processes, kills (alone or together with their compiler), interrupts, compiler failures and stalls at '
     'any system call, all interleavings.',
     'Mutual exclusion and freedom from deadlock are statements about all interleavings and crash points; the '
     'tests contain neither a second process nor a crash.',
     [K, CP], [LOCK, ('whole-file publication', 'kerncraft/kernel.py update_intermediate')], [STORE],
     ['file-system and lock calls of all processes'],
     technique=SIMF, note='Event history of every file and lock checked; step bound as liveness.')

prop('P03', 'An interrupted or failed run never changes what later runs report',
     'If a run is killed, interrupted, or hit by a full disk, an I/O error or a failing compiler at any point, '
     'every later or concurrent undisturbed run on the same kernel reports exactly what it would have reported '
     'had the disturbed run never happened. A disturbed run that nevertheless ends successfully reports the '
     'correct result.',
     ['crash_points', 'fault_sequences', 'schedules'],
     'One or two faults out of kill, kill leaving the compiler running, SIGINT, ENOSPC, EIO, short transfer, '
     'EMFILE, failing rename, compiler failure or death, at every system-call index (stratified), followed by '
     'undisturbed runs with same and other settings.',
     'Crash points number in the hundreds per run and tests never crash a run; the damage shows only in the '
     'run after it.',
     [K, CP, ICM], [('whole-file publication', 'kerncraft/kernel.py update_intermediate'), LOCK, FRESH], [STORE],
     ['reports of later runs'],
     technique=SIMF, note='Faults stratified over all system-call indices of the victim.')

prop('P04', 'Reports always reflect the current kernel, machine file and package',
     'After the kernel file, the machine file or the installed package is modified while no run is in progress, '
     'every later run reports what a run without any earlier intermediates would report on the modified files. '
     'No intermediate produced before the last change of kernel or package is used.',
     ['histories', 'configurations'],
     'Histories of runs and edits with file time stamp granularity from 1 ns to 2 s, any gap between run and '
     'edit, same-tick edits included.',
     'Staleness needs a run, an edit and another run with adversarial time stamps; tests start cold.',
     [K, CP, 'kerncraft/kerncraft.py', 'kerncraft/machinemodel.py'], [FRESH], [STORE],
     ['reports', 'files opened for reading'],
     technique='deterministic simulation: simulated clock and time stamps, seeded edit histories',
     note='Edits during a run and edits that preserve old time stamps are outside the property.')

prop('P05', 'Intermediates are built once and reused',
     'While kernel, machine file and package stay unchanged, every intermediate is produced by at most one of any '
     'number of concurrent or later undisturbed runs, and a repetition of a finished run produces none and starts '
     'no compiler or in-core analyzer. Reuse does not depend on how much time passed.',
     ['schedules', 'histories', 'configurations'],
     '1-4 concurrent runs on cold or warm stores, followed by repetitions after 0 s to 1 day.',
     'Counting productions over interleavings needs control of the schedule and observation of all files; tests '
     'check neither.',
     [K, CP, ICM], [LOCK, FRESH, LOC], [STORE], ['files written', 'programs executed'],
     technique=SIM, note='Productions and program starts counted in the event history.')

prop('P06', 'Cached results are never reused for different settings',
     'For any sequence of runs on one kernel file with different machine files, number of cores, constants, '
     'compilers, compiler flags, in-core models, marked block, pointer increments, cache predictors and models, '
     'each run reports what it would report on an empty store. Settings that influence a result are never '
     'confused, also for machine files of the same name in different directories. Somebody who asks to choose block or '
     'increment himself is asked in every run, and his choice holds for this run only.',
     ['histories', 'configurations'],
     'Sequences of 2-4 runs that vary one setting or several; every ordered pair of settings of each dimension '
     'can follow another.',
     'The tests evaluate single configurations; a collision needs a pair of configurations in sequence.',
     [K, CP, ICM, 'kerncraft/machinemodel.py'], [LOC, ('machine identifier', 'kerncraft/machinemodel.py get_identifier')],
     [STORE], ['reports'],
     technique='deterministic simulation: seeded run histories over durable state',
     note='Each run compared with its lone cold run.')

prop('P07', 'Analyses work on file systems without locks',
     'On a file system whose lock calls fail, runs executed one after another still end with the same exit status '
     'and report as with locks, cold and with cached intermediates, and each run that would have locked tells '
     'that locking is unavailable.',
     ['configurations', 'histories', 'fault_sequences'],
     'Sequences of 1-3 runs over all settings with every lock call failing.',
     'The tests run on a file system with working locks; the fallback is never executed.',
     [K, CP], [('fallback when locking fails', 'kerncraft/kernel.py lock_intermediate, release_exclusive_lock')],
     [STORE], ['stdout, stderr and exit status'],
     technique='deterministic simulation with fault injection: failing locks',
     note='ENOLCK for every lock call, reports compared with those of runs with locks.')

prop('P08', 'Clean-up on exit removes exactly the own intermediates',
     'A run asked to clean up its intermediates that ends by itself or by an interrupt - successfully or with any '
     'error after it started to use intermediates - leaves none of its kernel\'s intermediates behind, '
     'unless another run on this kernel that was active at the same time is to keep them; what another run is using is '
     'never removed. It removes or modifies nothing else: other kernels\' intermediates and neighbouring files remain untouched, and its '
     'report is the same as without clean-up.',
     ['fault_sequences', 'histories', 'configurations'],
     'Cold and warm stores, failures at any system call, bad settings, compiler failures and interrupts, with and '
     'without a concurrent run on another kernel in the same directory or on the same kernel, cleaning up or not.',
     'Exit paths under faults are not exercised by the tests.',
     [K, 'kerncraft/kerncraft.py'], [('removal at exit', 'kerncraft/kernel.py get_intermediate_location')], [STORE],
     ['directory tree after exit'],
     technique=SIMF, note='Whole directory tree compared before and after the run.')

prop('P22', 'Runs write nothing outside their documented places',
     'A run creates, changes or deletes files only in the directory of intermediates next to its kernel file, in '
     'the requested result files and in temporary directories, of which undisturbed runs leave none behind; kernel, machine file, installed package and '
     'working directory remain unmodified. This also holds for runs that fail at any point.',
     ['fault_sequences', 'configurations', 'schedules'],
     'Kernel paths relative and absolute, different working directories, blanks in names, 1-3 runs, faults at any '
     'system call.',
     'Tests do not observe which files a run touches, least of all in failing runs.',
     [K, CP, 'kerncraft/kerncraft.py'], [LOC], [STORE], ['every mutating file-system call, attributed'],
     technique=SIMF, note='Every mutating call of every process is attributed and checked.')

prop('P20', 'Failures are reported with their reason',
     'Whatever goes wrong at whatever point (full disk, I/O error, no file handles left, missing or failing compiler, '
     'LIKWID or in-core analyzer, network, interruption), each of the programs ends with its result or with this '
     'very reason: the error of the operating system, the failed command or a message, never silently and never '
     'with an error of its own making, such as a missing key or attribute. Undisturbed analyses with supported settings '
     'succeed.',
     ['fault_sequences', 'configurations', 'schedules'],
     'kerncraft with all models, in-core models and predictors, stand-alone benchmark, picklemerge, generator of '
     'machine files and iaca_get; 0-2 faults of 14 kinds at any system call or program run; missing programs.',
     'Error paths are hardly executed by the tests, and each is a few lines between thousands of places where a '
     'fault can hit; in-core models other than OSACA are not run by the stable tests.',
     [K, CP, 'kerncraft/kerncraft.py', 'kerncraft/incore_model.py', 'kerncraft/machinemodel.py',
      'kerncraft/models/benchmark.py', 'kerncraft/models/standalone_benchmark.py', 'kerncraft/picklemerge.py',
      'kerncraft/iaca_get.py'],
     [('analyses of the marked code', 'kerncraft/incore_model.py *_analyse_instrumented_*'),
      ('choice of the marked block', 'kerncraft/incore_model.py asm_instrumentation'),
      ('failing measurements', 'kerncraft/models/benchmark.py perfctr')], [STORE],
     ['exit status, exception and messages of every process'],
     technique=SIMF, note='The end of every process is matched with the faults that were injected into it.')

prop('P23', 'A sweep reports the same as separate runs',
     'One invocation with several models and ranges of constants reports for every combination exactly the block '
     'that a separate invocation for this combination on an empty store reports; if all separate invocations '
     'succeed, so does the combined one.',
     ['configurations', 'histories'],
     '1-3 models in any order times 1-3 values per constant, with different units, cores, predictors, compilers '
     'and in-core models.',
     'In-process state carried over between models and constants shows only for particular sequences; tests check '
     'a few single combinations.',
     ['kerncraft/kerncraft.py', K, CP, 'kerncraft/models/ecm.py', 'kerncraft/models/roofline.py',
      'kerncraft/models/benchmark.py'],
     [('state reset between parameter sets', 'kerncraft/kernel.py clear_state'),
      ('model loop', 'kerncraft/kerncraft.py run')], [], ['blocks of the report'],
     technique='deterministic simulation: seeded in-process histories against lone runs',
     note='Each block compared with a separate simulated cold process.')

PM = 'kerncraft/picklemerge.py'
WHOLE = ('whole-file replacement under a directory lock', 'kerncraft/picklemerge.py replace_file, update_pickle')
RES = ('--store / --json files', 'accumulated results of runs', 'kerncraft/kerncraft.py run')

prop('P09', 'Result files survive faults',
     'At every moment, also after a run was killed, interrupted or hit by I/O errors, a result file (store or JSON) '
     'is either absent or a complete file holding everything an earlier finished run had stored. Later undisturbed '
     'runs on the same result file succeed and add their results.',
     ['crash_points', 'fault_sequences', 'histories'],
     'Kill, interrupt, full disk, I/O error, short write, failing rename or compiler failure at every system call '
     'of kerncraft and the stand-alone benchmark, with new, empty and existing result files.',
     'The damage requires a fault during the few calls that write the file; tests never fail a call.',
     ['kerncraft/kerncraft.py', 'kerncraft/standalone_pheno.py', PM], [WHOLE], [RES],
     ['result files after every file-system call'],
     technique=SIMF, note='The content of the result files is checked after every mutating call.')

prop('P10', 'Concurrent runs lose no results in a shared store',
     'When any number of kerncraft runs and stand-alone benchmarks add results to the same store at the same time, '
     'the store finally holds the results of every run that ended successfully, next to all earlier ones, also if some reach it by a symbolic link; its permissions and the link stay.',
     ['schedules', 'configurations'],
     '2-4 concurrent writers with equal or different configurations, new, empty or existing store, all '
     'interleavings.',
     'A lost update needs two interleaved writers; tests run one process at a time.',
     ['kerncraft/kerncraft.py', 'kerncraft/standalone_pheno.py', PM], [WHOLE], [RES],
     ['content of the store after the last run'],
     technique=SIM, note='Final store compared with the union of the lone runs\' results.')

prop('P11', 'Stores accumulate exactly what was run',
     'After any history of successful runs, a store contains exactly one entry per parameter set, holding the '
     'result of the latest run with these parameters as it would be stored into a new store, and the JSON file '
     'of a run holds the same results as the store after the run.',
     ['histories', 'configurations'],
     'Histories of 1-4 runs of kerncraft and the stand-alone benchmark with ranges of constants, several models, '
     'repeated parameters and machine files.',
     'Tests look at single-run stores; accumulation, overwriting and identity of keys need histories.',
     ['kerncraft/kerncraft.py', 'kerncraft/standalone_pheno.py', PM], [WHOLE,
     ('identity of a stored result', 'kerncraft/kerncraft.py identifier_from_arguments')], [RES],
     ['content of the store after each run'],
     technique='deterministic simulation: seeded run histories over durable state',
     note='Reference model: dictionary updated with the results of lone runs.')

prop('P12', 'picklemerge merges completely and atomically',
     'picklemerge adds the contents of all sources to the destination, recursively, later files taking precedence '
     'where both hold a value, keeps everything else, and never leaves the destination damaged or loses the '
     'results of other processes that merge into it at the same time, whatever fault hits it.',
     ['histories', 'fault_sequences', 'schedules', 'inputs'],
     'Random nested dictionaries, 1-3 sources, 1-3 concurrent merges, faults at every system call, damaged or '
     'missing inputs.',
     'There is no test of picklemerge at all; atomicity needs faults.',
     [PM], [WHOLE, ('recursive update', 'kerncraft/picklemerge.py update')], [RES],
     ['destination file after every call'],
     technique=SIMF, note='Executable reference model of the recursive merge; file checked after every call.')

BM, SB = 'kerncraft/models/benchmark.py', 'kerncraft/models/standalone_benchmark.py'
MM = 'kerncraft/machinemodel.py'
prop('P13', 'Machine benchmarks can be interrupted and continued without loss or repetition',
     'However often the generation of a machine file is interrupted (^C, kill, failing likwid-bench, full disk) and '
     'continued from the file it wrote: complete series of measurements are kept and not measured again unless the '
     'sizes to be measured have changed, missing ones are measured, every stored bandwidth is the maximum of its ten '
     'recorded repetitions made with the fastest usable kernel at the size, cores and threads stored with it, and the '
     'rest of the description is preserved. A generation that succeeds leaves a complete file.',
     ['fault_sequences', 'histories', 'crash_points'],
     'Machines of 1-3 cache levels, 1-2 cores and threads per core, unsupported likwid-bench kernels, files of older '
     'versions, 0-3 interruptions, edits of cache sizes and core counts in between.',
     'There is no test of the generator; generating takes hundreds of measurements and can stop at any of them.',
     [MM], [('resuming', 'kerncraft/machinemodel.py _update_benchmarks'), ('measurement', 'kerncraft/machinemodel.py measure_bw'),
            ('choice of kernel', 'kerncraft/machinemodel.py find_fastest_bench_kernel')],
     [('machine file', 'YAML file given by -m and FILE', MM)],
     ['machine file', 'likwid-bench invocations'],
     technique=SIMF, note='Stored numbers compared with the records of the simulated likwid-bench.')

prop('P14', 'A machine file is never damaged while it is generated or continued',
     'At every moment during generation, and after a kill, interrupt or I/O error at any point, the machine file is '
     'either as it was before or a complete machine description holding every complete series of measurements that '
     'an earlier version of it held, also if it is continued in place; Kerncraft runs reading it meanwhile and the '
     'next generation continuing it succeed.',
     ['crash_points', 'fault_sequences', 'schedules'],
     'Kills at any system call with partially performed writes, short writes, full disks, failing renames, readers '
     'and a second generator at the same time.',
     'Tests do not kill processes; the file is replaced dozens of times during hours of benchmarks.',
     [MM, 'kerncraft/picklemerge.py'],
     [('writing', 'kerncraft/machinemodel.py dump'), ('replacement', 'kerncraft/picklemerge.py replace_file'),
      ('entry', 'kerncraft/machinemodel.py main')],
     [('machine file', 'YAML file given by -m and FILE', MM)], ['every content the machine file has had'],
     technique=SIMF, note='All contents of the file are recorded and parsed independently of Kerncraft.')

IG = 'kerncraft/iaca_get.py'
prop('P15', 'Pointer increments given by the user are remembered exactly',
     'An increment a user has typed is used for this run, remembered for exactly this block of assembly, found by every '
     'later run (which does not ask again) and never lost or altered, whatever kills, I/O errors and concurrent runs '
     'storing other increments happen in between; no run ever uses an increment for a block that nobody gave for it.',
     ['histories', 'crash_points', 'schedules', 'fault_sequences'],
     '2-5 runs of kernels whose stride cannot be detected, in any order and interleaving, with existing caches '
     'including comments, foreign lines and lines without end.',
     'Increments are only asked for interactively; no test has a user, a cache or a crash.',
     [ICM, K], [('cache of increments', 'kerncraft/incore_model.py find_increment_in_cache/store_increment_to_cache'),
                ('marking', 'kerncraft/incore_model.py asm_instrumentation')],
     [('~/.kerncraft/increment_cache', 'lines of hash and increment', ICM)],
     ['marked assembly', 'increment cache', 'prompts'],
     technique=SIMF, note='Typed increments compared with those in the marked assembly and in the cache.')

prop('P16', 'Benchmark reports one sufficient, undisturbed measurement',
     'A successful Benchmark run reports numbers of its last measurement, which took at least 1.5 s, on the '
     'requested cores, at the clock of the machine file (unless warnings are ignored); all counters are taken with '
     'the same executable and repetitions, whatever other runs rebuild meanwhile. A failed or frequency-deviating '
     'measurement ends the run unsuccessfully and without a stored result.',
     ['schedules', 'configurations', 'fault_sequences'],
     'Machines with 1 ns to 5 s per repetition, noise, changing clocks, with and without the MEM group, concurrent '
     'edits and rebuilds of the kernel, failing or truncated measurements.',
     'Tests have no LIKWID and one process; adaptation, noise, failures and rebuilds never occur.',
     [BM, K], [('adaptation of repetitions', 'kerncraft/models/benchmark.py analyze'),
               ('shared lock on the executable', 'kerncraft/models/benchmark.py bench_lock_fp'),
               ('frequency check', 'kerncraft/models/benchmark.py perfctr')], [STORE],
     ['stored result', 'likwid-perfctr invocations'],
     technique=SIMF, note='Reported numbers recomputed from the records of the simulated hardware.')

prop('P17', 'Every hardware counter of a model is measured and used correctly',
     'For every machine file, all counters referenced by its metrics are measured once, at one of their allowed '
     'registers, without using a register twice in a run, and the data transfers and the phenomenological ECM model '
     'equal the direct evaluation of the metrics with the true counts. Incomplete metrics disable the model only.',
     ['configurations', 'fault_sequences', 'inputs'],
     'Random metrics (sums, maxima, coefficients) over events with register ranges, unions, boxes and options, '
     'the same event at several boxes, uncountable events, failing runs; kerncraft and stand-alone benchmark.',
     'No test measures counters; conflicts of registers depend on the combination of metrics.',
     [BM, SB, 'kerncraft/machinemodel.py'],
     [('distribution of events over runs', 'kerncraft/models/benchmark.py build_minimal_runs'),
      ('parsing of metrics', 'kerncraft/machinemodel.py parse_perfmetric'),
      ('matching of counters', 'kerncraft/models/benchmark.py analyze')], [],
     ['likwid-perfctr invocations', 'stored result'],
     technique='deterministic simulation: simulated counter hardware, seeded machine files and faults',
     note='Oracle: direct rational evaluation of the metrics with the simulated true counts.')

prop('P18', 'Installing IACA can be interrupted and repeated at any point',
     'However often the installation of IACA is killed, interrupted, hit by I/O errors or by failing or truncated '
     'downloads, nothing incomplete is ever taken for an installation, the next undisturbed iaca_get succeeds with all '
     'versions complete, executable and with corrected scripts, and an existing installation is kept until a complete '
     'one replaces it on request; undisturbed calls leave no temporary files behind.',
     ['crash_points', 'fault_sequences', 'histories', 'schedules'],
     '1-4 calls of iaca_get, alone or two at a time, with and without --force, writable and read-only package '
     'directories, empty, installed or damaged locations.',
     'No test installs anything (there is no network); interruption happens at any of 400 system calls.',
     [IG], [('installation', 'kerncraft/iaca_get.py main'), ('lookup', 'kerncraft/iaca_get.py find_iaca')],
     [('~/.kerncraft/iaca', 'installed versions of IACA', IG)], ['installation directories after every call'],
     technique=SIMF, note='Installation compared with the simulated archives after every system call.')

prop('P19', 'The stand-alone benchmark terminates and reports its last measurement',
     'For every binary, machine speed and rule for variables, loops and repetitions, the stand-alone benchmark '
     'finishes after a bounded number of measurements, changes only adjustable variables and only within their '
     'ranges, warns exactly if a region stayed below 1.5 s, and reports for every region numbers that follow from '
     'its last measurement and the variables used in it.',
     ['configurations', 'histories', 'fault_sequences'],
     'Marker regions, per-region variables, loops, flops and repetitions, repetitions from markers, run time '
     'models including unmeasurably short runs, noise, changing clocks, failing measurements.',
     'There is no test of the stand-alone benchmark.',
     [SB, K, 'kerncraft/standalone_pheno.py'],
     [('adaptation of variables', 'kerncraft/models/standalone_benchmark.py adjust_variables')], [],
     ['stored result', 'likwid-perfctr invocations'],
     technique='deterministic simulation with fault injection: simulated machine, seeded rules and faults',
     note='Reported numbers recomputed from the records of the simulated hardware.')

prop('P24', 'The same input gives the same report in every process',
     'Two runs of kerncraft with the same kernel, machine file and options produce the same report, stored results and '
     'generated code, whatever the time, process ids, order of directory entries, granularity of time stamps, '
     'unrelated environment and hash seed of the interpreter (up to the order of printed sets).',
     ['inputs', 'configurations', 'histories'],
     'Kernels with one to seven arrays in one to three dimensions, all analytic models and both cache predictors, '
     'ranges of constants, verbosity; two worlds per run, eight interpreters.',
     'One test process has one hash seed and compares with tolerances.',
     [K, CP, 'kerncraft/kerncraft.py'], [WHOLE, ('order of simulated accesses', 'kerncraft/kernel.py compile_global_offsets')],
     [STORE, RES], ['stdout', 'stores', 'intermediates'],
     technique='deterministic simulation: every source of nondeterminism varied, including interpreter hash seeds',
     note='Outputs of equal runs in different simulated worlds and interpreters compared.')

# ---- properties this family cannot decide ------------------------------------------------
PURE = ('A pure function of its arguments: no concurrency, time, I/O or faults for a simulator to vary. '
        'Seeded schedules and faults add nothing; it needs property-based testing or proof.')
prop('N01', 'Layer conditions predict the traffic of the cache hierarchy',
     'For every stencil-like kernel and every cache hierarchy the layer-condition prediction of misses, hits and '
     'evicts per level satisfies conservation between neighbouring levels and agrees with the symbolic conditions '
     'it prints.', ['inputs'], 'All kernels, constants and machine descriptions.',
     'Tests contain a handful of kernels and constants.', [CP],
     [('layer conditions', 'kerncraft/cacheprediction.py LayerConditionPredictor')], na=PURE)
prop('N02', 'ECM and Roofline combine their contributions as the models define',
     'For all contributions the ECM prediction is the maximum of overlapping time and the sum of non-overlapping '
     'and transfer times, the Roofline prediction is the minimum over its ceilings, and unit conversions between '
     'the supported units are consistent with each other.', ['inputs'],
     'All contributions, cores, units.', 'Tests check a few numbers.',
     ['kerncraft/models/ecm.py', 'kerncraft/models/roofline.py'],
     [('model formulas', 'kerncraft/models/*.py')], na=PURE)
prop('N03', 'Index arithmetic of kernels is exact',
     'Global iteration numbers and loop indices are inverse to each other and the byte addresses compiled for '
     'an iteration equal those of the C program, for all loop nests and array shapes supported.', ['inputs', 'programs'],
     'All supported kernels.', 'Tests check few kernels.', [K],
     [('global iterator', 'kerncraft/kernel.py global_iterator_to_indices')], na=PURE)
prop('N04', 'Quantities with prefixed units keep their value',
     'Parsing, printing, rescaling and arithmetic of quantities with metric or binary prefixes preserve their '
     'value and reject incompatible units.', ['inputs'], 'All values, prefixes and units.',
     'Tests check a few values.', ['kerncraft/prefixedunit.py'],
     [('prefix handling', 'kerncraft/prefixedunit.py PrefixedUnit')], na=PURE)
prop('N05', 'Interval sets are normalised and complete',
     'Unions of intervals contain exactly the union of the given points, sorted, disjoint and merged.', ['inputs'],
     'All sequences of intervals.', 'Tests check few sequences.', ['kerncraft/intervals.py'],
     [('merging', 'kerncraft/intervals.py Intervals')], na=PURE)
prop('N06', 'Generated C code is equivalent to the kernel',
     'The compilable code generated for a kernel performs the same array accesses in the same order as the kernel '
     'file describes, for every kernel the parser accepts.', ['programs'], 'All accepted kernels.',
     'Tests compile few kernels.', [K], [('code generation', 'kerncraft/kernel.py get_kernel_code, get_main_code')],
     na='A program-translation property (translation validation, not scheduling or faults); the simulator replaces '
        'the compiler by a stand-in and cannot execute generated code.')
prop('N07', 'Automatic block and increment selection marks the inner loop',
     'For every assembly file the compiler may emit, the automatically marked block is the innermost vectorised '
     'loop and the detected pointer increment is its byte stride.', ['programs'], 'All assembly files.',
     'Tests check few files.', [ICM], [('block selection', 'kerncraft/incore_model.py asm_instrumentation')], na=PURE)
