AI = 'abstract interpretation of the type-checked syntax tree (clang) of each tool from main, path-sensitive'
CORE = 'abstract interpretation of the type-checked syntax tree (clang) of each instantiated function from an unknown state, path-sensitive'
CHECKS = {
    'T01': (AI, 'proved for every open site and every exit of the 13 built tools, relative to the library models in checks/models.py'),
    'T02': (AI, 'proved for every exit with status 0 of the 13 built tools; what counts as an error report is recognised from the message text'),
    'T03': (AI + ' with linear relations between file length, buffer size and row size', 'proved for every raw read of the tools, for every file length below 16 GiB'),
    'T10': (AI + ' with the argument vector as a linear term', 'proved for every argument read of the 13 built tools'),
    'T07': (AI + ' with the precision and notation as part of the stream state', 'proved for every insertion of a floating-point value; what is a result on the standard output is recognised from the absence of lettered text in the statement'),
    'T05': (AI + ' with not-a-number as part of the intervals and tracking of the origin of values', 'proved for the listed parameters at every output point of the 8 tools that take numeric parameters with a domain; a parameter that a rewrite stores in a form that is not followed (e.g. only a function of it) is not checked'),
    'T12': (AI + ' with the order of each container (unsorted file data, sorted) as part of the state', 'proved for every construction of an interpolation object in the 6 tools that interpolate; filtering or shifting a sorted table is taken to keep its order'),
    'T04': (AI + ', once per documented option letter', 'proved for every option letter in the usage texts of the 10 tools that use option letters; that the effect is the one the usage text describes in words is not checked'),
    'T13': (AI + ', with the origin of values (taint), and definite assignment of local variables', 'proved for every value written, every undetermined branch and index and every output file opened by the 13 built tools, for the listed sources (clocks, random numbers, environment, addresses, unordered containers, appending, unset scalars); elements of arrays and of heap memory that are only partly set are not followed'),
    'C01': (CORE + ', with a typestate of the checkpoint file', 'proved for every function that builds an output archive, for every failure point the library models know (each library call that may throw, each stream state, each file operation), destructors included; that boost::serialization itself writes what it is given is taken for granted'),
    'C02': (CORE + ', tracking whether the target object or the file was changed', 'proved for every function that builds an input archive, for every library call that may throw; what the archive accepts as undamaged is up to boost::serialization'),
    'C03': ('structural comparison of the flattened, instantiated save and load functions (sequence of typed items)', 'decided for every save/load pair reachable from the checkpoint functions, both scalar types; values are compared by type, position, repetition and target member'),
    'C05': (CORE + ' (and of the diag tool from main), with the status of each LAPACK call as an unknown', 'proved for every LAPACK eigensolver call site of the core and the diag tool, for every status value and every number of pairs found; the CUDA code is not compiled in this configuration and not covered'),
    'C09': (CORE + ' (construction, every public operation and destruction of each class that creates a directory); compile-fail witnesses for copying and moving', 'proved for every path through construction, use and destruction, with failure of the creation as an unknown; a run that ends by std::terminate or exit() without unwinding leaves the directory behind (the owner is not destroyed)'),
    'C04': (CORE + ' (the functions from which the marker can be written, with every other call opaque: it returns anything or throws; and main); structural rules for handlers, early exits and destructors', 'proved for every path from the entry points to the marker and for every exit of main, with a failure possible at every call; that a pass called is a pass completed rests on the handler rule'),
    'C06': (CORE + ', with the chosen name as a symbolic value that differs from every name it is compared with, and once with every known name', 'decided for every function of the core and of the 29 symmetry units that compares a configuration name or a string parameter with names; what the selected implementation does is not part of it'),
    'C10': (CORE + ', with each inconsistent setting as an assumption on the values of the parameters; comparison of the declared keywords', 'decided for every parameter declaration, every path through the code that reads the settings and the 29 + 2 listed inconsistent settings (any value in the stated range)'),
    'C07': (CORE + ', recording the sequence of messages on every path (loops as nested sequences with their bounds); comparison of the sequences of both sides', 'decided for every path of the worker loop, of the functions of the master that exchange messages and of the start-up; the order in which replies arrive is arbitrary; deadlocks by buffering inside the message library and failures of processes are outside'),
    'T08': (CORE + ' (every in-process entry point), from a state in which everything that an earlier calculation can have changed is unknown', 'proved for every global and static local of the chain generator, every parameter setting and every earlier history; the contents of the files read are input; process-wide state of libraries is covered for the multiprecision default precision only'),
    'T11': (CORE + ' (the functions that look up keywords, with an unknown text for every keyword); comparison of defaults, conversions and accepted intervals', 'decided for every keyword both tools look up; ranges are intervals of one value, conditions that relate several settings are not compared; the table of documented keywords is part of the check'),
}
NA = {}
for p in ['T06', 'T08', 'T09', 'T11'] + [f'C{i:02d}' for i in range(1, 12)]:
    if p not in CHECKS:
        NA.setdefault(p, 'no static check has been built for it yet')
