# Per property: harness, simulated programs, exploration time and the texts for evidence and manifest.
CONV_REAL = ['pwned-converter-cli (main, ConvertOperation)', 'pwned-lib (operation queue, semaphore, reader, hash, UUID, terminal)', 'libstdc++ streams', 'boost.filesystem', 'boost.program_options', 'OpenSSL MD5']
OS_STUB = ['thread scheduling, mutexes, condition variables, clocks and sleeping (simulator)', 'file and terminal system calls: real calls on a private tmpfs directory behind the fault injector', 'keyboard (scripted)', '/proc/meminfo, /dev/urandom, number of processors', 'heap (arena with use-after-free and overflow checks)']
ASSUME = [
 'Threads interleave sequentially consistently, preempted at synchronisation operations, system calls and at instrumented memory accesses of the code of this repository (not inside libstdc++/boost shared objects, whose headers are instrumented where they are compiled in)',
 'A killed process loses what was not yet handed to write(); data handed to write() survives (process death, not power loss)',
 'Search is seeded and bounded by time: absence of a violation is not a proof',
]
C = dict
MERGE_REAL = ['pwned-merger-cli (main, MergeOperation)', 'pwned-lib (operation queue, semaphore, records, terminal)', 'libstdc++ streams', 'boost.filesystem', 'boost.program_options']
INSP_REAL = ['pwned-lib PasswordInspector, Hash, PasswordHashAndCount', 'libstdc++ streams', 'boost.filesystem', 'boost.program_options', 'OpenSSL MD5']
OS_STUB1 = OS_STUB[1:]
SRV_REAL = ['pwned-server (main, HttpWorker, URI)', 'pwned-lib PasswordInspector, Hash', 'boost.asio and boost.beast (scheduler, reactor, timers, strands, HTTP parser and serialiser)', 'libstdc++ streams']
SRV_STUB = OS_STUB1 + ['sockets, epoll, eventfd, timerfd and the network (simulated)', 'HTTP clients (scripted byte streams)']
PROPS = {
 'C01': C(harness='conv', tools=['conv'], what='input trees with colliding names, separators, MD5/hex options, memory limits, thread counts and random interleavings', real=CONV_REAL, stub=OS_STUB),
 'C02': C(harness='conv', tools=['conv'], what='destinations that already hold colliding names, destination equal to the source, another program that creates files there, same stems in several directories, faults, pauses and cancellation', real=CONV_REAL, stub=OS_STUB),
 'C03': C(harness='conv', tools=['conv'], what='a fault-free base run per workload, then runs with faults planned at the file operations it performed', real=CONV_REAL, stub=OS_STUB),
 'C04': C(harness='conv', tools=['conv'], what='pause and resume keys placed at random scheduling points, at file operations seen in a base run, or when everything waits', real=CONV_REAL, stub=OS_STUB),
 'C05': C(harness='conv', tools=['conv'], what='the cancel key placed at random scheduling points, at file operations seen in a base run, while paused or when everything waits', real=CONV_REAL, stub=OS_STUB),
 'T01': C(harness='conv,insp,markov', tools=['conv', 'lookup', 'index', 'markovgen', 'markovdrv', 'markovlookup'], what='converter, lookup program and Markov lookup with different initial terminal settings, keys, end of input, faults, and other threads running on while main ends', real=CONV_REAL + ['pwned-lookup-cli (main)', 'pwned-markov-lookup (main)'], stub=OS_STUB),

 'C06': C(quick=16, harness='queue', tools=['queuedrv'], what='programs of add, execute, pause, resume, cancel and reset calls from two threads with failing and endless operations', real=['pwned-lib OperationQueue, Operation, Semaphore', 'libstdc++ threads and streams above the pthread calls'], stub=OS_STUB + ['operations (scripted by the harness)']),
 'M01': C(harness='merge', tools=['merge'], what='sets of record files, fan-in limits and thread interleavings', real=MERGE_REAL, stub=OS_STUB),
 'M02': C(quick=16, harness='merge', tools=['merge'], what='a fault-free base run per workload, then runs with faults planned at the file operations it performed', real=MERGE_REAL, stub=OS_STUB),
 'M03': C(harness='merge', tools=['merge'], what='a base run per workload, then runs killed before, after or in the middle of a file operation it performed, and the same command repeated', real=MERGE_REAL, stub=OS_STUB),
 'M04': C(quick=16, harness='merge', tools=['merge'], what='pause and cancel keys placed at random scheduling points, at file operations seen in a base run, or when everything waits', real=MERGE_REAL, stub=OS_STUB),
 'I01': C(harness='insp', tools=['inspdrv', 'index'], what='record files, index widths and histories of lookups, with short and interrupted reads', real=INSP_REAL + ['pwned-index (main)'], stub=OS_STUB1),
 'I02': C(quick=16, harness='insp', tools=['inspdrv', 'index'], what='a base run of the index builder per workload, then runs with faults or kills planned at the file operations it performed', real=INSP_REAL + ['pwned-index (main)'], stub=OS_STUB1),
 'L01': C(harness='insp', tools=['inspdrv', 'index'], what='record files and histories of lookups by all search variants on one open object, with short and interrupted reads', real=INSP_REAL, stub=OS_STUB1),
 'L02': C(quick=16, harness='insp', tools=['inspdrv', 'index'], what='histories of lookups during which reads fail once or for a while, at random or at the operations of a base run', real=INSP_REAL, stub=OS_STUB1),
 'L03': C(quick=16, harness='insp', tools=['lookup', 'index'], what='databases, indexes, and passwords arriving at the terminal in pieces', real=INSP_REAL + ['pwned-lookup-cli (main)'], stub=OS_STUB1),
 'S01': C(harness='server', tools=['server', 'index'], what='databases, numbers of workers and threads, clients whose requests and responses are split, delayed and interleaved, and random interleavings of the service threads', real=SRV_REAL, stub=SRV_STUB),
 'S02': C(harness='server', tools=['server', 'index'], what='clients that stay silent, send partial or malformed requests, stop reading, reset, half-close or vanish at all times, failing accepts, followed by well-behaved clients', real=SRV_REAL, stub=SRV_STUB),
 'S03': C(harness='server', tools=['server', 'index'], what='slow and fast well-behaved clients among others, connection reuse aligned with timer expiry, failing, short and interrupted database reads', real=SRV_REAL, stub=SRV_STUB),
 'S04': C(harness='server', tools=['server', 'index'], what='record files and indexes with flipped bits, missing ends, lost, repeated or foreign blocks and extreme numbers, or missing altogether, served to well-behaved and some misbehaving clients', real=SRV_REAL, stub=SRV_STUB),
 'S05': C(harness='server', tools=['server', 'index'], what='the same traffic of well-behaved, silent, malformed, slow and vanishing clients four times over, failing accepts, numbers of workers and threads, and random interleavings', real=SRV_REAL, stub=SRV_STUB),
 'K01': C(quick=16, harness='markov', tools=['markovgen', 'markovdrv', 'markovlookup'], what='training lists, model files cut off at any byte, storage faults while training, saving and loading, at random or at the operations of a base run', real=['pwned-lib markov chain and nodes', 'pwned-markov-generator (main)', 'pwned-markov-lookup (main)', 'libstdc++ streams'], stub=OS_STUB1),
 'P01': C(quick=16, harness='extract', tools=['extract'], what='input trees, records of earlier runs (also half-written ones), compression, existing output files; a base run per workload, then runs killed at or hit by faults at the file operations it performed, each followed by a second run', real=['pwned-password-extractor (main)', 'pwned-lib UserPasswordReader', 'libbz2', 'libstdc++ streams', 'boost.filesystem', 'boost.program_options'], stub=OS_STUB1 + ['stdio buffering (same semantics, own code)']),
 'E01': C(quick=16, harness='testset', tools=['testset'], what='record files, numbers asked for (also zero, negative and more than there are), both modes and URL output; faults at random and at the operations of a base run', real=['pwned-test-set-extractor (main)', 'pwned-lib PasswordInspector, PasswordHashAndCount, Hash', 'libstdc++ streams', 'boost.program_options'], stub=OS_STUB1),
 'B01': C(quick=16, harness='be2le', tools=['be2le'], what='record files with and without an incomplete tail, faults at random and at the operations of a base run', real=['be2le (main)', 'pwned-lib PasswordHashAndCount, Hash', 'libstdc++ streams'], stub=OS_STUB1),
 'V01': C(harness='load', tools=['loadtest'], what='numbers of workers and threads, run times, scripted servers (prompt, slow, fragmenting, hostile, at the time limit), resolver outcomes, input files with read faults', real=['pwned-server/loadtest (main, HttpClientWorker, latency statistics)', 'pwned-server URI', 'boost asio and beast (headers, compiled in)', 'OpenSSL context set-up (no TLS connection)'], stub=OS_STUB + ['sockets, resolver and servers (scripted)', 'virtual clock']),
 'W01': C(quick=16, harness='benchmark', tools=['benchmark', 'index'], what='databases, test sets, search variants, with and without index, missing files; faults at random and at the reads of a base run', real=['pwned-benchmark (main)'] + INSP_REAL, stub=OS_STUB1),
 'L04': C(harness='reads', tools=['inspdrv'], what='record files up to sixteen gigabytes, evenly filled and clustered, with and without index, and histories of lookups by both search variants', real=INSP_REAL, stub=OS_STUB1),
 'Q01': C(harness='resources', tools=['conv', 'merge', 'index', 'inspdrv', 'testset', 'be2le', 'benchmark', 'extract', 'markovgen', 'lookup'], what='every program but the server on a small and on a large input of the same kind; memory limits, numbers of files to merge at once, processors, interleavings, pauses', real=CONV_REAL + MERGE_REAL[:1] + ['pwned-index, pwned-lookup-cli, be2le, test set extractor, benchmark, password extractor, Markov generator (main)'], stub=OS_STUB),
 'U01': C(quick=16, harness='web', tools=[], what='key by key entered and corrected passwords, clicks, switching off lookups on every key, answers delayed, reordered, lost, cut off, refused or replaced by errors', rule='A case is a seed: it determines the keys and clicks and their times, and for every request when its answer begins and ends and what it is. Each simulated run executes the script of the page. Distinct counts different hashes over the sequence of user actions, requests, stages of answers and contents of the screen; a run without a lookup does not count.', real=['pwned-lookup-web/index.html: its inline script, its elements and their classes'], stub=['browser: document, events, fetch, timers, clock, storage (simulator)', 'JavaScript-MD5 (submodule not present): MD5 of the Node.js crypto module', 'network and web service (scripted answers)', 'user (scripted keys and clicks)'], assume=['Events, promise reactions and timers run one after another as in a browser tab; layout and painting are not simulated']),
 'R01': C(harness='oom', tools=['conv', 'merge', 'index', 'inspdrv', 'lookup', 'extract', 'testset', 'be2le', 'markovgen', 'markovdrv', 'markovlookup', 'benchmark'], what='every program but the server, first undisturbed, then with memory refused at one request (of any size or only large ones) or from there on, with a limit on the memory held at once, or with threads refused', real=CONV_REAL + ['merger, index builder, look-up and Markov programs, extractors, be2le, benchmark (main)'], stub=OS_STUB + ['memory allocation']),
 'D01': C(harness='damage', tools=['conv', 'merge', 'index', 'inspdrv', 'lookup', 'extract', 'testset', 'be2le', 'markovgen', 'markovdrv', 'markovlookup', 'benchmark'], what='every program on files with flipped bits, lost or repeated blocks, missing ends, zeroed or foreign contents and stale companions', real=CONV_REAL + ['main functions of all programs of the repository except pwned-server', 'pwned-lib PasswordInspector, markov chain and nodes'], stub=OS_STUB),
 'X01': C(harness='pipe', tools=['conv', 'merge', 'index', 'inspdrv'], what='collections taken through all four programs without interruption, then again with the merger and the index builder killed, failing or cancelled at operations of that run and repeated', real=CONV_REAL + ['pwned-merger-cli (main, MergeOperation)', 'pwned-index (main)', 'pwned-lib PasswordInspector'], stub=OS_STUB),
}
