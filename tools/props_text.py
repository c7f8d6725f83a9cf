ENG = "every in-memory engine (full and triangle-inequality-pruned k-means, mini-batch, spherical k-means, fuzzy c-means, k-medoids, hierarchical, x-means and g-means)"

p("C01", "Every in-memory clustering run returns under every thread schedule",
  "Every clustering run on valid input, with any number of worker threads, returns its result to the caller after finitely many steps under every fair interleaving of its threads, including spurious condition-variable wakeups and arbitrarily slow threads. No hand-off between the coordinating thread and a worker can be lost, so a run never hangs and never dies part-way.",
  ["schedules", "configurations", "inputs"],
  "all interleavings of coordinator and workers at memory-access granularity, all spurious wakeups, for " + ENG + ", any thread count, init method and data set",
  "The tests run a few data sets once on the host scheduler; a lost wakeup needs a preemption in a window of a few instructions and practically never shows up there.",
  ["libman/thread.cpp", "libman/task_thread.cpp", "libman/coordinator.cpp", "libman/thread.hpp"],
  [("per-worker mutex/condvar sleep and wake", "libman/thread.cpp thread::sleep/wait/wake, libman/task_thread.cpp"),
   ("pending-worker counter and parent condvar", "libman/coordinator.cpp wake4run/wait4complete")],
  ["return of the engine's run call"])

p("C02", "Results do not depend on how the threads were scheduled",
  "For a fixed data set and configuration, including the thread count, a clustering run on the library's worker threads returns bit-identical labels, cluster sizes, centroids and iteration count under every interleaving of its threads. Running the same job again therefore always gives the same answer.",
  ["schedules", "configurations", "inputs"],
  "pairs of arbitrary interleavings of the same job, for " + ENG,
  "Tests execute one host-chosen schedule; ordering bugs between the phases of an iteration need a particular interleaving to change the answer.",
  ["libman/coordinator.cpp", "libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libman/kmeans_thread.cpp", "libman/kmeans_task_thread.cpp", "README.md"],
  [("phase barrier: no reduction before all workers are done", "libman/coordinator.cpp wake4run/wait4complete"),
   ("per-thread accumulators reduced serially in thread order", "libman/kmeans_coordinator.cpp update_clusters"),
   ("default-seeded generators", "libman/kmeans_coordinator.cpp *_init")],
  ["returned cluster result"])

p("C03", "Unpruned k-means computes exactly Lloyd's algorithm",
  "The unpruned multi-threaded k-means returns what sequential Lloyd's algorithm returns from the same initial centroids: after every pass each row carries the label of its nearest centroid under the chosen metric, each centroid is the mean of its rows, and the run stops exactly when the fraction of relabelled rows is zero or at most the tolerance, or at the iteration limit, and reports the number of passes made. The outcome does not depend on the number of threads or NUMA nodes, on how rows are split among threads, or on whether the data comes from a file or from memory.",
  ["schedules", "inputs", "configurations"],
  "all interleavings x thread counts (including more threads than rows and uneven splits) x data sets (duplicates, ties, empty clusters, negative values) x init methods x metrics x tolerance x iteration limits x data sources",
  "Tests compare a handful of fixed data sets with fixed k and thread counts; partition edges, empty clusters and stop conditions under other thread counts and schedules are not sampled.",
  ["libman/kmeans_coordinator.cpp", "libman/kmeans_thread.cpp", "libman/coordinator.cpp", "libkcommon/clusters.cpp"],
  [("row partition", "libman/coordinator.cpp get_rid_len_tup"), ("E-step", "libman/kmeans_thread.cpp EM_step"),
   ("M-step reduction and finalisation", "libman/kmeans_coordinator.cpp update_clusters, libkcommon/clusters.cpp")],
  ["returned cluster result"])

p("C04", "Pruning never changes the k-means answer",
  "Triangle-inequality-pruned k-means returns the same labels, sizes, centroids and number of passes as unpruned k-means on the same data, metric, initialisation and limits. This holds for every data set, each of the metrics, every thread count, task size and thread schedule; pruning is only an optimisation.",
  ["schedules", "inputs", "configurations"],
  "all interleavings x data sets (mixed sign, clustered, far moves, ties excluded by construction or tolerated when numerically equal) x thread counts x task sizes x init methods x limits",
  "Tests run the pruned engine on one or two all-positive data sets; invalid bounds only show when centroids move in particular ways over several iterations.",
  ["libman/kmeans_task_coordinator.cpp", "libman/kmeans_task_thread.cpp", "libkcommon/dist_matrix.cpp", "libkcommon/clusters.cpp", "libman/task_queue.hpp"],
  [("upper-bound maintenance via centroid movement", "libman/kmeans_task_coordinator.cpp update_clusters, libman/kmeans_task_thread.cpp EM_step"),
   ("half inter-centroid distances and s-values", "libkcommon/dist_matrix.cpp compute_dist"),
   ("incremental centroid update", "libkcommon/clusters.cpp unfinalize/peq/finalize")],
  ["returned cluster result"],
  hook="task size knob: KNOR_SIM makes the minimum task size a run-time parameter so that multi-task queues are reached with small data")

p("C05", "Each row is counted exactly once in every result",
  "In every k-means result each row has exactly one label, every label is a valid cluster, each reported cluster size equals the number of rows carrying that label, the sizes add up to the number of rows, and each non-empty cluster's centroid is the mean of its rows. This holds for every thread count, task size and thread schedule: within a pass no row is skipped and none is processed twice.",
  ["schedules", "inputs", "configurations"],
  "all interleavings x thread counts x rows-per-task x data sets, for the full, pruned, mini-batch and OpenMP k-means engines",
  "Tests use data smaller than one task per thread, so splitting a partition into several tasks, remainders and uneven splits is never exercised.",
  ["libman/task_queue.hpp", "libman/task_thread.cpp", "libman/kmeans_task_thread.cpp", "libman/coordinator.cpp", "libman/kmeans_coordinator.cpp", "libauto/kmeans.cpp"],
  [("task queue hand-out", "libman/task_queue.hpp get_task/reset"), ("task request loop", "libman/task_thread.cpp request_task"),
   ("count reduction", "libman/kmeans_task_coordinator.cpp update_clusters")],
  ["returned cluster result"],
  hook="task size knob (KNOR_SIM)")

p("C06", "Mini-batch k-means matches its sequential definition",
  "Mini-batch k-means returns what its sequential definition gives for the same initial centroids and the same per-thread samples: sampled rows go to the nearest centroid, each centroid moves towards its sampled rows one by one with rate one over its cluster's size, and the run stops when the centroid movement drops below the tolerance or at the iteration limit. In the final result every row, sampled or not, carries the label of a nearest returned centroid and the sizes match the labels, under every thread schedule and thread count.",
  ["schedules", "inputs", "configurations"],
  "all interleavings x thread counts x batch sizes x data sets x limits",
  "No test checks the mini-batch result against a model; the sampled sets and the order of centroid updates depend on thread partitioning.",
  ["libman/kmeans_task_coordinator.cpp", "libman/kmeans_task_thread.cpp", "libkcommon/clusters.cpp", "exec/mb_knori.cpp"],
  [("per-thread sampling", "libman/kmeans_task_thread.cpp mb_EM_step"),
   ("serial centroid update", "libman/kmeans_task_coordinator.cpp mb_iteration_end, mb_finalize_centroids"),
   ("final full assignment", "libman/kmeans_task_coordinator.cpp mb_run")],
  ["returned cluster result"])

p("C07", "Distributed k-means equals single-machine k-means",
  "Unpruned distributed k-means run on any number of processes with any number of threads each returns the labels, sizes, centroids and number of passes that sequential Lloyd's algorithm gives from the same initial centroids. The answer does not depend on process count, on message delay or reordering between processes, or on thread schedules within them.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "all interleavings of ranks and their threads x message delays and delivery orders x process and thread counts (uneven splits) x data sets x init methods x limits",
  "Tests launch one configuration with mpirun on one host; uneven splits, other rank counts and rank skew are not sampled.",
  ["libdist/dist_coordinator.cpp", "libdist/mpi.hpp", "libman/kmeans_thread.cpp"],
  [("row split and re-basing of thread offsets", "libdist/dist_coordinator.cpp init, shift_thread_start_rid"),
   ("all-reduce of sums, sizes and change counts", "libdist/dist_coordinator.cpp run, pp_aggregate")],
  ["result assembled on the root process", "written output"])

p("C08", "Distributed pruned k-means equals single-machine k-means",
  "The pruned distributed engine returns the same labels, sizes, centroids and number of passes as sequential Lloyd's algorithm with the same metric from the same initial centroids. This holds for each of the metrics, any number of processes and threads, any message timing and any thread schedule.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "all interleavings of ranks and threads x message delays x process and thread counts x task sizes x data sets x init methods x limits",
  "Tests launch one configuration on one host and data set; the delta aggregation across ranks with pruned rows is exercised for one split only.",
  ["libdist/dist_task_coordinator.cpp", "libman/kmeans_task_thread.cpp", "libkcommon/clusters.cpp"],
  [("delta aggregation over previous universal centroids", "libdist/dist_task_coordinator.cpp run, pp_aggregate"),
   ("bound maintenance", "libdist/dist_task_coordinator.cpp run (set_prev_dist)")],
  ["result assembled on the root process", "written output"],
  hook="task size knob (KNOR_SIM)")

p("C09", "All processes of a distributed run stay in agreement and finish together",
  "In a distributed run every process takes part in the same sequence of matching collective operations, holds bit-identical centroids, sizes and change counts after every pass, and stops after the same pass. Every process therefore terminates under any message delay, rank skew and thread schedule once messages are delivered, and no message is left unreceived.",
  ["schedules", "configurations", "fault_sequences"],
  "all interleavings of ranks x stalls and message delays x process counts x limits, tolerances, init methods and both distributed engines",
  "A rank-dependent decision deadlocks or diverges only for particular splits, tolerances or timings; the tests run one.",
  ["libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp", "libdist/mpi.hpp"],
  [("decisions taken only on all-reduced values", "libdist/dist_coordinator.cpp run, libdist/dist_task_coordinator.cpp run"),
   ("replicated initialisation", "libdist/*_coordinator.cpp kmeanspp_init/forgy_init/random_partition_init")],
  ["calls made to the message-passing library by each process"])

p("C10", "The distributed root gathers every process's labels in row order",
  "When output is requested, the result assembled by the root process of a distributed run contains for every global row exactly the label its owning process computed, in global row order, with sizes that match. This holds whatever the order and delay in which the other processes' messages arrive, for every split of rows including uneven ones.",
  ["schedules", "configurations", "fault_sequences"],
  "all arrival orders and delays of the label messages x process counts x uneven splits, both distributed engines",
  "On one host the messages arrive promptly and mostly in rank order, and the test's split is one of many.",
  ["libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp"],
  [("per-rank synchronous send and ordered receive into offsets", "libdist/dist_coordinator.cpp run, libdist/dist_task_coordinator.cpp run")],
  ["result assembled on the root process", "written output"])

p("C11", "A fault while loading or starting never gives a silently wrong answer",
  "If opening, seeking or reading the data file fails or comes up short, if memory cannot be allocated while the job is set up, or if a worker thread cannot be started, the run ends loudly (an exception or an abnormal exit) without hanging and without delivering a result. Whenever a run does return a result, it is the result for the data in the file.",
  ["fault_sequences", "schedules", "configurations"],
  "every single fault and pairs of faults at each open, seek, read, allocation and thread-start of every worker and process, under all interleavings, for every engine that loads from a file",
  "Tests never inject I/O, allocation or thread-start faults.",
  ["libman/thread.cpp", "libman/thread.hpp", "libman/kmeans_thread.cpp", "libman/kmeans_task_thread.cpp", "libkcommon/io.hpp", "exec/knori.cpp"],
  [("per-worker load of its slice", "libman/thread.cpp numa_alloc_mem"), ("checked reads", "libkcommon/io.hpp bin_io"),
   ("thread start error", "libman/*_thread.cpp start")],
  ["return or failure of the run call"])

p("C12", "A lost process never leads to a complete-looking wrong output",
  "If a process of a distributed run crashes at any point or one of its communication calls reports an error, then either no complete output is produced at all, or the output is exactly the correct one because every process had already contributed everything. A communication error reported to any process is never ignored.",
  ["fault_sequences", "crash_points", "schedules"],
  "a crash of each rank at every communication call and at arbitrary points between them, and an error return from every communication call, x message timings, both distributed engines",
  "No test kills a rank or makes a communication call fail.",
  ["libdist/mpi.hpp", "libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp"],
  [("return codes of collectives checked", "libdist/mpi.hpp"), ("send/receive return codes asserted", "libdist/dist_coordinator.cpp run")],
  ["written output", "exit status of the processes"])

p("C13", "Saved output is complete or the failure is reported",
  "When a clustering result is written to an output directory and the program reports success, the file there contains the whole result: sizes, every row's label and every centroid. If the directory cannot be created, or the file cannot be opened or written completely (full disk, I/O error, short write), the failure is reported through an exception or a failing exit instead of leaving a missing or truncated file behind a success.",
  ["fault_sequences", "crash_points"],
  "every failing open, write and close at each offset of the output, including full disk and short writes, and directory-creation failure",
  "Tests write once to a healthy disk and do not inject write faults.",
  ["libkcommon/types.cpp", "exec/knori.cpp", "exec/knord.cpp"],
  [("result writer", "libkcommon/types.cpp cluster_t::write")],
  ["output file contents", "exception or exit status"])

p("C14", "Tearing a job down is safe at any moment",
  "Destroying a clustering job, right after creation, after a completed run, next to other jobs, or after several runs of the engine that can start over, stops and joins every worker thread and touches no freed memory and no destroyed lock or condition variable, under every thread schedule. After destruction returns no worker of that job is still running.",
  ["schedules", "histories", "crash_points"],
  "all interleavings of the destroying thread and the workers x points of the job's life at which it is destroyed, for " + ENG,
  "Tests destroy jobs once after completion on the host scheduler; use-after-free windows of a few instructions do not crash there.",
  ["libman/coordinator.cpp", "libman/thread.cpp", "libman/task_thread.cpp", "libman/kmeans_coordinator.hpp"],
  [("EXIT broadcast and join", "libman/coordinator.cpp ~coordinator/destroy_threads, libman/thread.cpp ~thread/join")],
  ["memory and synchronisation-object lifetime", "live threads after destruction"])

p("C15", "Hierarchical clustering keeps a consistent partition for every schedule",
  "Recursive-bisection (hierarchical) clustering ends with a partition of all rows: every row has exactly one label of a cluster in the result, reported sizes equal the number of rows per label, centroids are the means of their rows, and there are never more clusters than requested. The partition is the one the sequential definition of the algorithm gives from the same starting centres, under every interleaving of worker threads and of parallel loops.",
  ["schedules", "inputs", "configurations"],
  "all interleavings of workers and of OpenMP loop chunks x data sets x k x thread counts x iteration limits x split tolerances",
  "Tests do not run the hierarchical engines with varied schedules; id hand-out and concurrent map updates depend on chunk order.",
  ["libman/hclust_coordinator.cpp", "libman/hclust.cpp", "libman/hclust_id_generator.hpp", "libkcommon/hclust_compactor.hpp"],
  [("split bookkeeping", "libman/hclust_coordinator.cpp run"), ("id generator", "libman/hclust_id_generator.hpp")],
  ["returned cluster result"])

p("C16", "X-means keeps a consistent partition for every schedule",
  "X-means ends with a partition of all rows: every row has exactly one label of a cluster in the result, reported sizes equal the number of rows per label and there are never more clusters than requested. Which splits are kept, and hence the partition, is what the sequential definition of the algorithm gives from the same starting centres, under every interleaving of worker threads and of parallel loops.",
  ["schedules", "inputs", "configurations"],
  "all interleavings of workers and of OpenMP loop chunks x data sets x k x thread counts x iteration limits",
  "Tests do not run x-means under varied schedules; the split/keep decision loop runs in parallel on shared maps.",
  ["libman/xmeans_coordinator.cpp", "libman/xmeans.cpp", "libman/hclust_coordinator.cpp"],
  [("BIC split decision in a parallel loop", "libman/xmeans_coordinator.cpp partition_decision"), ("mean pass", "libman/xmeans.cpp mean")],
  ["returned cluster result"])

p("C17", "G-means keeps a consistent partition for every schedule",
  "G-means ends with a partition of all rows: every row has exactly one label of a cluster in the result, reported sizes equal the number of rows per label and there are never more clusters than requested. Which splits are kept, and hence the partition, is what the sequential definition of the algorithm gives from the same starting centres, under every interleaving of worker threads and of parallel loops.",
  ["schedules", "inputs", "configurations"],
  "all interleavings of workers and of OpenMP loop chunks x data sets x k x thread counts x iteration limits x strictness",
  "Tests do not run g-means under varied schedules; the normality decision loop runs in parallel on shared state.",
  ["libman/gmeans_coordinator.cpp", "libman/gmeans.cpp", "libman/hclust_coordinator.cpp", "libkcommon/thd_safe_bool_vector.cpp"],
  [("Anderson-Darling split decision in a parallel loop", "libman/gmeans_coordinator.cpp partition_decision")],
  ["returned cluster result"])

p("C18", "K-medoids returns real medoids and nearest-medoid labels",
  "K-medoids returns centroids that are rows of the data set, labels every row with its nearest medoid under the medoids used in the last pass, and reports sizes that match the labels. The result is the same for every thread schedule and equals the sequential definition of the algorithm with the same sample.",
  ["schedules", "inputs", "configurations"],
  "all interleavings x data sets x k x thread counts x sampling rates x limits",
  "The tests do not check medoids against a model nor vary schedules.",
  ["libman/medoid_coordinator.cpp", "libman/medoid.cpp"],
  [("per-thread medoid candidates reduced serially", "libman/medoid_coordinator.cpp"), ("E-step", "libman/medoid.cpp EM_step")],
  ["returned cluster result"])

p("C19", "Spherical k-means equals its sequential definition",
  "Spherical k-means returns the labels, sizes and centroids that the sequential algorithm gives on the normalised data from the same initial centroids, with every row's normalisation done exactly once and before any distance is computed. This holds for every thread count and thread schedule.",
  ["schedules", "inputs", "configurations"],
  "all interleavings x data sets x init methods x thread counts x limits",
  "The tests run one data set and schedule.",
  ["libman/skmeans_coordinator.cpp", "libman/skmeans.cpp"],
  [("normalisation phase before clustering", "libman/skmeans_coordinator.cpp run, libman/skmeans.cpp")],
  ["returned cluster result"])

p("C20", "Fuzzy c-means equals its sequential definition",
  "Fuzzy c-means returns the centres, labels and sizes that the sequential algorithm gives from the same initial centres (up to floating-point rounding): each pass computes memberships from the previous centres for all rows before any centre is updated. Each row is labelled with a cluster of greatest membership, and this holds for every thread count and schedule.",
  ["schedules", "inputs", "configurations"],
  "all interleavings x data sets x fuzziness x init methods x thread counts x limits",
  "The tests run one data set and schedule and compare no model.",
  ["libman/fcm_coordinator.cpp", "libman/fcm.cpp"],
  [("E and M phases with shared contribution matrices", "libman/fcm_coordinator.cpp run, libman/fcm.cpp")],
  ["returned cluster result"])

p("C21", "The OpenMP engines compute Lloyd's algorithm for any thread team",
  "The OpenMP k-means engines, pruned and unpruned, return the labels and sizes, and up to rounding the centroids, that sequential Lloyd's algorithm gives from the same initial centroids and pass limit. This holds for every team size, loop-chunk assignment and interleaving of the team.",
  ["schedules", "inputs", "configurations"],
  "all interleavings and chunk assignments x team sizes x data sets x init methods x metrics x limits, for both OpenMP engines",
  "The tests run one team size and schedule.",
  ["libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp"],
  [("per-thread accumulators reduced after the loop", "libauto/kmeans.cpp EM_step"), ("pruning bounds", "libauto/min-tri-kmeans.cpp")],
  ["returned cluster result"])

p("C22", "Multi-start k-means++ returns its best start",
  "Running k-means++ with several starts returns, with the smallest energy seen over all starts, the labels, sizes and centres of that same start; every returned label is the nearest of the returned centres and the sizes match the labels. The outcome is the same for every thread schedule and does not get worse with more starts.",
  ["schedules", "inputs", "configurations", "histories"],
  "all interleavings x numbers of starts x data sets x k x thread counts",
  "No test runs several starts and compares energies.",
  ["binding/kmeanspp.hpp", "libman/kmeans_task_coordinator.cpp", "exec/kmeanspp.cpp"],
  [("best-so-far bookkeeping over restarts", "binding/kmeanspp.hpp"), ("reinitialisation between starts", "libman/kmeans_task_coordinator.cpp reinit")],
  ["returned best energy and cluster result"])

p("C23", "Every job releases what it acquired, exactly once",
  "Over the life of a clustering job every file it opens is closed, every block of memory it acquires (including node-local memory, with its exact size) is released, and every thread it starts is joined, each exactly once, by the time the job is destroyed. Repeating jobs in one process therefore does not accumulate files, threads or memory.",
  ["schedules", "histories", "configurations"],
  "all interleavings x sequences of jobs x engines x thread counts x data sources, fault-free",
  "Tests exit after one job and do not account for resources.",
  ["libman/thread.cpp", "libman/thread.hpp", "libman/coordinator.cpp", "libman/task_thread.cpp", "libman/task_queue.hpp"],
  [("file handle closed after load", "libman/thread.cpp numa_alloc_mem/close_file_handle"), ("memory release", "libman/coordinator.cpp ~coordinator, thread::destroy_numa_mem"),
   ("task objects freed when replaced", "libman/task_thread.cpp request_task")],
  ["open files, live threads and live memory after the job is destroyed"])

p("C24", "Independent jobs in one process do not influence each other",
  "A clustering job gives the same result whether it runs alone, after other jobs, or concurrently with other jobs of any worker-thread engine driven from other threads of the same process, under every interleaving. Jobs share no mutable state.",
  ["schedules", "histories", "configurations"],
  "all interleavings of two or three concurrent jobs and all short sequences of jobs, over the thread-pool engines",
  "Tests run one job at a time, mostly one per process.",
  ["libman/coordinator.cpp", "libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libman/hclust_coordinator.cpp"],
  [("all job state held in the job object and its workers", "libman/*_coordinator.hpp")],
  ["returned cluster results"])

p("C25", "Workers never race on shared data",
  "Any two accesses to the same memory by different threads of a clustering job, at least one of them a write, are ordered by synchronisation (a lock, a condition hand-off, thread start or join, a parallel-region boundary, or an atomic operation). This holds on every schedule, so a result never depends on torn, stale or reordered reads.",
  ["schedules", "configurations", "inputs"],
  "all interleavings x engines x thread counts x data sets; ordering judged by happens-before on the executed schedule",
  "A race is invisible to result comparison on a strongly ordered host and in the schedules tests happen to run.",
  ["libman/thread.cpp", "libman/thread.hpp", "libman/task_thread.cpp", "libman/coordinator.cpp", "libman/hclust_coordinator.cpp", "libauto/kmeans.cpp"],
  [("phase barrier publishes worker results", "libman/coordinator.cpp wait4complete, libman/thread.cpp sleep/wake"),
   ("disjoint row ranges", "libman/coordinator.cpp get_rid_len_tup"), ("parallel-region boundaries", "libauto/*.cpp")],
  ["memory accesses of the engine code"])

p("C26", "The shared per-row flag array is exact under concurrent use",
  "Flags of different rows can be set, cleared, tested and conditionally set by different threads at the same time, and each flag always reads as the last value its own writer stored; no update disturbs another row's flag. Growing on demand keeps earlier flags intact and never writes out of bounds.",
  ["schedules", "histories", "inputs"],
  "all interleavings of concurrent operations on distinct rows x sizes x operation histories, against an array model",
  "The test writes from one OpenMP loop on the host and checks the end state for one size.",
  ["libkcommon/thd_safe_bool_vector.cpp", "libkcommon/thd_safe_bool_vector.hpp"],
  [("one addressable cell per flag instead of a bit", "libkcommon/thd_safe_bool_vector.hpp")],
  ["values read back"])

p("C27", "Each program writes the result of the job it was asked for, or says it failed",
  "Started with a data file, sizes and options, each shipped program (knori, knord, mb_knori, skmeans, fcm, medoids, hmeans, xmeans, gmeans and kmeanspp) runs exactly the job those arguments describe, on as many threads as they say, and writes that job's result. The result equals what the library returns for the same arguments. When the input or a given centroid file cannot be read in full, or holds fewer values than the arguments say, the program stops with an error and leaves no complete result of a different job.",
  ["inputs", "fault_sequences", "schedules"],
  "all option combinations x schedules x read, open and seek errors x short input and centroid files, for every program",
  "No test starts a program: the options, their defaults, the reading of centroid files and the output step are never run.",
  ["exec/knori.cpp", "exec/knord.cpp", "exec/mb_knori.cpp", "exec/kmeanspp.cpp", "exec/skmeans.cpp", "exec/hmeans.cpp"],
  [("option plumbing into create()", "exec/*.cpp main"), ("reading given centroids", "libkcommon/io.hpp bin_io")],
  ["exit status", "contents of the output directory"])

p("C28", "How a job is placed does not change its answer",
  "The number of threads or processes, the number of memory nodes, the size of the tasks handed to workers, and whether the data comes from a file, from memory or from an already redistributed copy decide only where and when work happens. Two runs of the same job (data, start, iterations, tolerance and metric) that differ only in placement give the same labels, the same sizes, the same number of iterations and centroids equal up to the rounding of differently ordered sums.",
  ["schedules", "inputs", "configurations"],
  "all pairs of placements of one job x schedules; ties where rounding may choose a label are set aside",
  "Tests use a fixed thread count and compare nothing across placements.",
  ["libman/coordinator.cpp", "libman/kmeans_coordinator.cpp", "libman/thread.cpp", "libkcommon/task_queue.cpp", "libdist/dist_coordinator.cpp", "binding/numa_reorg.hpp"],
  [("row split among threads", "libman/coordinator.cpp"), ("task size and stealing", "libkcommon/task_queue.cpp"), ("redistribution of rows", "binding/numa_reorg.hpp")],
  ["results of two runs with different placement"])

p("C29", "A job stopped at an iteration limit can be resumed from its centroids",
  "Running a job for a passes, then starting a new job for b passes from the centroids the first returned, ends where one job of a + b passes ends: same labels, same sizes, same centroids up to rounding. Nothing else that the first job held is needed, and nothing of it leaks into the second.",
  ["histories", "schedules", "inputs"],
  "all split points of a run x engines x schedules; ties are set aside",
  "Tests run each job once from a fixed start and never chain two.",
  ["libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libdist", "libauto"],
  [("centroids as the whole state", "libkcommon/clusters.cpp"), ("starting from given centroids", "libman/kmeans_coordinator.cpp")],
  ["results of the chained jobs"])

p("C30", "Sequential linear algebra and statistics are numerically correct",
  "Inverses, determinants, cofactors and the normality statistic return the mathematically defined value for their arguments up to rounding.",
  ["inputs"], "all argument values", "Tests check a few fixed arguments.",
  ["libkcommon/linalg.hpp", "libkcommon/AndersonDarling.hpp"],
  [("straight-line numeric code", "libkcommon/linalg.hpp")], ["return values"])

p("C31", "Malformed command lines and inputs are refused without output",
  "A program given a malformed command line or input runs no job: when positional arguments are missing, an option is unknown or lacks its value, a distance metric or an initialisation name is unknown, a number is not a number or does not fit, centroids are announced but not given, or a data or centroid file is missing or of a size that contradicts the stated dimensions, the program ends (it does not hang) with its help text or an error status, and saves no output.",
  ["inputs", "configurations", "schedules"], "all malformed argument vectors and input files of every program x process counts x schedules", "No test drives the option parsers or gives a program a file of the wrong size.",
  ["exec/*.cpp", "libkcommon/cxxopts/cxxopts.hpp", "libkcommon/util.cpp", "libkcommon/io.hpp"], [("option parsing", "exec/*.cpp main"), ("number parsing", "libkcommon/cxxopts/cxxopts.hpp integer_parser")], ["exit status", "files written"])

p("C32", "Gaussian mixture fitting converges to a consistent model",
  "Fitting a Gaussian mixture returns responsibilities that sum to one per row and parameters consistent with them, for every thread schedule.",
  ["inputs", "schedules"], "data sets x k x schedules", "No test runs the mixture engine to completion.",
  ["libman/gmm_coordinator.cpp", "libman/gmm.cpp"], [("EM phases", "libman/gmm_coordinator.cpp")], ["returned mixture result"])

p("C33", "Every job starts where its initialisation method says",
  "Before the first pass the centres are what the chosen method defines: the given centres unchanged, rows drawn uniformly for the Forgy method, rows drawn one after the other with a probability proportional to their distance from the centres so far (none repeated while some row lies elsewhere) and every row labelled with its nearest centre for k-means++, and for the random method the means of the groups drawn for the rows. The start is the same whatever the number of threads, nodes or processes, the task size or the source of the data, and under every thread schedule and message timing.",
  ["inputs", "configurations", "schedules"],
  "all data sets (duplicates included) x init methods x metrics x engines in memory and distributed x pairs of placements x schedules and message delays",
  "Tests look at final results of one data set; a start that is subtly wrong, or that differs between placements, still converges to something.",
  ["libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp", "libkcommon/util.hpp"],
  [("initialisation methods", "libman/*_coordinator.cpp forgy_init/random_partition_init/kmeanspp_init"),
   ("per-process contribution and reduction", "libdist/*_coordinator.cpp"), ("per-row generator of the distributed random start", "libkcommon/util.hpp rand123emulator")],
  ["result of a run limited to zero passes"])

p("C34", "Data files are read and written exactly or the failure is reported",
  "Reading a data file through the library's readers, whole, row by row, in blocks or after a seek, and with other files open at the same time, delivers exactly the stored values in order, and row-by-row reading ends exactly behind the last whole row with the right row count. Values handed to the library's writers are in the file, complete and in order, when the writer returns. If the file cannot be opened, is shorter than asked for, holds more numbers than there is room for or something that is no number, or the disk fails, the operation reports it; it never delivers invented values or a partial file as complete and never writes outside the caller's memory.",
  ["histories", "fault_sequences", "inputs"],
  "all histories of read, read-line, seek and write operations on one or several files x file contents (binary and text, cut off, overlong, malformed) x disk faults at every operation, for bin_io, bin_rm_reader, text_reader and store_cluster",
  "One test reads two small healthy files; no test meets a short, malformed or failing file, and nothing tests the writers.",
  ["libkcommon/io.hpp", "libkcommon/io.cpp", "libkcommon/exception.hpp"],
  [("binary reader and writer", "libkcommon/io.hpp bin_io"), ("row readers", "libkcommon/io.hpp bin_rm_reader, text_reader"), ("cluster writer", "libkcommon/io.cpp store_cluster")],
  ["values delivered", "content of the file", "exception or abnormal exit"])

p("C35", "Every build variant gives the same answers and the same failures",
  "Compiled without assertions (RELEASE), without memory-node support, or for embedding in a language binding, the code returns the same results, rejects the same inputs and reports the same faults as the default build. No check that keeps a wrong result or an incomplete output from being delivered, and no step of an algorithm, depends on assertions or on the output of progress messages being compiled in.",
  ["configurations", "inputs", "schedules", "fault_sequences"],
  "build variants {no assertions, no memory nodes, binding} x everything the other properties quantify over",
  "The tests are compiled one way only, with assertions on.",
  ["Makefile.common", "Makefile.dist.common", "libkcommon/util.cpp", "libkcommon/io.hpp", "libman/thread.cpp", "libman/thread.hpp", "libman/*.cpp", "libauto/*.cpp", "libdist/*.cpp"],
  [("assertions guarding input", "libkcommon/util.cpp assert_msg, libkcommon/io.hpp"), ("memory placement with and without nodes", "libman/thread.cpp numa_alloc_mem, destroy_numa_mem"), ("conditional compilation", "#ifndef BIND, #ifdef NDEBUG, #ifdef USE_NUMA")],
  ["result of the run call", "exit status", "files written"])

p("C36", "A job changes nothing but its own result",
  "Running a job, through the library or a program, on one process or several, whether it succeeds, fails or meets a fault, leaves everything it was given as it was: the data file, the centroid file, the caller's rows and the caller's initial centres (apart from what an engine documents as returned in place), and every other file in the working and output directories. The only file a job creates or replaces is its own result file, and only when an output directory was asked for.",
  ["inputs", "fault_sequences", "schedules"],
  "all engines and programs x options x files already present x read, write, allocation and thread-start faults x schedules",
  "Tests compare results; none looks at its inputs or at the directory afterwards, and none runs with a fault.",
  ["libkcommon/io.hpp", "libkcommon/types.cpp", "libman/*_coordinator.cpp", "libman/thread.cpp", "libdist/*.cpp", "binding/numa_reorg.hpp", "exec/*.cpp"],
  [("inputs opened for reading only", "libkcommon/io.hpp bin_io, libman/thread.cpp"), ("result written to its own file", "libkcommon/types.cpp cluster_t::write"), ("centres copied on set", "libkcommon/clusters.cpp")],
  ["files present after the job", "caller's arrays after the job"])

p("C37", "The parallel matrix and distance kernels are right for any thread team",
  "The library's building blocks (matrix products; row and column sums and means; element-wise sums, differences, divisions and powers; positions of the largest entries; the table of pairwise distances; projection of rows onto the unit sphere; the BIC score; standardisation) return what a sequential evaluation of their definition returns. This holds for every shape and data, every number of threads and every interleaving of them, also when several callers use them on their own data at the same time. No two threads of a kernel touch the same entry without order, one of them writing.",
  ["schedules", "inputs", "configurations"],
  "all kernels x shapes x data x team sizes x interleavings x concurrent callers",
  "The tests evaluate two of these kernels on one fixed input each, with whatever team the host gives, and cannot see threads that write the same entry.",
  ["libkcommon/dense_matrix.hpp", "libkcommon/dist_matrix.cpp", "libkcommon/util.cpp", "libkcommon/linalg.hpp"],
  [("loops shared out by row", "libkcommon/dense_matrix.hpp operator*, sum, div_eq_pow"), ("reduction", "libkcommon/util.cpp get_bic"), ("table rows computed by one thread each", "libkcommon/dist_matrix.cpp compute_pairwise_dist")],
  ["returned matrices, vectors and tables", "memory accesses of the kernels"])

