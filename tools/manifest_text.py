NOTES = "One simulator (sim/), one harness (harness/), one executable; ./check ID builds it from /repo's working tree and runs a seeded campaign."
S = "seeded deterministic simulation: "
A = " Schedules, inputs and faults are sampled, not enumerated; sequentially consistent memory at instrumented accesses."
def c(i, t, n, level="exploration"): CHECKS[i] = (S + t, level, n + A)
c("C01", "random/PCT/conflict-biased thread schedules with spurious wakeups and stalls; deadlock and step-bound detection", "All ten in-memory engine families and multi-start k-means++ run to their end under thousands of schedules.")
c("C02", "the same job under two schedules, results compared bit for bit", "Thread-pool engines only; the OpenMP engines sum in an unspecified order.")
c("C03", "each run refined against a sequential Lloyd model", "Comparison is skipped where the model meets a numerical tie.")
c("C04", "each pruned run refined against the unpruned sequential model", "Comparison is skipped where the model meets a numerical tie.")
c("C05", "conservation recount of rows, sizes and means of each result", "Exact recount of labels, means within 1e-9 relative.")
c("C06", "each mini-batch run refined against a sequential mini-batch model", "Comparison is skipped where the model meets a numerical tie.")
c("C07", "ranks as process groups over a simulated MPI with delays and reordered reductions; refinement against sequential Lloyd", "1 to 5 ranks; MPI itself is a stub with standard semantics.")
c("C08", "ranks as process groups over a simulated MPI; pruned distributed run refined against sequential Lloyd", "1 to 5 ranks; MPI itself is a stub with standard semantics.")
c("C09", "per-rank collective histories recorded and compared; deadlock detection", "1 to 5 ranks; MPI itself is a stub with standard semantics.")
c("C10", "assembled labels compared with each rank's rows under message delay and reordering", "1 to 5 ranks; MPI itself is a stub with standard semantics.")
c("C11", "disk, allocation and thread-start faults injected at seeded points of loading and starting; result compared with the fault-free one", "One or two faults per run; allocations fail only until the engine is built (a failing allocation later ends the process through an uncaught exception).")
c("C12", "rank crashes and communication errors injected at seeded calls and instructions; output judged by a fault-free reference", "2 to 5 ranks, one fault per run; survivors that wait for the lost process are accepted (no output).")
c("C13", "write faults (open, write, short write, full disk, close, mkdir) at seeded points; saved file parsed and compared with the result", "Library writer and the knori program on a simulated disk.")
c("C14", "jobs created, run and destroyed in seeded histories under seeded schedules; use-after-free, use of destroyed locks and threads left over are detected", "Six histories; every allocation is quarantined.")
c("C15", "each run refined against a sequential hierarchical model, and two schedules of one job compared as partitions, plus shape, size and mean invariants", "Partition compared up to renaming of clusters; comparison with the model is skipped where it meets a numerical tie.")
c("C16", "each run refined against a sequential x-means model, and two schedules of one job compared as partitions, plus shape, size and mean invariants", "Partition compared up to renaming of clusters; comparison with the model is skipped where it meets a numerical tie.")
c("C17", "each run refined against a sequential g-means model, and two schedules of one job compared as partitions, plus shape, size and mean invariants", "Partition compared up to renaming of clusters; comparison with the model is skipped where it meets a numerical tie.")
c("C18", "each run refined against a sequential k-medoids model", "Comparison with the model is skipped where it meets a numerical tie; medoids-are-rows and nearest checks always apply.")
c("C19", "each run refined against sequential Lloyd on normalised rows with cosine distance", "Comparison is skipped where the model meets a numerical tie.")
c("C20", "each run refined against a sequential fuzzy c-means model", "Centres within 1e-6 relative.")
c("C21", "simulated OpenMP teams; each run refined against sequential Lloyd", "OpenMP runtime is a stub with standard semantics.")
c("C22", "returned start re-evaluated, compared with one start fewer and with another schedule", "Energy within 1e-9 relative.")
c("C23", "open files, heap blocks, node-local blocks and threads accounted over seeded job histories", "Blocks live after the second of two identical histories, so caches filled once are not counted.")
c("C24", "concurrent and successive jobs in one process compared with each job alone", "Thread-pool engines; the OpenMP engines keep state in file-scope variables and are documented as one at a time.")
c("C25", "happens-before race detection on every access of simulated runs", "Vector clocks, four shadow entries per word; sampled schedules.")
c("C26", "concurrent flag-array operations against an array model", "Distinct writers per flag; growth from one thread.")
c("C27", "whole programs run as simulated processes with seeded option sets and read faults or short files; saved result refined against the library's model", "Every program of exec/ but the unfinished mixture one; malformed command lines are C31.")
c("C28", "one job under two placements (threads, nodes, task size, source, processes) and two schedules, results compared", "Comparison is skipped where the model meets a numerical tie.")
c("C29", "a seeded history of stopped and resumed jobs compared with one uninterrupted job", "Comparison is skipped where the model meets a numerical tie.")
c("C33", "zero-pass runs under seeded schedules, placements and message delays, judged by each method's definition and against the same start placed differently", "Ten engines; the draws are recomputed from the generator's default seed (1234 for distributed random starts) until one falls within rounding of a border between rows; k-means++ repetition check not applied to the cosine metric.")
c("C31", "whole programs run as simulated processes with seeded malformed command lines and input files; end, status and files judged", "Every program of exec/ but the unfinished mixture one; thirteen kinds of malformation.")
NA = {}
NA["C30"] = "A quality statement about one algorithm's arithmetic on one thread: no schedule, clock, I/O or fault decides it, so simulation adds nothing over sampling inputs."
NA["C32"] = "The mixture engine is unfinished at this commit: soft_run leaves the process with exit(911) before its first pass and the M step is empty, so no execution exists for a schedule or fault to decide."
c("C34", "seeded histories of reader and writer operations on a simulated disk with open, seek, read, write and full-disk faults and damaged files, next to a byte-array model", "Four readers and writers; up to four clients at a time; doubles and unsigned integers.")
c("C35", "jobs, programs, faults and lifecycles of 24 other checks run in three executables whose code under test is compiled with other switches", "Variants: NDEBUG; no USE_NUMA; BIND with NDEBUG (the distributed part is not built for bindings).")
c("C36", "library jobs, distributed jobs and whole programs under I/O, memory and write faults on a simulated disk holding other files; files and caller's arrays compared before and after", "Everything of exec/ but the unfinished mixture program, and all library engines; files a fault cuts short are compared up to the cut.")
c("C37", "seeded histories of kernel calls by one to four clients under simulated OpenMP teams with happens-before race detection, each result compared with a sequential evaluation", "OpenMP runtime is a stub with standard semantics; results within 1e-10 of the sum of magnitudes; numerical accuracy of the sequential inverse, determinant and normality code is C30.")
