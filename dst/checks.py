"""Which scenario families decide which property."""

A, B, C, O, Q = "fam_a", "fam_b", "fam_c", "fam_o", "fam_r"

RULE_A = (
    "scenario = 1-4 program runs over one container: items, failing items, durations, "
    "worker/combiner/writer counts, chunk and cache sizes, scheduler policy and faults are "
    "drawn from the seed; "
)
ASSUME_A = [
    "a killed program dies at an operation boundary of the simulator; HDF5/PyTables calls in "
    "progress are completed or not started (no corruption inside the C library)",
    "data handed to HDF5 and flushed survives a kill of the processes (no power loss)",
    "helper processes die only together with the whole program (no isolated OOM kill)",
    "managers, queues, locks, events and pools behave as documented by multiprocessing",
]


RULE_B = (
    "scenario = 1-4 simulated programs of 1-6 actions (run_processing, run_finaloutput, "
    "export_data_to_HDF; same or new RTprocess object) on one project folder with real fits: "
    "project (config, modules, multi-config), items, failing items, prompts, log levels, worker "
    "counts, scheduler policy and faults are drawn from the seed; "
)
ASSUME_B = ASSUME_A + [
    "files written and closed before a kill survive it (no power loss); a kill during a write "
    "leaves the part that was handed to the system",
    "the fit of one item on a fresh object is the reference (its numerical correctness is not judged)",
]


def chk_b(*a, budget=(60, 800), assumptions=ASSUME_B, **k):
    return chk(*a, budget=budget, assumptions=assumptions, **k)


def _any(st):
    return st["steps"] > 0


def _probe(*names):
    def f(st):
        return any(st["probes"].get(n) for n in names)

    return f


def _fault(*pre):
    def f(st):
        return any(k.startswith(pre) for k in st["faults"])

    return f


def chk(families, nontrivial, rule, level="exploration", assumptions=ASSUME_A, n=(2500, 200000), budget=(40, 780)):
    return dict(
        families=families, nontrivial=nontrivial, rule=rule, level=level, assumptions=assumptions,
        n=dict(quick=n[0], thorough=n[1]), budget=dict(quick=budget[0], thorough=budget[1]),
    )


def chk_c(families, nontrivial, rule, assumptions, budget=(38, 800), **k):
    return chk(families, nontrivial, rule, assumptions=assumptions, budget=budget, **k)


CHECKS = {
    "C01": chk([(A, "clean", 3), (A, "writers", 2), (A, "throttle", 1), (A, "fails", 1)], _probe("items-stored"),
               RULE_A + "non-trivial: at least two items were stored; distinct by event history"),
    "C02": chk([(A, "fails", 4), (A, "progress", 1), (A, "mixed", 1)], _probe("failing-items"),
               RULE_A + "non-trivial: at least one failing item was processed"),
    "C03": chk([(A, "kill", 3), (A, "signal", 2), (A, "wfault", 2), (A, "mixed", 2), (A, "fails", 1), (A, "clean", 1)],
               _probe("resumed"), RULE_A + "non-trivial: a run continued on a container with stored items"),
    "C04": chk([(A, "clean", 2), (A, "fails", 2), (A, "kill", 2), (A, "mixed", 2)], _probe("items-stored"),
               RULE_A + "non-trivial: at least two items were stored"),
    "C05": chk([(A, "clean", 1), (A, "fails", 2), (A, "signal", 2), (A, "wfault", 2), (A, "mixed", 2), (A, "throttle", 1)],
               _any, RULE_A + "every scenario counts; distinct by event history"),
    "C06": chk([(A, "kill", 4), (A, "signal", 2), (A, "wfault", 3), (A, "mixed", 2)],
               _fault("kill", "signal", "hdf"), RULE_A + "non-trivial: a kill, signal or write fault fired",
               level="exploration"),
    "C07": chk([(A, "writers", 4), (A, "wfault", 1), (A, "mixed", 1), (A, "signal", 1)], _probe("many-writers"),
               RULE_A + "non-trivial: several writers stored chunks"),
    "C08": chk([(A, "throttle", 1)], _probe("full-cache-window"),
               RULE_A + "non-trivial: the writer stored a chunk while the cache was full"),
    "C09": chk([(A, "progress", 3), (A, "fails", 1), (A, "throttle", 1)], _probe("progress-shown"),
               RULE_A + "non-trivial: at least one progress message was shown"),
    "C10": chk([(A, "signal", 1)], _fault("signal"), RULE_A + "non-trivial: a signal fired"),
    "C11": chk_b([(B, "log", 1)], _probe("logged-tokens"),
                 RULE_B + "non-trivial: messages were logged to a file; distinct by event history"),
    "C12": chk_b([(B, "folder", 3), (B, "log", 1)], _probe("aborted", "removed", "restarted"),
                 RULE_B + "non-trivial: a prompt was refused, results were removed, or a run was "
                 "repeated after a kill or a disk error"),
    "C13": chk_b([(B, "export", 2), (B, "export_faults", 1)], _probe("exports-compared"),
                 RULE_B + "non-trivial: exported values were compared with the reference"),
    "C14": chk_b([(B, "indep", 3), (B, "export", 1)], _probe("fits-compared"),
                 RULE_B + "non-trivial: stored fits were compared with fits on fresh objects"),
    "C15": chk_c([(C, "blocks", 1)], _probe("blocks-after-first"),
                 "scenario = 1-3 simulated programs that fill a container (level A: failing items, kills, "
                 "number gaps, chunk layouts; up to 45 items) and a program of 1-3 threads that reads it: "
                 "block iterators (table, start, block size, read chunk size) that are advanced "
                 "interleaved with each other and with single reads, under read and open errors; "
                 "non-trivial: a block after the first one was compared; distinct by event history",
                 ASSUME_A + ["the rows of the container read directly with PyTables are the reference"]),
    "C16": chk_c([(O, "dumps", 1)], _probe("dumps"),
                 "scenario = 1-3 simulated programs on one folder: create, fit, change, copy, poison, dump "
                 "(full and minimal) and load single- and multi-configuration fits over the same paths, with "
                 "concurrent readers, failing/full-disk writes, interrupts and kills at any file operation; "
                 "non-trivial: at least one dump was performed; distinct by event history",
                 ["a kill during a write leaves the part that was handed to the system; what was written, "
                  "closed and renamed survives a kill of the process (no power loss)",
                  "equality of the loaded object is judged by its definition, dataset, results, aux_data, ID, "
                  "additional attributes and derived quantities"]),
    "C17": chk_c([(O, "objects", 1)], _probe("values-compared"),
                 "scenario = 1-3 simulated threads with histories of operations (create, assign dataset/"
                 "definition/sig0/dB/int_Q/arguments, fit, read derived quantities, copy, deepcopy, reinit, "
                 "dump+load, aux_data/ID, multi-configuration objects) on their own fit objects with interrupts "
                 "and failures inside evaluations and small caches; non-trivial: at least one derived quantity "
                 "was compared to that of a fresh object; distinct by event history",
                 ["the same quantity of a freshly created object with the same definition, dataset and results "
                  "is the reference (numerical correctness of a fresh object is not judged)",
                  "in-place edits of defdict/set_V_SRF/dataset are no assignments and are excluded; one object "
                  "is used by one thread at a time",
                  "relative tolerance 1e-7"]),
    "C18": chk_c([(C, "logfiles", 1)], _probe("messages-judged"),
                 "scenario = 1-4 simulated threads that start/stop logging to files (several handler names, "
                 "files, levels) and log messages, with failing opens, writes and closes, interrupts and "
                 "scheduler policies from the seed; non-trivial: at least one message had to be in a known set "
                 "of files; distinct by event history",
                 ["what logging of the standard library does with a record that cannot be written is not judged",
                  "a message that is emitted while a start or stop is in progress may be in the file or not"],
                 n=(50000, 2000000), budget=(40, 780)),
    "C19": chk_b([(Q, "results", 1)], _probe("loads-compared"),
                 "scenario = 1-3 simulated programs on one project folder that process items (real fits, "
                 "failing items, kills, dumps, export options) and read the results in between with 1-2 threads: "
                 "RTresults opened in several ways, fits loaded by name, number, path or at random, listings, "
                 "iterators, rescans, pickled copies, closed containers, direct tables, under read and open "
                 "errors; non-trivial: at least one loaded fit was compared with the stored one",
                 budget=(40, 800)),
}
