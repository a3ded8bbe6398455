#!/usr/bin/env python3
"""Writes sim/props/notes.json: the texts that go with the measured numbers in the evidence files."""
import json, os
BASE_REAL = ["all of /repo/src/dispersion, imported from the working tree for every simulated process",
             "numpy, pandas, scipy, PyYAML of the installed environment",
             "Python's file objects above the raw file layer (text, buffering, csv, yaml)"]
DISK = "storage: raw files, os.* and io/open on a scratch directory are real, but every call passes the simulator, which may fail, tear, delay or reorder it and which keeps the durable state apart from the page cache"
CLOCK = "clock (time.*, datetime) is simulated; it advances with every I/O step"
IDENT = "randomness behind temporary names (random, os.urandom, uuid, pid) is seeded"
COMMON_RULE = ("A plan (data, steps, configuration knobs) is drawn from the seed and run once without faults, then again with faults "
               "and preemptions placed at I/O events or scheduling points recorded in that run. A run counts as distinct and "
               "non-trivial if its event log differs from that of all others and at least one operation of the workload was judged. ")
N = {"common": {"rule": COMMON_RULE, "states": "", "real": BASE_REAL, "stubs": [DISK, CLOCK, IDENT],
                "assumptions": ["one rename is atomic and durable order is: fsync of a file before the rename that publishes it; "
                                "directory entries survive a process crash but not necessarily a power loss",
                                "a clean batch is evidence, not proof: schedules and faults are sampled from the seed"]}}
def note(prop, rule, states, stubs=(), assumptions=()):
    N[prop] = {"rule": COMMON_RULE + rule, "states": states, "real": BASE_REAL, "stubs": [DISK, CLOCK, IDENT] + list(stubs),
               "assumptions": N["common"]["assumptions"] + list(assumptions)}
note("C01", "Plans are histories of rebuild, alias, edit, save, reopen, restart steps over generated tables; oracle: the rows the session held at its last completed save, kept by the harness outside the code.",
     "distinct (row count, table size) pairs at a judged reopening")
note("C02", "Plans are sequences of edits and saves; every variant puts a fault (error, short write, full disk, Ctrl-C, crash, power loss) at an I/O event inside a save. Oracle: stored bytes are the previous or the new version, and the outcome of the call agrees with it.",
     "distinct (outcome, last I/O event reached, faults, file existed) tuples of judged saves")
note("C03", "2 to 4 sessions with their own module instances run interleaved at I/O steps. Oracle: linearizability of the recorded history against a single register, every version unique.",
     "distinct (history of who opened/saved which version, switched) tuples",
     assumptions=["sessions are separate module instances in one process, switched at I/O steps"])
note("C04", "Plans are histories of adding, replacing, removing files and of full and partial rebuilds. Oracle: an independent reading of the same files (sim/refmodel.py) gives rows, bounds and reference values.",
     "distinct (full or partial, rows, enabled modules) tuples")
note("C05", "Faults at the I/O events of a rebuild, also with another session replacing files meanwhile. Oracle: rows of the independent reading; every missing file is named in a warning or the rebuild raised.",
     "distinct (outcome, fault kinds, only page faults, files changing, partial) tuples")
note("C06", "Plans are histories of registrations, table edits, filtering, saves, reopenings. Oracle: a list of rows with aliases kept by the harness; materials are identified by a value unique per file.",
     "distinct (step kind, rows, outcome, clear, holders) tuples")
note("C07", "Plans draw a material and a history of write attempts in several formats and encodings. Oracle: the values of the material's own description evaluated independently at the ends, knots and points between.",
     "distinct (material kind, format, outcome, attempt, faults) tuples")
note("C08", "Faults at the I/O events inside a material write, new and existing targets. Oracle: bytes of the target, of its neighbours, rows of a later rebuild, agreement with the outcome.",
     "distinct (format, outcome, faults, kept, existed) tuples")
note("C09", "Plans are sequences of reads and replacements, with split reads, faults, a concurrent writer, other hash seeds. Oracle: the description of the bytes the file holds, evaluated independently.",
     "distinct (way of reading, format, outcome, faults, possible versions, kind of broken content) tuples")
note("C10", "Plans are sequences of write, get, read, delete, external edits and races of first use. Oracle: the configuration last stored, kept by the harness, and the documented defaults.",
     "distinct (operation, outcome, faults, stored state) tuples")
note("C11", "Plans are users with scripted answers running setup and the rebuild command repeatedly, with faults at I/O events, prompts and the download. Oracle: what the user confirmed, what was installed, trees before and after.",
     "distinct (command, outcome, faults, confirmed choices, length of the dialogue) tuples",
     stubs=["the user at the prompt (builtins.input)", "the git module: the clone writes a small library through the simulated disk and can fail midway"])
note("C12", "Threads of one process work on shared objects, switched at source lines or bytecodes chosen by the seed. Oracle: the result of the same operation alone in a fresh world, fingerprints of every argument and result before and after.",
     "distinct (operation, material kind, form of the question, outcome, switched) tuples",
     assumptions=["threads are switched between Python lines or bytecodes; C code of numpy/pandas/scipy runs undivided, as under the GIL"])
note("C13", "Plans are histories of replacement, rebuild, save, restart, fetch; questions in every unit, form, at ends, inside and outside. Oracle: independent evaluation of the file (sim/refmodel.py) with tolerance 2e-6 plus the slope over 2e-8.",
     "distinct (format, parts, spectrum type, form, permittivity, lossless) tuples")
note("C19", "Plans are histories of opening grids, a user working in them, taking edits over, saves with faults, restarts. Oracle: the table of the session, what the grid shows and the stored table, each kept by the harness.",
     "distinct (step, rows, grid open, grid agrees with the table) tuples",
     stubs=["the qgrid package: a grid that shows its own copy of the table, as qgrid does, and a user who edits, filters, sorts, adds and deletes rows"])
note("C20", "Plans are histories of configuration writes by this and other sessions, with faults and crashes, and of opening, rebuilding and saving catalogues with and without an explicit configuration, valid or not. Oracle: the configuration last stored and one separate table per root and file name.",
     "distinct (step, outcome, faults, kind of configuration, what is wrong with it) tuples")
note("C21", "2 to 4 sessions write, read and catalogue the same data files, interleaved at I/O steps, with writers failing or crashing. Oracle: per file linearizability against a register; every row of a rebuild is that of one complete version the register held meanwhile.",
     "distinct (history of who wrote/read which version, switched) tuples",
     assumptions=["sessions are separate module instances in one process, switched at I/O steps"])
note("C22", "Plans are histories of operations on materials, spectra, a catalogue, its grid, readers and writers, with valid and invalid arguments; an allocation fails or Ctrl-C arrives inside a chosen call the library makes into numpy, scipy, pandas or yaml, or an I/O step fails. Oracle: the state before, and a twin set of objects in an undisturbed session that performs the same steps.",
     "distinct (step, material kind, outcome, faulted, invalid argument, changed) tuples",
     stubs=["the qgrid package"], assumptions=["failures inside a call into numpy, scipy, pandas or yaml strike at its beginning; the inside of those libraries is trusted to be all or nothing"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim", "props", "notes.json"), "w") as f:
    json.dump(N, f, indent=1, ensure_ascii=False, sort_keys=True); f.write("\n")
