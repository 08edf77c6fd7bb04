"""Properties, not applicable ones, and the register of the defects."""

HAM = "src/magnopy/spinham/hamiltonian.py"
ENE = "src/magnopy/spinham/energy.py"
PAR = "src/magnopy/spinham/parameter.py"
DIS = "src/magnopy/magnons/dispersion.py"
DIA = "src/magnopy/magnons/diagonalization.py"
TXT = "src/magnopy/io/txt/internal.py"
VER = "src/magnopy/io/txt/verify.py"
TBJ = "src/magnopy/io/txt/tb2j.py"
VAM = "src/magnopy/io/txt/vampire.py"
H5 = "src/magnopy/io/hdf5/internal.py"
IO = "src/magnopy/io/__init__.py"
CONV = "src/magnopy/score/convert_tb2j.py"
MINI = "src/magnopy/score/minimize_energy.py"
DISP = "src/magnopy/score/magnon_dispersion.py"

TESTS = "the 64 stable tests build single parameters and Hamiltonians with a few fixed values"
SEEDED = "Seeded search, not exhaustive: shows the property on every explored run. Trusts the harness, the reference " \
    "model and the listed third-party libraries. "


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": x} for n, x in mechanism]}
    if observe:
        anchors["observe_at"] = observe
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": x} for n, m, x in state]
    anchors["hook_needed"] = None
    return {
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
        "why_tests_cant": why, "anchors": anchors, "technique": technique, "level_note": SEEDED + note,
    }


PROPERTIES = [
    prop(
        "P01", "Changing the notation never changes the physics",
        "Whatever sequence of notation changes a user makes (the whole notation by name or tuple, or single components: "
        "double counting, spin normalisation, exchange factor, on-site factor, in any order and any number of times), the "
        "physical couplings, the energies of every spin configuration and the magnon matrices at every k-point stay the "
        "same up to rounding. The first definition of an undefined component only labels the stored values, and reading a "
        "component that was never defined raises an error. Parameter objects and other Hamiltonians that the user holds are "
        "not changed by the notation change of one Hamiltonian.",
        ["inputs", "histories"],
        "For all Hamiltonians (1-5 atoms, general 3x3 matrices, parameter objects shared between bonds and Hamiltonians) and "
        "all sequences of notation changes with interrupted reads in between; magnetic atoms have non-zero spin; no bond of an "
        "atom with itself in the same cell; without double counting a pair is entered in one orientation.",
        "Tests change one component once on a few bonds; the property quantifies over histories of changes, in which the order, "
        "the mirrored bonds and the sharing of objects matter.",
        [HAM, ENE, DIS],
        [("notation setters", HAM + " double_counting, spin_normalized, exchange_factor, on_site_factor, notation"),
         ("exchange-like view", HAM + " exchange_like")],
        "deterministic simulation: seeded histories of notation changes with injected interrupts, against notation-free "
        "couplings, energies and k-space matrices",
        "Rounding: relative 1e-9.",
        ["SpinHamiltonian.exchange / on_site", "Energy.ferro/spiral/antiferro", "MagnonDispersion.h"],
    ),
    prop(
        "P02", "Edit histories behave like a table of bonds",
        "After any sequence of edits of a Hamiltonian (adding, rewriting and removing bonds, on-site terms and atoms, filtering, "
        "copying, notation changes, ground-state vectors) everything it shows - iteration, length, look-up, membership, magnetic "
        "atoms and their order, notation, exchange-like view - is what replaying the same edits on a plain table gives. With "
        "double counting every bond is accompanied by its mirror with the transposed matrix, and adding, rewriting or removing one "
        "acts on both; without it a pair is stored once per orientation it was entered in.",
        ["inputs", "histories"],
        "For all histories of 1-40 edits over Hamiltonians of 1-5 atoms, in every notation including undefined ones, with reads "
        "interrupted at seeded points between the edits; atom names are distinct.",
        "The tests check single edits on fresh objects; interactions of edits (removal after rewriting, filters after notation "
        "changes) are histories.",
        [HAM],
        [("mirrored bonds", HAM + " add_exchange, remove_exchange, __setitem__, __delitem__"),
         ("filters", HAM + " filter, filtered"), ("atoms", HAM + " add_atom, remove_atom, magnetic_atoms")],
        "deterministic simulation: seeded edit histories with injected interrupts, refinement against a reference table",
        "Edits are atomic steps: an asynchronous interrupt inside an edit is not claimed.",
        ["iteration, look-up, membership of SpinHamiltonian"],
    ),
    prop(
        "P03", "A rejected edit leaves everything as it was",
        "An edit that cannot be carried out (unknown atom, bond or key, malformed matrix, bond vector, notation, factor, filter "
        "distance, ground-state vector or setting of the energy, a user's filter function that fails half-way) raises an exception, "
        "and afterwards the Hamiltonian, or the energy object, is exactly as before. Edits made later behave as if the rejected one "
        "had never been tried.",
        ["inputs", "histories", "fault_sequences"],
        "For all histories in which valid edits are mixed with 46 kinds of invalid ones at seeded places.",
        "Tests check that some invalid input raises; they never compare the state after the exception, nor continue the history.",
        [HAM, ENE, PAR],
        [("validation before mutation", HAM + " add_exchange, add_on_site, notation setters, filter"),
         ("settings", ENE + " m, wolfe_c1, wolfe_c2, magnetic_field, g_factors, spins")],
        "deterministic simulation: seeded histories with injected invalid edits and failing callbacks, bitwise state comparison",
        "The kinds of invalid edits are a fixed list.",
        ["state of SpinHamiltonian and Energy after the exception"],
    ),
    prop(
        "P04", "Reading never changes a Hamiltonian, even when it fails",
        "Operations that only use a Hamiltonian (copying, filtered copies, energies, minimisation, magnon dispersion, saving to text "
        "or HDF5, export to Vampire) never modify it: it is identical before, during (as another thread sees it) and after the "
        "operation. This holds also when the operation fails, is interrupted, or the disk returns errors.",
        ["schedules", "inputs", "fault_sequences", "crash_points"],
        "For all Hamiltonians, all sequences of reading operations, disk errors at any system call, interrupts and failed "
        "allocations at any line, and observers scheduled at any line of the operation.",
        "The tests never look at the Hamiltonian after a save or a computation, and have no faults and no second thread.",
        [HAM, ENE, DIS, TXT, H5, VAM],
        [("work on a copy", ENE + " __init__; " + DIS + " __init__; " + VAM + " dump_ucf"),
         ("read-only dump", TXT + " dump_spinham; " + H5 + " dump_spinham")],
        "deterministic simulation: seeded disk faults, interrupts and observer schedules, bitwise snapshots",
        "Threads are switched at lines of magnopy (and at bytecodes in a part of the runs).",
        ["snapshot of SpinHamiltonian"],
    ),
    prop(
        "P05", "Derived objects are independent snapshots",
        "Copies, filtered copies, the crystal handed out, Hamiltonians built from a crystal, energy and dispersion objects and Hamiltonians loaded from files "
        "keep giving the same results however the original is edited later, also when they are used for the first time after that, "
        "and the original is not affected by edits of them. Arrays "
        "and lists that the user passes to energies, minimisation, settings or ground-state vectors are neither modified nor "
        "followed, and a minimisation does not change the settings of the energy object.",
        ["inputs", "histories"],
        "For all Hamiltonians, sets of derived objects and interleaved histories of edits of the original and of the derived ones, "
        "in any notation. Objects handed out by reference (a parameter of a bond, the list of spins of the energy) and atoms and "
        "parameters passed in are not covered when the user mutates them in place.",
        "Tests do not edit the original after a derived object is made; the property needs two objects and a history.",
        [HAM, ENE, DIS, H5, TXT],
        [("copy", HAM + " copy, filtered, crystal"), ("own copy", ENE + " __init__; " + DIS + " __init__")],
        "deterministic simulation: seeded histories over several objects, bitwise comparison with their results when they were made",
        "",
        ["results of the derived objects"],
    ),
    prop(
        "P06", "Shared queries give the same answers from any thread and after interruption",
        "Energy, dispersion and Hamiltonian objects that several threads query at the same time give every thread exactly the values "
        "it would get alone. A query that is interrupted or runs out of memory at any point does not change the answers of later "
        "queries on the same object.",
        ["schedules", "crash_points", "inputs"],
        "For all interleavings (at lines, partly at bytecodes) of 2-4 threads over shared objects and all points of interruption; "
        "one minimisation at a time per energy object.",
        "The tests are single-threaded and nothing is ever interrupted.",
        [DIS, ENE, HAM, DIA],
        [("cached C matrices and reference frames", DIS + " C, e1, e2, e3 ..."), ("pure energy functions", ENE + " ferro, spiral, antiferro")],
        "deterministic simulation: seeded thread schedules and interrupts, bitwise comparison with solo runs",
        "Interleaving granularity: lines and bytecodes of magnopy; calls into C libraries are atomic.",
        ["values of queries"],
    ),
    prop(
        "P07", "An HDF5 file is a map from group names to Hamiltonians",
        "A Hamiltonian saved under a group is loaded from it exactly (cell, atoms with spins, g factors and positions, bonds, on-site "
        "terms, notation, ground state, order of atoms), saving or overwriting one group never changes another, and an existing "
        "Hamiltonian is only replaced when overwriting is asked for, otherwise the save is refused with an error. A Hamiltonian that "
        "cannot be saved leaves the files as they were and creates none. Loading without a group finds the only Hamiltonian of the "
        "file, loading of a missing group, file or foreign file is rejected, and files are closed afterwards.",
        ["histories", "inputs", "fault_sequences"],
        "For all histories of saves, refused saves, overwrites and loads over two files and up to four groups (nested ones included) "
        "with short reads and writes below the HDF5 library.",
        "There is no test of the HDF5 input and output at all.",
        [H5, IO],
        [("groups", H5 + " dump_spinham, load_spinham"), ("search of the Hamiltonian in the file", H5 + " load_spinham")],
        "deterministic simulation: seeded histories with short I/O, exact comparison with a reference map",
        "The cone axis may differ by the last bit as it is normalised once more.",
        ["load_spinham_hdf5 of every group after every operation"],
    ),
    prop(
        "P08", "A saved text file gives the Hamiltonian back",
        "A Hamiltonian saved to the text format and loaded again is the same up to the printed precision - cell, atoms, spins, g "
        "factors, ground state, notation, bonds and on-site terms - for every combination of the options of the saving (matrix, "
        "isotropic, DM and symmetric parts, angles, distances, header), and saving and loading again changes nothing more. The text "
        "that is returned is the text that is written, and the filtered copy of a file made while it is loaded loads as the same "
        "Hamiltonian. No other file is touched.",
        ["inputs", "configurations", "histories"],
        "For all Hamiltonians of 1-4 atoms whose on-site matrices are symmetric, all options, several generations; precision: 4 "
        "decimals for parameters, spins and g factors, 8 for cell, positions and ground state; charges are not stored; the order of "
        "bonds is not claimed.",
        "There is no test of saving; loading is tested on no file.",
        [TXT, VER, IO],
        [("writer", TXT + " dump_spinham"), ("reader", TXT + " load_spinham and its section readers"), ("filter", TXT + " _filter_txt_file")],
        "deterministic simulation: seeded save and load generations on the simulated volume with short reads and writes",
        "",
        ["loaded Hamiltonian, text of the file"],
    ),
    prop(
        "P09", "A save that returns is complete, otherwise it raises",
        "When saving (text, HDF5, Vampire UCF, mat and whole export, filtered text, conversion) returns normally the files hold the "
        "complete result; any error of the disk on the way ends in an exception, never in silent loss. After success or failure no "
        "file stays open, files that the save does not write are untouched, and the same save repeated on a healthy disk is complete.",
        ["fault_sequences", "crash_points", "inputs"],
        "For all disk errors (I/O error, full disk, quota, read-only, no more handles, short and torn writes, failing close, sync, "
        "rename, truncate) at any system call, crashes of the process at any write and interrupts at any line; the repetition of an "
        "HDF5 save after a failure goes to a new file; durability across power loss is not claimed.",
        "No test writes a file, and none injects a fault.",
        [TXT, H5, VAM, CONV],
        [("with-blocks and flush at close", TXT + ", " + H5 + ", " + VAM + ", " + CONV)],
        "deterministic simulation: fault injection at every class of system calls of the volume, comparison with the fault-free result",
        "Faults are injected below libc and libhdf5 with an LD_PRELOAD shim.",
        ["files after the save, open handles"],
    ),
    prop(
        "P10", "A failed load leaves no trace and never gives a wrong Hamiltonian",
        "Loading from any format under read errors gives either the right Hamiltonian or an exception, and damaged files (missing, "
        "empty, binary, without cell, atoms or notation, with an unknown atom or a bad number) are rejected. Afterwards no file is "
        "left open or created, no process-wide setting (such as the display of tracebacks, warnings, working directory, random "
        "state) is changed, the source file is as it was, and a repeated load without the fault gives the same Hamiltonian as ever.",
        ["fault_sequences", "inputs", "crash_points"],
        "For all formats, read and open errors at any system call, short reads, interrupts at any line, and the listed kinds of damage.",
        "No test loads a file.",
        [TXT, VER, H5, TBJ, IO],
        [("verification before reading", VER), ("closing of files", TXT + ", " + H5 + ", " + TBJ)],
        "deterministic simulation: read faults, interrupts and damaged files on the simulated volume, residue checks",
        "Damage is limited to the listed kinds.",
        ["result of the load, handles, files, process-wide state"],
    ),
    prop(
        "P11", "Formats are interchangeable",
        "A Hamiltonian passed along any chain of text and HDF5 files stays the same up to one rounding to the printed precision: no "
        "drift with further generations. The common loader recognises the format by the file name or takes the one it is told, in "
        "any letter case, and rejects unknown or wrong formats instead of guessing.",
        ["histories", "inputs", "configurations"],
        "For all chains of 2-6 saves and loads over both formats with faulted and repeated attempts in between.",
        "No test saves or loads.",
        [IO, TXT, H5],
        [("recognition of the format", IO + " load_spinham"), ("writers and readers", TXT + "; " + H5)],
        "deterministic simulation: seeded chains with injected faults against the first generation",
        "",
        ["loaded Hamiltonian"],
    ),
    prop(
        "P12", "Vampire files describe the couplings of the Hamiltonian",
        "The unit cell file, the material file and the input file exported for Vampire describe the cell, atoms, materials, spins and "
        "all couplings of the Hamiltonian in the convention of Vampire, whatever notation the Hamiltonian is in, with each bond once "
        "per direction, and honouring the options (anisotropic and DM parts, materials, decimals, mask, file name or returned text). "
        "A mask that fails is reported to the caller.",
        ["inputs", "configurations", "histories"],
        "For all Hamiltonians, notations and options; files parsed back by an independent reader.",
        "There is no test of the export.",
        [VAM],
        [("notation of Vampire", VAM + " dump_ucf"), ("writers", VAM + " dump_ucf, dump_mat, dump_vampire")],
        "deterministic simulation: seeded notation histories and exports on the simulated volume, independent parser as the oracle",
        "The meaning of the file is that of the parser of the harness, written from the manual of the format as the code follows it.",
        ["exported files"],
    ),
    prop(
        "P13", "TB2J files are loaded and converted faithfully",
        "A TB2J output loads as the Hamiltonian it describes: cell, atoms, positions, magnetic moments as spins, every exchange with "
        "its isotropic, DM and anisotropic part, in the TB2J notation. The conversion to the native formats writes files that load as "
        "that Hamiltonian, under the requested or the default name and format. The source file is never changed, and a failed "
        "conversion can be repeated.",
        ["inputs", "configurations", "fault_sequences"],
        "For all generated TB2J files (any subset of the optional parts, 1-4 atoms, up to 12 bonds), formats and names, with faults of "
        "the disk at any system call.",
        "There is no test of TB2J files or of the command.",
        [TBJ, CONV, IO],
        [("reader", TBJ + " load_tb2j_model"), ("command", CONV + " manager")],
        "deterministic simulation: generated inputs, seeded disk faults, independent description as the oracle",
        "",
        ["loaded Hamiltonian, converted files"],
    ),
    prop(
        "P14", "A minimisation is well-formed, bounded, reproducible and independent of the past",
        "Energy.optimize returns unit vectors for every magnetic atom (and a unit cone axis and a spiral vector, in the "
        "antiferromagnetic case exactly the one that was given). With zero iterations it returns the normalised initial guess, and it "
        "stops at the first step that satisfies the tolerances or at the limit of iterations. For the same model, settings, guess and "
        "state of the random source the result is bitwise the same on a fresh energy object and on one with a past of finished, failed, "
        "rejected, interrupted or disk-faulted minimisations, and with or without saving the history. Settings of the object and the "
        "arrays that it is given are never changed by a minimisation. Wrong arguments are rejected with ValueError before anything is written.",
        ["inputs", "histories", "fault_sequences"],
        "For all generated models (1-3 magnetic atoms), three cases by name or number, all shapes of the initial guess, settings (field, "
        "g factors, spins, memory, Wolfe parameters), up to 4 iterations and up to three earlier minimisations on the object. A failure "
        "of the line search (ValueError) is an allowed outcome, but the same one; descent is the matter of P24.",
        "There is no test of Energy; the property is about what earlier, interrupted minimisations leave behind.",
        [ENE],
        [("optimisation", ENE + " Energy.optimize"), ("settings", ENE + " setters of Energy")],
        "deterministic simulation: seeded random source, histories with interrupts, rejected calls and disk faults; bitwise comparison "
        "with a fresh object",
        "Number of iterations of the line search is limited to keep a run short.",
        ["result of Energy.optimize", "settings of the object", "files of the directory"],
    ),
    prop(
        "P15", "History of a minimisation is complete, ordered and survives faults",
        "The history of a minimisation has a header and one record per step, including the starting state; record j holds the energy and "
        "the configuration that the same minimisation returns when it is limited to j steps. It does not depend on the number of records "
        "per batch, and what is printed is what is saved. Saving appends: earlier content of the file stays. After a disk error, a crash "
        "of the process or an interrupt at any point the file is the earlier content and a prefix of the complete history, after a failed "
        "line search the finished batches are there, and a call that returns has written the whole history. A minimisation repeated after "
        "the faults stopped is recorded completely.",
        ["inputs", "histories", "crash_points", "fault_sequences"],
        "For all generated models, cases, tolerances, batch sizes (1-4, 1000), up to 8 steps (12 in the thorough tier), earlier contents, "
        "and a fault, crash or interrupt at any system call or line. Crash: loss of the process, not of power.",
        "There is no test of the history; records around the border of a batch and around a fault need a search.",
        [ENE],
        [("history", ENE + " Energy.optimize, Energy._update_history or what replaces it")],
        "deterministic simulation: seeded disk faults, crashes and interrupts, byte-prefix check against the history rebuilt from "
        "single-step results",
        "Printed precision of the records: 8 decimals.",
        ["history file, standard output"],
    ),
    prop(
        "P16", "Independent sessions do not disturb each other",
        "Sessions in threads of one process, each with its own Hamiltonian and files (editing, notation changes, saving, loading, exporting, "
        "converting, energies, minimisations, dispersions), give bitwise the results and files they give alone, whatever the interleaving. "
        "A fault of the disk fails at most the session whose operation it hit; no file stays open and no setting of the process is changed "
        "when they are over.",
        ["inputs", "schedules", "fault_sequences"],
        "For all generated pairs and triples of sessions and all seeded schedules with switches at lines of magnopy (at bytecodes in a part "
        "of the runs), with up to two disk faults. The sessions share no object and no file.",
        "Tests are single-threaded; hidden module-level state only shows in particular interleavings.",
        [HAM, ENE, DIS, TXT, TBJ, VAM, H5, IO],
        [("module state", "any module-level object, default argument or fixed temporary name")],
        "deterministic simulation: seeded thread scheduler with disk faults, refinement against solo runs",
        "h5py serialises its calls with its own lock; there is no switch while it is held.",
        ["results and files of every session"],
    ),
    prop(
        "P17", "Results do not depend on the environment of the process",
        "The same operations give the same results and the same files, byte for byte, whatever the hash seed, wall clock (with jumps), "
        "time zone, locale (also without UTF-8), umask and working directory, with absolute or relative names. Only the line with the "
        "date of generation and the year of the copyright differ.",
        ["inputs", "histories", "configurations"],
        "For all generated sessions (edits, all formats, exports, energies, minimisation from a seeded random source, the minimisation "
        "command) and seeded environments; same machine and libraries.",
        "Tests run in one environment.",
        [HAM, ENE, DIS, TXT, TBJ, VAM, H5, IO, MINI, "src/magnopy/_pinfo.py"],
        [("order of atoms", HAM + " magnetic_atoms"), ("header", "src/magnopy/_pinfo.py logo"), ("encodings", "open(...) of the writers")],
        "deterministic simulation: the same seeded sessions in two processes with different simulated clocks and environments, compared",
        "Hash seeds and clocks are sampled.",
        ["results and files of the sessions"],
    ),
    prop(
        "P18", "Results of the minimisation command are complete and true",
        "The minimisation command writes, for exactly the requested ground state types and in the requested order, a section with the "
        "magnetic atoms of the model in their order, positions and unit spin directions (and the cone axis and spiral vector), and a "
        "summary whose energies are those of the printed configurations in the requested magnetic field. The antiferromagnetic case has 26 "
        "configurations, one for every half of a reciprocal lattice vector with components -1, 0, 1 except zero, numbered 1 to 26 alike in "
        "the sections, history files and summary. The last record of every named history file is the printed configuration. When the "
        "command returns, all files are complete on the disk; only its own files are written, its input is unchanged. From the same "
        "random source it gives the same results; a command that failed because of the disk or an interrupt can be repeated.",
        ["inputs", "configurations", "fault_sequences"],
        "For all generated models (1-3 atoms, text, HDF5 and TB2J files), types, fields and output names, number of steps limited to 0-2, with "
        "a disk fault or an interrupt at any point. Failure of the line search is an allowed outcome.",
        "There is no test of the command; it needs many minimisations and a fault in the right place.",
        [MINI, ENE, IO],
        [("command", MINI + " manager, _minimize_ferro, _minimize_antiferro, _minimize_spiral")],
        "deterministic simulation: seeded random source, disk faults and interrupts; recomputed energies and history files as the oracle",
        "Energies are compared at the precision of the printed configuration.",
        ["results file, history files"],
    ),
    prop(
        "P19", "Model files mean what the documentation says, however they are written",
        "A text or HDF5 model file written by the user in the documented format is loaded as the model it describes, whatever the layout: "
        "comments, blank lines, spaces, letter case of keywords, abbreviations of units and of notation keywords, order of sections, "
        "columns, bonds and entries, units of length and energy, scale factors (one or three positive numbers), relative or absolute "
        "coordinates, spins as vectors, angles or values, skipped blocks (-), parameters as matrix, as parts, or as matrix with parts that "
        "replace its own. Rewriting a file under the same name and loading it again gives the new model; a short read makes no difference, a "
        "read error is reported and the next load is right; other loads at the same time make no difference. Loading does not change "
        "the file, leaves no file open and creates no file except the requested filtered copy, which loads as the same model.",
        ["inputs", "histories", "schedules", "fault_sequences"],
        "For all generated models (1-12 atoms, 0-13 bonds) and layouts; a negative scale factor (documented in two contradictory ways) and "
        "an absolute spiral vector in an HDF5 file with a cell in Bohr (not documented) are left out.",
        "There is no test of reading or writing of files; the space of layouts is a product of many independent options.",
        [TXT, VER, H5, IO],
        [("text reader", TXT + " load_spinham_txt"), ("verification", VER + " _verify_model_file"), ("HDF5 reader", H5 + " load_spinham_hdf5")],
        "deterministic simulation: generated files, seeded read faults, interrupts and thread schedules, description of the model as the "
        "oracle",
        "Values are compared at 1e-8 (parameters: relative 1e-9).",
        ["SpinHamiltonian that is loaded", "files of the directory"],
    ),
    prop(
        "P20", "Standardising or shifting the crystal never changes the physics",
        "Standardising the cell, shifting the atoms and moving them into the cell, at any point of a history of edits, notation changes, "
        "saves and loads, describes the same crystal: the new cell spans the same lattice, every bond keeps its vector and value, and the "
        "energies, the magnon matrix and the absolute spiral vector stay the same. A transformation that fails changes nothing; one of a "
        "copy, of a crystal that was handed out, of one of the Hamiltonians built from the same crystal, or of a Hamiltonian whose energy or dispersion object was created before changes "
        "only the object it is called on.",
        ["inputs", "histories", "schedules", "fault_sequences"],
        "For all generated Hamiltonians in cells of 15 families of lattices (and other choices of their vectors) and seeded histories of up to 9 "
        "steps, with interrupted reads and transformations of copies in threads. Cells that the crystallographic library cannot standardise "
        "only have to be left unchanged; the search for a primitive cell (broken in that library) is left out.",
        "Tests standardise one cell without bonds; the bonds are rewritten only in special cells.",
        [HAM, H5, TXT],
        [("crystal", HAM + " standardize, shift_atoms, cell"), ("lattice vectors of bonds", HAM + " _bonds")],
        "deterministic simulation: seeded histories with interrupts and thread schedules, reference table whose bonds follow the two cells",
        "Vectors are compared at 1e-7.",
        ["crystal, bonds, energies, magnon matrix after every step"],
    ),
    prop(
        "P21", "Results of the dispersion command are complete and true",
        "The dispersion command writes a table whose rows are the points of the k-path of the standardised crystal (the path that was "
        "asked for, or the recommended one, including points of the user) and whose columns are the magnon energies of the model there, and "
        "an information file of the path; it does so for text, HDF5 and TB2J models in any notation and any form of the output name. When "
        "it returns, the files are complete on the disk, its input is unchanged and only its own files exist; when the disk fails it "
        "raises, and it can be repeated with the same result.",
        ["inputs", "configurations", "fault_sequences"],
        "For all generated models (1-3 atoms, 1-4 bonds) with stable, reversed and arbitrary states, seeded paths, output names and notations, "
        "with a disk fault, short read or write, or an interrupt at any point. Pictures are replaced by a stub.",
        "There is no test of the command; the table can only be judged with an independent computation.",
        [DISP, DIS, "src/magnopy/magnons/diagonalization.py", IO],
        [("command", DISP + " manager"), ("energies", DIS + " omega")],
        "deterministic simulation: disk faults and interrupts; independent spin-wave computation and independently standardised path as the oracle",
        "The table is compared at the printed precision; points where the matrix is neither clearly definite nor indefinite are not judged.",
        ["files of the output directory"],
    ),
    prop(
        "P22", "A matrix parameter behaves like its matrix",
        "After any sequence of assignments of the whole matrix, its isotropic, anisotropic and antisymmetric parts and its single elements, and of "
        "arithmetic between parameters, arrays and numbers, every view of a parameter (matrix, iso, aniso, dmi, elements, products, "
        "comparison) is the one computed from the same operations on plain 3x3 matrices. A rejected assignment, an interrupted read and use "
        "from threads change nothing; no operation changes its operands, and parameters share no storage with each other or the "
        "arrays they were made from.",
        ["histories", "inputs", "schedules", "fault_sequences"],
        "For all seeded histories of up to 12 operations over a pool of up to six parameters that are combined with each other.",
        "Tests check single operations on a few values, not sequences, aliasing and failures.",
        ["src/magnopy/spinham/parameter.py"],
        [("setters", "src/magnopy/spinham/parameter.py matrix, iso, aniso, dmi"), ("arithmetic", "src/magnopy/spinham/parameter.py operators")],
        "deterministic simulation: seeded histories with rejected and interrupted operations and threads, refinement of plain matrices",
        "Values are compared at 1e-9.",
        ["all properties of the parameter"],
    ),
    prop(
        "P23", "Energies and spectra are those of the documented Hamiltonian at any moment",
        "At any point of a history of edits, notation changes and changes of parameters, atoms and cell in place, the energies of ferromagnetic, antiferromagnetic and spiral states (with the "
        "magnetic field, g factors and spin values set on the energy object) are those of the classical Hamiltonian with its current "
        "couplings, and the magnon energies and the transformation matrix are those of its spin-wave Hamiltonian, also with modes of equal "
        "energy; a state that is not a minimum or maximum gives zero energies of the documented shape. Rejected settings and interrupted queries change "
        "nothing, and an object keeps giving the values of the moment it was created at, from any thread.",
        ["inputs", "histories", "schedules", "fault_sequences"],
        "For all generated Hamiltonians (1-4 atoms, 0-6 bonds; random, with a stable state of either sign, with degenerate modes) and seeded "
        "histories of up to 14 steps; antiferromagnetic states with half a reciprocal vector, spirals with any vector.",
        "There is no test of energies and magnons; the space of models, notations and moments cannot be sampled by hand.",
        [ENE, DIS, "src/magnopy/magnons/diagonalization.py", HAM],
        [("energies", ENE + " ferro, antiferro, spiral"), ("magnons", DIS + " h, omega"), ("transformation", "src/magnopy/magnons/diagonalization.py solve_via_colpa")],
        "deterministic simulation: seeded histories with interrupts and thread schedules; independent classical and spin-wave computation as the oracle",
        "Energies 1e-8, magnons 1e-6 of the scale of the couplings; matrices that are nearly singular are not judged.",
        ["energies, magnon matrix, energies and transformation of the modes"],
    ),
    prop(
        "P24", "A minimisation only goes down and ends in a stationary state",
        "The energy of the state after every step of a minimisation is not higher than before the step, in all three cases, whatever happened "
        "to the energy object earlier; so the result is never above the initial guess, and a minimisation that was killed or interrupted and "
        "is continued from the last complete record of its history never ends above that record. Every spin, cone axis and spiral vector that feels a torque "
        "or a slope moves, in the first step none of them uphill and the energy falls by at least the sufficient decrease of Wolfe; a minimisation of a small model ends within a bounded number of steps (60 for the ferro and 120 for the antiferro case, tolerances not below 1e-6), and a minimisation that ends before the limit of iterations ends where no spin and no cone axis feels a torque beyond its tolerance and the last step is within that of the energy; "
        "for models whose only stable states are known (a spin in a field, an easy axis, an isotropic pair) it ends in one of them, and when the guess is near it (spins in a field of at least 0.45 meV per spin: within 60 degrees, easy axis of that strength: within 25 degrees) it does end there within 60 steps, without a failure of the line search.",
        ["inputs", "histories", "fault_sequences"],
        "For all generated models (1-2 magnetic atoms, couplings of the order of 1 meV), three cases, fields, memory sizes, tolerances, given and random "
        "guesses, and energy objects with interrupted or finished minimisations in the past. Elsewhere a failure of the line search (ValueError) is an allowed "
        "outcome; so are saddle points for general models. Wolfe parameters are 0 < c1 < c2 < 1.",
        "There is no test of Energy; descent has to hold for every state on the path, and for paths continued after a crash.",
        [ENE],
        [("steps", ENE + " optimize, _compute_search_direction, _lambda"), ("gradients", ENE + " _ferro_grad, _antiferro_grad, _spiral_grad")],
        "deterministic simulation: seeded random source, paths interrupted at a seeded line or killed at a seeded write and continued from the "
        "history file; independent computation of energies and torques",
        "Energies of a step may grow by 1e-7 of the couplings (rounding). ",
        ["result of Energy.optimize", "history file"],
    ),
    prop(
        "P25", "A model file that breaks a documented rule is refused, a right one is not",
        "Loading a text or HDF5 model file with one mistake raises an exception and never returns a Hamiltonian, wherever in the file "
        "and in whatever layout the mistake is. Mistakes in text files: a wrong amount of numbers or something that is no number in the cell, the scale "
        "(also zero, or three of which one is not positive), an atom, a bond, an entry of a parameter, an on-site term, the cone axis or the spiral vector; missing, doubled or "
        "incomplete columns of the atoms, doubled or forbidden names, no atoms, no bonds, no terms; bonds and terms of unknown atoms (names are case-sensitive), without "
        "a parameter or with the same entry twice; cell indices that are no integers; missing, doubled, incomplete or unrecognised properties of the notation; unrecognised "
        "units; missing required sections; separators that are too short. Mistakes in HDF5 files: missing required groups, datasets or units, unrecognised units, wrong "
        "shapes, unknown atoms, no or several Hamiltonians. This holds for every way of loading, under short reads, with an interrupted or failed load before, and with another "
        "load at the same time. A refused load leaves no open file, no new file and no changed setting of the process, does not touch models loaded "
        "earlier, and the corrected file loads as what it describes.",
        ["inputs", "histories", "schedules", "fault_sequences"],
        "For all generated models and layouts (those of P19) with one mistake of the catalogue at a seeded place.",
        "There is no test of reading of files; every mistake has many places and layouts, and several of them would be read as another model without the verification.",
        [VER, TXT, H5, IO],
        [("verification of text files", VER + " _verify_model_file"), ("HDF5 reader", H5 + " load_spinham_hdf5")],
        "deterministic simulation: histories of edits that make and correct seeded mistakes, read faults, interrupts and thread schedules; catalogue of rules as the oracle",
        "One mistake at a time, of the catalogue in sim/malformed.py; the text of the message is not judged (N01).",
        ["exception or SpinHamiltonian", "handles, files, process-wide state"],
    ),
    prop(
        "P26", "A refused command fails visibly, keeps earlier results and leaves nothing",
        "A call of magnopy-minimize, magnopy-dispersion or magnopy-convert-tb2j (the three scripts) with wrong arguments (unknown options or values, missing "
        "values, unknown k-points in a path, coordinates that are no numbers), with an input that is missing, a directory, empty, of another format than stated, "
        "damaged or malformed, with a disk that fails while the input is read, or with an output that can not be opened ends with an exception or a nonzero exit "
        "code, also on repetition and when it is interrupted or runs next to another load. It changes, creates and removes no file and no directory: results "
        "of earlier commands and files of the user under the same names stay as they were. It leaves no open handle and no changed setting of the "
        "process; afterwards the right command works and writes exactly its files.",
        ["inputs", "histories", "schedules", "fault_sequences"],
        "For all generated models (three formats), output names and histories of refused commands. Not claimed: that earlier results survive a fault after the command began "
        "to write (see P18, P21), wrong TB2J files that are well formed.",
        "There is no test of the scripts; a command that opens its output first works in every test that succeeds, and loses earlier results of the user in all others.",
        ["src/magnopy/score/minimize_energy.py", "src/magnopy/score/magnon_dispersion.py", "src/magnopy/score/convert_tb2j.py", IO],
        [("commands", "src/magnopy/score/ manager, create_parser, main"), ("choice of the reader", IO + " load_spinham")],
        "deterministic simulation: histories of refused commands with read faults, interrupts and thread schedules over a directory with earlier results",
        "Commands are called as their scripts within the simulated process (arguments, main); minimisations have a limit of steps; plots are stubs.",
        ["exception or exit code", "files and directories, handles, process-wide state"],
    ),
    prop(
        "P27", "Objects sent to other processes are the same there",
        "A Hamiltonian, an energy, a dispersion or an exception of the library that is pickled (any protocol) or deep-copied at any moment of its history, as after a use, "
        "is the same object where it is received: the same atoms, bonds and terms in the same order, notation, "
        "settings, energies, spectra and exports as the original had when it was sent, also in a process with another hash seed, when the message arrives late, in another "
        "order or twice, or after a worker that received it was killed. It is independent: edits on either side follow the table of bonds and change neither the other side nor other copies; it can be forwarded and "
        "sent back. So a spectrum that is computed in parts by several workers, in any partition and order, with repeated parts and killed workers, is that of one process.",
        ["inputs", "histories", "schedules", "crash_points", "fault_sequences"],
        "For all generated Hamiltonians and edit histories, messages of pickle protocols 0 to 5, workers in the process, forked ones and new processes. Numbers "
        "that are computed may differ by rounding (1e-8); everything stored is identical.",
        "Every user with more than one core sends these objects to a pool of workers; no test pickles anything.",
        [HAM, PAR, ENE, DIS, "src/magnopy/exceptions.py"],
        [("state of the objects", HAM + " SpinHamiltonian; " + ENE + " Energy; " + DIS + " MagnonDispersion"), ("exceptions", "src/magnopy/exceptions.py")],
        "deterministic simulation: seeded network (delay, reordering, duplication) between a coordinator and workers that edit, forward and are killed; "
        "answers of the original at the time of sending and a table of bonds as the oracle",
        "Workers live in the simulated process, in forked ones, or (6% of the runs) in new processes with another hash seed.",
        ["answers of the workers", "Hamiltonians, energies and dispersions after pickle or deepcopy"],
    ),
    prop(
        "P28", "A long session keeps nothing it no longer needs",
        "A session may repeat its work without end: loads, saves, edits, exports, energies, minimisations, spectra, conversions and the commands leave nothing behind once "
        "their objects are dropped. All objects of the library are freed, files and figures are closed, threads end, temporary files are removed, and handlers of logs and "
        "signals, filters of warnings, callbacks at exit and settings of the process do not accumulate. Objects that are kept do not grow with the number of queries, edits "
        "that are undone, notation changes, copies and minimisations made with them, and a repeated operation takes as many steps as before. All of it "
        "holds as well when the operations are refused, interrupted or hit by a failing disk, and when every repetition uses other numbers or other names of files.",
        ["inputs", "histories", "crash_points", "fault_sequences"],
        "For all generated sessions. A cache of bounded size is allowed. Not claimed: an interrupt exactly between the creation of a figure and the block that closes it, "
        "memory that the interpreter, numpy and the plots keep for themselves.",
        "Scans over parameters and files in one notebook process run for days; tests run every operation once in a process that ends.",
        [HAM, PAR, ENE, DIS, IO, "src/magnopy/score/"],
        [("what objects hold", HAM + " SpinHamiltonian; " + ENE + " Energy; " + DIS + " MagnonDispersion"), ("files, figures", IO + "; src/magnopy/score/; " + ENE + " optimize")],
        "deterministic simulation: seeded sessions of tasks repeated with disk faults and interrupts at seeded lines; after every repetition all objects, references, "
        "handles, figures, threads, temporary files, handlers, blocks of memory and executed lines are counted; growth after every repetition is a violation",
        "Plots are made but not saved; minimisations have a limit of steps. Blocks of memory below a threshold per task are not judged; objects and references are counted exactly.",
        ["exception or its absence", "counts of objects, references, handles, threads, figures, files, lines, memory"],
    ),
]

def none(id, title, statement, text, why, files, reason):
    p = prop(id, title, statement, ["inputs"], text, why, files, [(title, files[0])], "", "")
    del p["technique"], p["level_note"]
    return {"property": p, "reason": reason}


NOT_APPLICABLE = [
    none(
        "N01", "Every malformed text model is rejected with the right diagnosis",
        "For any text, the verification of a model file reports an error if and only if the text violates the documented grammar, and "
        "names the line at which it does.",
        "For all texts.",
        "The set of malformed texts is infinite and there is no test of the verification.",
        [VER],
        "The verdict is a pure function of one string: no schedule, clock, I/O, history or second party can influence it, so a simulator has "
        "nothing to decide; it needs grammar-based enumeration or proof. What the verification must not do to the process and to valid or damaged "
        "files is decided under P10 and P19, and refusal of single mistakes of a catalogue in histories of edits and loads under P25.",
    ),
    none(
        "N02", "Physical constants and conversion factors are the CODATA ones",
        "Every constant and conversion factor between units has the recommended value in every supported unit.",
        "For all constants of the table.",
        "Tests do not compare the table.",
        ["src/magnopy/units/si.py", "src/magnopy/units/inside.py"],
        "A finite table of literals: nothing is executed, scheduled, stored or able to fail. Comparing literals needs no simulation. (Units used in the "
        "files are exercised by P08, P11, P12 and P19.)",
    ),
    none(
        "N03", "The logo and the warranty banner are laid out correctly",
        "For every width, flags and comment of the caller, the banner is framed, centred and not wider than asked.",
        "For all arguments.",
        "Tests print one banner.",
        ["src/magnopy/_pinfo.py"],
        "Pure formatting of strings: its only sources of nondeterminism, date and environment, are decided under P17; the layout depends on nothing a "
        "simulator controls.",
    ),
    none(
        "N04", "The local minimum found by the minimisation is the ground state",
        "The state returned by the minimisation is the state of lowest classical energy of the Hamiltonian.",
        "For all Hamiltonians and initial guesses.",
        "A global optimum cannot be sampled.",
        [ENE],
        "The documentation promises no global optimum; whether a steepest-descent step finds one is a question of numerical analysis of a deterministic "
        "function, not of schedules or faults. What the minimisation guarantees under histories, faults and schedules is decided under P14, P15 and P18.",
    ),
]


FIXED = [
    ("57759b9", "P02", "removing double counting crashed on a bond stored only in its mirrored form"),
    ("7abaa24", "P02", "rewriting a bond with double counting left the old value in its mirrored bond"),
    ("b90b1ce", "P01", "a notation change scaled a parameter shared by two bonds twice and changed the caller's object"),
    ("a2f847f", "P02", "an on-site parameter could not be removed by the name of the atom"),
    ("bfd38c9", "P02", "removal of an atom from a Hamiltonian with double counting failed"),
    ("e79e4ba", "P17", "order of magnetic atoms depended on the hash seed of the process"),
    ("75f59c7", "P05", "the crystal handed out was the one inside of the Hamiltonian"),
    ("5f9c21f", "P01", "on-site terms in the exchange form had wrong energy for unequal factors"),
    ("a6e525e", "P02", "enforcing double counting touched mirrored bonds that were already there"),
    ("cd96db9", "P03", "a rejected exchange or on-site parameter left its atoms in the Hamiltonian"),
    ("a0d96ee", "P03", "notation with zero factor was rejected after a part of it was applied"),
    ("863e9fd", "P02", "exchange-like terms raised an error without on-site terms if the factors were not defined"),
    ("bf7d68a", "P05", "energy changed the notation of the Hamiltonian it was created from, followed it later and ignored its factor"),
    ("7f97c17", "P03", "settings of the energy could not be set or were read back wrong"),
    ("7dd7134", "P15", "history of the minimisation glued records and the header of the next run"),
    ("91f2a0c", "P15", "history of the minimisation lost its last records when the maximum of iterations was reached"),
    ("7d8998d", "P06", "interrupted or concurrent computation of the C matrix spoiled later magnon energies"),
    ("bd369c1", "P04", "export to Vampire changed the notation of the Hamiltonian"),
    ("08542df", "P12", "the material file for Vampire could not be written"),
    ("6ac9636", "P19", "units of the exchange section were ignored when the text file was loaded"),
    ("b545a58", "P08", "spiral vector was different after the text file was loaded"),
    ("ef8547d", "P08", "filtered copy of the text file could not be saved"),
    ("fd34184", "P08", "spins written as angles were different after the text file was loaded"),
    ("4bc5e86", "P08", "g factors were not saved to the text file"),
    ("7293663", "P10", "failed verification of a text file switched off the tracebacks of the whole process"),
    ("f6da7a8", "P10", "TB2J file stayed open after it was read"),
    ("ca937fb", "P18", "antiferromagnetic minimisations shared one history file and the summary had no energies"),
    ("25bbde3", "P18", "results of the minimisation were not on the disk when the command returned"),
    ("a1c9e68", "P07", "order of atoms and parameters changed after the HDF5 file was loaded"),
    ("34f0d10", "P10", "HDF5 file stayed open after it was read"),
    ("aac5283", "P07", "failed save to HDF5 left a spoiled group and an open file"),
    ("dc81170", "P01", "a notation change reordered the magnetic atoms of the same index"),
    ("9e3dee6", "P01", "switching double counting off lost the bond between two atoms with the same index"),
    ("fd2e2cd", "P03", "exchange bond with a wrong second atom or parameter left the first atom in the Hamiltonian"),
    ("0b6a954", "P16", "two Hamiltonians could not be saved to different HDF5 files at the same time (in-memory file with a fixed name)"),
    ("3dc7441", "P17", "results file of the minimisation could not be written with a locale that is not UTF-8"),
    ("e3c93f0", "P18", "sections, history files and summary of the antiferromagnetic minimisations were numbered differently (27 out of 26)"),
    ("d9eb417", "P19", "blocks skipped with the - symbol in the atoms section raised an error when the text file was loaded"),
    ("720bd00", "P19", "documented header of the atoms section (Atoms Relative) was rejected"),
    ("27658d3", "P19", "absolute spiral vector in inverse Bohr was read as if it was in inverse Angstrom"),
    ("47e39f6", "P20", "standardising the cell left the bonds and the spiral vector in the old cell"),
    ("2428039", "P23", "energy in the magnetic field did not depend on the spin values"),
    ("17d23bf", "P23", "energy of conical and spiral states in the field counted components that average out"),
    ("62f0a4e", "P23", "transformation of magnon modes of equal energy did not diagonalise the Hamiltonian"),
    ("762e9ee", "P23", "half of the energies was missing next to the transformation matrix when the diagonalisation fails"),
    ("bce9c03", "P24", "antiferromagnetic minimisation never moved the cone axis and overwrote the gradient of the last spin"),
    ("2424f5d", "P24", "spiral minimisation moved the spiral vector uphill"),
    ("9dbd1a3", "P24", "line search accepted steps that raise the energy"),
    ("acde9c0", "P24", "search direction of L-BFGS was wrong (empty loop, sign of the difference of gradients, scale)"),
    ("452c4ea", "P26", "minimisation command opened its results file before the model was loaded and lost earlier results"),
    ("2c155bd", "P26", "dispersion command that was refused left new directories"),
    ("b18ccfb", "P24", "minimisation with zero tolerances returned the initial guess"),
    ("b6391a7", "P28", "magnopy-dispersion left its figure open, figures accumulated in a long session"),
    ("4bcd28e", "P28", "figure of a failed line search stayed open when it could not be saved"),
    ("d5cc174", "P20", "two Hamiltonians built from one crystal shared their atoms: a transformation of one moved the atoms of the other and of the crystal"),
]

KNOWN = []
