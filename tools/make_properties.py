#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only to keep the JSON readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe, "hook_needed": None}})
S = "src/dispersion/"

prop("C01", "A saved catalogue reopens identical, whatever the history",
 "After a catalogue save completes, opening the catalogue again in any later session yields the same rows in the same order: every text field character for character (missing text as empty text), every range bound and reference n/k value equal to 12 significant digits or still missing. "
 "This holds after any history of rebuilds, alias registrations, table edits, repeated saves, refused or failed operations and restarts, and for any printable text (commas, quotes, line breaks, number-like or NA-like words, any script) in the text fields.",
 ["histories", "inputs", "fault_sequences"],
 "every history of open / rebuild / register alias / edit / save / failed operation / restart on one database root, every table content",
 "test_catalogue.py needs a git clone from GitHub and a directory that is not in the repository, so no catalogue test passes; even then it saves one table once.",
 [S+"catalogue.py"],
 [("CSV written without index", S+"catalogue.py:Catalogue.save_to_file"),
  ("typed columns, NA handling restricted to the reference values", S+"catalogue.py:Catalogue.META_DATA, NA_VALUES, __init__")],
 ["Catalogue(config).get_database() after save_to_file()"],
 [("catalogue file", "the durable table of all materials", "<Path>/<File>"), ("database", "in-memory table of one session", "Catalogue.database")])

prop("C02", "A failed or interrupted save never damages the stored catalogue",
 "Whatever goes wrong inside a catalogue save (full disk, I/O error, Ctrl-C, process crash or power loss at any point), the stored catalogue file afterwards is either the complete previous version or the complete new version, never empty, truncated or mixed. "
 "A save that raises leaves the previous version (or, if the failure came after the new file was in place, the new one) and a save that did not store the new version never returns normally; a version whose save returned survives a later process crash. "
 "Once the faults stop, saving again from the same session succeeds and stores the new version.",
 ["crash_points", "fault_sequences", "histories"],
 "every I/O step inside every save of every history, each fault kind at that step",
 "No test interrupts a save; the quantifier is every I/O step of every save, which only an injected fault can reach.",
 [S+"catalogue.py", S+"io.py"],
 [("write to a temporary file, fsync, atomic rename", S+"catalogue.py:Catalogue.save_to_file")],
 ["bytes of <Path>/<File>", "Catalogue(config)"])

prop("C03", "Sessions sharing one catalogue see only complete saved versions",
 "When several sessions open and save the same catalogue at the same time, in any interleaving, every open succeeds and returns exactly one complete version that some session saved (or the initial one), and opens and saves behave as reads and writes of a single atomic register: an open returns the latest save that finished before it began, or one overlapping with it. "
 "Unsaved changes of one session are never visible to another, and saves by others never change what an already open session holds.",
 ["schedules", "histories"],
 "every interleaving, at the I/O steps, of any number of sessions opening, editing and saving one catalogue",
 "The tests run one session; schedules of two processes around one file are never sampled.",
 [S+"catalogue.py"],
 [("atomic replacement of the catalogue file", S+"catalogue.py:Catalogue.save_to_file"),
  ("no state shared between catalogue objects", S+"catalogue.py:Catalogue.__init__")],
 ["Catalogue(config).get_database() in each session"])

prop("C04", "A rebuild lists exactly the data files present, with correct values",
 "After a full rebuild the catalogue holds exactly one row for every supported data file of every enabled module (UserData and Filmetrics: each .txt, .csv or .yml file directly in the module folder; RefractiveIndexInfo: each page listed in the library whose file exists) and no other row, whatever order the directory is listed in; names, author, comment, reference text, path and module are those of the file or library entry, the bounds are the file's valid range expressed in the row's unit, and the reference n/k are the file's values at the configured reference spectrum (missing when outside the range). "
 "Rebuilding a single module replaces only that module's rows and keeps all other enabled modules' rows, aliases included, unchanged. "
 "A rebuild alone changes nothing on disk.",
 ["histories", "inputs", "configurations"],
 "every set of files added, replaced and removed over a history of rebuilds; every listing order; every module configuration and reference spectrum",
 "The catalogue tests cannot run offline and compare no row; directory order and mixed histories are never varied.",
 [S+"catalogue.py", S+"material.py", S+"io.py"],
 [("module readers", S+"catalogue.py:_read_text_db, read_ri_info_db, _iterate_pages"),
  ("partial rebuild keeps rows of other modules", S+"catalogue.py:build_catalogue")],
 ["Catalogue(config, rebuild=...).get_database()", "directory tree of the database root"],
 [("rii_loader", "temporary traversal state during the library scan", "Catalogue.rii_loader")])

prop("C05", "Read faults during a rebuild never give wrong or silently missing rows",
 "If opening or reading data files fails during a rebuild (missing, unreadable, I/O error, too many open files) every row that is produced is exactly the row a fault-free rebuild gives for that file, and every file without a row was either announced by a warning that names it or the rebuild itself raised. "
 "For RefractiveIndexInfo pages an operating-system error on one file costs only that file: it is skipped with a warning and all other pages are listed. "
 "A failed rebuild leaves the stored catalogue and all data files untouched, and once the faults stop a new rebuild is complete; Ctrl-C is never swallowed.",
 ["fault_sequences", "crash_points", "schedules"],
 "every I/O step of a rebuild and every fault kind there, also while another session is replacing data files",
 "No test injects a read failure; the skip path needs a fault at a particular file.",
 [S+"catalogue.py", S+"io.py"],
 [("skip with warning on OSError", S+"catalogue.py:_iterate_pages"), ("library file fallback", S+"catalogue.py:read_ri_info_db")],
 ["Catalogue(config, rebuild='All').get_database()", "warnings", "raised exceptions"])

prop("C06", "Aliases stay unique and always lead to the row they were given to",
 "Through any history of alias registrations (by row number or by a one-row selection), table edits and filtering, saves, reopenings and restarts, no alias is ever held by two rows through registration, and asking for a material by alias returns the material of exactly the row holding that alias; asking by row number returns the material of that row of the catalogue. "
 "A registration that is refused because the alias is taken raises and changes nothing; a registration that succeeds changes only that row's alias (re-registering a row's own alias is accepted); an unknown alias raises.",
 ["histories", "inputs", "fault_sequences"],
 "every history of registrations, edits, replaced tables, saves and reopenings; every alias text",
 "The only alias test cannot run offline and registers each row once in a freshly built table.",
 [S+"catalogue.py"],
 [("uniqueness check before assignment", S+"catalogue.py:register_alias"), ("alias and row lookup", S+"catalogue.py:get_material")],
 ["register_alias, get_material, get_database"])

prop("C07", "A material written to a file reads back as the same material",
 "When a material (tabulated n or n,k, tabulated permittivity, a dispersion model, or a model/table for n with a table for k) has been written to a .yml file, or a tabulated n or n,k material to a .txt, .csv or .nk file, reading that file gives a material with the same refractive index and permittivity at every spectral point of the same valid range, and the same reference, comment, name, full name and author text; the free-form header comment is kept line by line (in the text formats metadata are single lines of text). "
 "This holds for any number of table rows from two on, any supported spectrum type and unit, any platform text encoding, repeated writes with the same writer, after any earlier failed attempt, and also when the caller has reused the array the material was made from. The material in memory and the one read back from a .yml file compare equal.",
 ["inputs", "histories", "configurations", "fault_sequences"],
 "every material of the supported kinds, every output format, every history of write attempts, every default text encoding",
 "No test writes a material file.",
 [S+"io.py", S+"material.py", S+"spectral_data.py"],
 [("writer", S+"io.py:Writer.write_file"), ("file dictionary of a material", S+"material.py:prepare_file_dict, dataset_to_dict, collapse_datasets"), ("reader", S+"io.py:Reader.read_file")],
 ["Material(file_path=...) after Writer(path, material).write_file()"])

prop("C08", "A failed or interrupted material write never damages stored data",
 "Whatever goes wrong while a material file is written (full disk, I/O error, Ctrl-C, process crash or power loss at any point) the file afterwards holds either its complete previous content (or is still absent) or the complete new content; a write that returned normally has stored the complete new content. "
 "A failing write raises, other files of the folder keep their content, whatever an interrupted write leaves behind never shows up as a material in a later catalogue rebuild, and once the faults stop repeating the write with the same writer succeeds.",
 ["crash_points", "fault_sequences", "histories"],
 "every I/O step inside every material write, each fault kind at that step, new and existing target files",
 "No test writes a material file, let alone interrupts one.",
 [S+"io.py", S+"catalogue.py"],
 [("write to a temporary file, fsync, atomic rename", S+"io.py:Writer.write_file"), ("header comment added before the file becomes visible", S+"io.py:prepend_text_to_file")],
 ["bytes of the target file", "Material(file_path=...)", "Catalogue(config, rebuild='All')"])

prop("C09", "Reading a data file depends only on the bytes it holds now",
 "Reading a material data file (.txt, .csv, .nk or .yml) gives the data, data type, units and metadata its current content states, independent of what the same or any other reader read before, of how the operating system splits the reads, of the hash seed of the interpreter and of other sessions replacing the file at the same time (old or new content, never both). "
 "If the content cannot be read completely the read raises; it never returns partial, default or earlier data, and Ctrl-C during a read is never swallowed.",
 ["histories", "fault_sequences", "schedules", "inputs"],
 "every sequence of reads and replacements, every split of the byte stream, every failing read step, every hash seed",
 "The three file reading tests need files that are not in the repository; none reads twice, in pieces or with a failure.",
 [S+"io.py", S+"material.py"],
 [("fresh default dictionary per read", S+"io.py:Reader._create_default_file_dict, read_file"), ("yaml loading", S+"io.py:read_yaml_file")],
 ["Reader(path).read_file()", "Material(file_path=path)"])

prop("C10", "Configuration survives faults and is never half stored or half read",
 "After a configuration has been written, reading the configuration returns equal values for every setting, for any text, number and module switch; a write that fails, is interrupted or crashes at any point leaves the complete old or the complete new configuration, and repeating it succeeds once faults stop. "
 "When no configuration file exists, asking for the configuration yields the default values; when one exists it yields the stored one, or, only if it cannot be read because of an operating-system error, the defaults together with a warning - never a mixture; asking never changes the stored configuration. "
 "First use by several sessions at once, in any interleaving, works for all of them.",
 ["crash_points", "fault_sequences", "schedules", "inputs"],
 "every I/O step of writing and reading the configuration, every configuration content, every interleaving of first uses",
 "No test reads or writes a configuration file.",
 [S+"config.py", S+"io.py"],
 [("fallback to defaults", S+"config.py:get_config"), ("creation of the user directory", S+"config.py:_get_user_config_dir"), ("yaml writing", S+"io.py:write_yaml_file")],
 ["get_config(), read_config()", "bytes of config.yaml"])

prop("C11", "Setup records only what the user confirmed and what really got installed",
 "Whatever the user answers, in any order of invalid, declined and accepted inputs, the setup dialogue stores a configuration only after an absolute root path and a valid catalogue name were confirmed and the accepted modules were installed; the stored configuration has exactly that path and name and enables a module only if it was accepted and its installation succeeded. "
 "If the dialogue ends early (end of input, Ctrl-C, failed download, I/O error, crash) the previous configuration and catalogue stay complete and unchanged or are completely replaced, the user's own data files are never touched, and running setup again succeeds. "
 "The catalogue file is rewritten only after a confirmed rebuild (in setup and in the rebuild command), and then lists all installed data.",
 ["inputs", "crash_points", "fault_sequences", "histories"],
 "every sequence of answers, every I/O step of the dialogue and every fault there, followed by re-runs",
 "No test runs the dialogue; only two of its helper functions are called, by tests that cannot pass offline.",
 [S+"scripts/setup_dispersion.py", S+"catalogue.py", S+"config.py"],
 [("ask and confirm loops", S+"scripts/setup_dispersion.py:ask_and_confirm, ask, get_confirmation"), ("module installation", S+"scripts/setup_dispersion.py:install_modules, install_rii"), ("rebuild confirmation", S+"catalogue.py:rebuild_catalogue")],
 ["setup main(), rebuild_catalogue()", "config.yaml and catalogue file afterwards"])

prop("C12", "Reading and evaluating is free of side effects, also across threads",
 "Evaluating refractive index or permittivity, asking for the valid range or a sample spectrum, building an effective medium, preparing a material for writing, and fetching materials never change the material, spectrum, arrays or catalogue passed in or shared, nor settings of the process (numpy error handling, random state, working directory). "
 "Therefore any number of caller threads working on shared objects, in any interleaving, each get exactly the results they would get alone, and results already handed out never change later: values, ranges and conversions belong to the caller, who may change them without changing anything else; so do the arrays a material was made from.",
 ["schedules", "histories"],
 "every interleaving, at statement and bytecode granularity, of caller threads doing such operations on shared materials, spectra and catalogues; every sequence of them",
 "The tests call each evaluation once, from one thread, and never look at the arguments afterwards.",
 [S+"spectrum.py", S+"spectral_data.py", S+"material.py", S+"catalogue.py"],
 [("conversion returns new values unless in-place is requested", S+"spectrum.py:Spectrum.convert_to"), ("evaluation without caching", S+"spectral_data.py:evaluate of each class")],
 ["get_nk_data, get_permittivity, get_maximum_valid_range, get_sample_spectrum, effective media, get_material, prepare_file_dict"])

prop("C13", "A material fetched from the database evaluates to what its file states",
 "A material fetched through the catalogue or read from a data file, at any moment of a history of file replacements, rebuilds, saves, restarts and read faults, evaluates to the values its current file determines: linear interpolation of tables, the documented formula of each model, permittivity as square of the refractive index, missing parts as zero. "
 "The result is the same whichever supported spectrum type and unit, and scalar or array form, the question is asked in; points outside the valid range are refused with an error, and a fault while fetching raises instead of returning other values. "
 "Extrapolating or removing absorption on one fetched material affects no other material and not the stored data.",
 ["histories", "inputs", "fault_sequences", "configurations"],
 "every file of the supported kinds, every query unit, every point of a history of replacements and faults",
 "The evaluation tests cover three hand-picked points of in-memory data; all tests that read files fail for lack of data.",
 [S+"catalogue.py", S+"material.py", S+"spectral_data.py", S+"spectrum.py", S+"io.py"],
 [("dispatch from file data to spectral data", S+"material.py:_process_file_data, _process_table, _process_formula_data"), ("range check", S+"spectrum.py:Spectrum.contains"), ("unit conversion", S+"spectrum.py:convert_from, convert_to")],
 ["Catalogue.get_material(...).get_nk_data / get_permittivity", "Material(file_path=...)"])

prop("C19", "What is done in the interactive grid counts exactly once it is saved",
 "In an interactive session the grid shows the table the session holds at that moment, read-only when opened for viewing and editable when opened for editing. Whatever the user does in it (changing cells, filtering, sorting, adding and deleting rows) changes neither the table of the session nor the stored file until the edits are saved; then the table of the session is exactly what the grid shows, and saving the catalogue stores exactly that, or leaves the previous version if the save fails or crashes. "
 "This holds for every history of viewing, editing, alias registrations, replaced tables, failed saves and restarts. "
 "With interactivity disabled the grid operations raise and change nothing; without the grid package an interactive catalogue is refused and a non-interactive one opens normally.",
 ["histories", "fault_sequences", "inputs"],
 "every history of grid operations and user edits, every fault in the saves between them",
 "The grid package is not a dependency of the tests and no test opens a grid.",
 [S+"catalogue.py"],
 [("grids", S+"catalogue.py:Catalogue.view_interactive, edit_interactive"), ("edits taken over", S+"catalogue.py:Catalogue.save_interactive")],
 ["the table handed to qgrid.show_grid", "Catalogue.get_database()", "Catalogue(config) in a later session"],
 [("grid", "the table as the user sees and edits it", "Catalogue.qgrid_widget")])

prop("C20", "A catalogue uses exactly the configuration in force, and refuses invalid ones",
 "A catalogue opened or rebuilt without an explicit configuration works with the configuration stored at that moment (the documented defaults if none is stored, or, announced by a warning, if reading it fails with an I/O error): its root and file, its enabled modules and its reference spectrum, whichever session stored it and whatever happened to earlier writes. An explicitly given configuration is used as it is, instead of the stored one, and neither it nor the stored one is changed. "
 "Neither configurations stored later nor later changes to a dictionary that was given redirect a catalogue that is already open: it saves to where it was opened. "
 "A configuration with a setting that is missing, of the wrong type or not allowed (root that is no directory, invalid file name, unknown spectrum type or unit) is refused with an error, and neither refusing nor opening or rebuilding changes anything on disk.",
 ["histories", "configurations", "fault_sequences", "crash_points"],
 "every history of configuration writes by several sessions, faults and crashes in them, and of catalogues opened, rebuilt and saved with and without an explicit configuration, valid or not",
 "All catalogue tests pass an explicit configuration of one temporary directory, and they fail offline; none changes the stored configuration meanwhile or offers an invalid one.",
 [S+"catalogue.py", S+"config.py"],
 [("choice of the configuration", S+"catalogue.py:Catalogue.__init__"), ("validation", S+"config.py:validate_config, valid_file_name"), ("reference spectrum", S+"catalogue.py:Catalogue.make_reference_spectrum")],
 ["Catalogue(), Catalogue(rebuild=...), Catalogue(config, ...)", "directory trees of all roots"],
 [("stored configuration", "the configuration in force for sessions that give none", "<user config dir>/config.yaml")])

prop("C21", "Sessions sharing data files see only complete versions of them",
 "When several sessions (processes or threads) write, read and catalogue the same data files at the same time, in any interleaving, with writers failing or crashing at any point, every read gives exactly one complete version that some session wrote (values, range and texts belong together), and per file the reads and writes behave as those of a single atomic register: a read returns the latest write finished before it began or one overlapping with it, and a failed write took effect entirely or not at all. "
 "A rebuild running meanwhile succeeds, lists every file that existed throughout exactly once with all fields from one such version, and never lists anything but the data files themselves.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every interleaving, at the I/O steps, of any number of sessions writing, reading and cataloguing the same files; every fault and crash of a writer",
 "No test runs two sessions or interrupts a writer while a reader is at work.",
 [S+"io.py", S+"material.py", S+"catalogue.py"],
 [("write to a temporary file, then rename", S+"io.py:replace_file, Writer.write_file"), ("whole file read at once", S+"io.py:Reader, read_yaml_file"), ("data files recognised by extension", S+"catalogue.py:_read_text_db")],
 ["Writer.write_file, Reader.read_file, Material(file_path=...), Catalogue(config, rebuild='All')"],
 [("data files", "material files shared by the sessions", "<Path>/UserData/*")])

prop("C22", "An operation that fails leaves the objects it works on as they were",
 "Whatever makes an operation on a material, spectrum, catalogue, interactive grid, reader or writer fail - arguments that are refused, an allocation failing or Ctrl-C arriving inside a call to the numerical libraries, or an I/O error - the objects and stored files afterwards evaluate, hold and contain exactly what they did before (or all of what the completed operation gives): an extrapolation applies to n and k or to neither, a spectrum converted in place has values, type and unit that belong together, a refused alias or configuration changes nothing, a writer can write again. "
 "Repeating the operation without the fault gives what an undisturbed session gets, and no setting of the process stays changed.",
 ["fault_sequences", "histories", "inputs"],
 "every sequence of such operations with valid or invalid arguments, and every call into numpy, scipy, pandas, yaml or the file system inside them as the point of failure",
 "The tests check that some invalid arguments raise, never what is left behind, and inject no failure.",
 [S+"material.py", S+"spectrum.py", S+"spectral_data.py", S+"catalogue.py", S+"io.py"],
 [("both parts are extrapolated before either is replaced", S+"material.py:Material.extrapolate"), ("values are converted before the spectrum is changed", S+"spectrum.py:Spectrum.convert_to"), ("the alias is checked before it is set", S+"catalogue.py:Catalogue.register_alias")],
 ["extrapolate, convert_to in place, effective media, register_alias, set_database, save_to_file, save_interactive, Writer.write_file, Reader.read_file"])

# ---- pure functions: stated, not claimed -------------------------------------------------
prop("C14", "Spectrum conversions are mutually inverse and order-consistent",
 "For every positive spectral value, converting between wavelength, frequency, energy, angular frequency and wavenumber in any supported units and back returns the value, scalar and array inputs agree, and a range contains a point in one unit exactly if it contains it in every other.",
 ["inputs"], "every value, every pair of units", "The tests convert a few values in one direction only.",
 [S+"spectrum.py"], [("conversion tables", S+"spectrum.py")], ["Spectrum.convert_to"])
prop("C15", "Dispersion models equal their published formulas in memory",
 "Each model class (formulas 1 to 9 of refractiveindex.info, Drude, Drude-Lorentz, Tauc-Lorentz) evaluates, for every parameter vector and spectrum inside its range, to the published formula.",
 ["inputs"], "every model, parameter vector and spectrum", "Only Sellmeier is compared with one value.",
 [S+"spectral_data.py"], [("model classes", S+"spectral_data.py")], ["SpectralData.evaluate"])
prop("C16", "Effective media reduce to their constituents and stay physical",
 "For every pair of materials an effective medium of filling fraction 0 equals the host and of fraction 1 the inclusion, values in between are bounded and passive for passive constituents, and fractions outside 0..1 are refused.",
 ["inputs"], "every pair of materials, fraction and spectrum", "No test builds an effective medium.",
 [S+"material.py"], [("mixing rules", S+"material.py:Simple, MaxwellGarnett, Bruggeman")], ["EffectiveMedium subclasses"])
prop("C17", "Extrapolation changes nothing inside the original range",
 "After extrapolating a material its values inside the original range are unchanged, the new range covers the requested points, and points beyond it are still refused.",
 ["inputs"], "every material, target point and spline order", "No test extrapolates.",
 [S+"spectral_data.py", S+"material.py"], [("spline fallback", S+"spectral_data.py:Extrapolation")], ["Material.extrapolate"])
prop("C18", "Constructor arguments are validated before a material exists",
 "For every combination of constructor arguments, exactly one data source of the right type and shape yields a usable material and any other combination raises.",
 ["inputs"], "every combination of arguments", "The tests construct two valid materials.",
 [S+"material.py"], [("argument parsing", S+"material.py:_parse_args")], ["Material(...)"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
