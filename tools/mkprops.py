#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Saves and history loads of one directory never interleave",
  "Every save into a save directory or a history directory, and every history load, does all of its file and cache work while holding the one lock registered for that directory, from before its first file-system access until its result is final. No thread schedule lets two such operations on the same directory overlap.",
  ["schedules", "programs"], "every interleaving of saves and loads from any number of threads",
  "Tests run a handful of schedules on two or three threads; an early unlock or a missing lock shows only under a rare interleaving.",
  ["dochy_fs/src/imp/filesys/save_dochy_file.rs", "dochy_fs/src/imp/filesys/save_cache_map.rs", "dochy_fs/src/imp/history/pub_fn/save_history_file.rs", "dochy_fs/src/imp/history/pub_fn/load_history_file.rs", "dochy_fs/src/imp/history/current_root_obj_info/history_cache_map.rs"],
  [("per-directory guard object", "filesys/dochy_mutex.rs, current_root_obj_info/mutex_g.rs")])

p("C02", "The library cannot deadlock on its own locks or call user code under them",
  "The library's locks are acquired in one fixed order, no thread re-acquires a lock it already holds, and no completion callback of the user runs while a library lock is held. So no schedule of calls, including calls made from inside a callback, can deadlock.",
  ["schedules", "programs"], "every interleaving and every use of the API from callbacks",
  "A lock-order inversion or a callback under a lock needs a particular interleaving or re-entrant use that the tests never perform.",
  ["dochy_fs/src/imp/filesys/save_cache_map.rs", "dochy_fs/src/imp/common/current_src/current_src_map.rs", "dochy_fs/src/imp/history/current_root_obj_info/history_cache_map.rs", "dochy_fs/src/imp/history/current_root_obj_info/fifo_thread.rs", "dochy_fs/src/imp/filesys/save_dochy_file.rs", "dochy_fs/src/imp/history/pub_fn/save_history_file.rs"],
  [("short critical sections around the global maps", "get_map_item functions"), ("callback invoked after the guard is dropped", "save_*_nb")])

p("C03", "Only saves create files and only removals delete them",
  "Loading, listing, parsing, validating, converting and diffing never create, modify or delete anything on disk. Saves never delete anything, and the only functions that delete are the ones whose documented purpose is removal; single-file removal never deletes a system file.",
  ["inputs", "programs", "configurations"], "every call of every public function of every crate, with any arguments",
  "Tests look at the files they expect and cannot show the absence of other file-system effects on all paths.",
  ["dochy_fs/src/lib.rs", "dochy_fs/src/imp/common/path/prepare_hash_dir.rs", "dochy_fs/src/imp/filesys/remove_dochy_file.rs", "dochy_fs/src/imp/common/path/remove_hash_dir.rs", "dochy_fs/src/imp/history/file_hist/file_history.rs", "dochy_core/src/lib.rs", "dochy_archiver2/src/lib.rs"],
  [("layering of file-system calls", "dochy_fs"), ("reserved file name test before removal", "remove_dochy_file.rs")])

p("C04", "A failed save replaces nothing and advances nothing",
  "A save opens its target for writing only after the difference has been computed and encoded successfully, and, when overwriting is not allowed, only after the target was found not to exist. The in-memory state by which later saves refer to the new file (its cached contents, the file the current object is based on) is updated only after that file has been written completely; a load updates it only once it can no longer fail.",
  ["fault_sequences", "inputs", "histories"], "every point at which a step of a save or load can fail",
  "Tests do not inject failures between the steps of a save.",
  ["dochy_fs/src/imp/filesys/save_dochy_file.rs", "dochy_fs/src/imp/history/fs/derive_impl.rs", "dochy_fs/src/imp/history/fs/write_phase_0.rs", "dochy_fs/src/imp/history/fs/write_phase_file.rs", "dochy_fs/src/imp/history/pub_fn/save_history_file.rs", "dochy_fs/src/imp/history/pub_fn/load_history_file.rs"],
  [("order of steps in the save functions", "derive_impl, write_phase_0, save_dochy_file")])

p("C05", "No failure is swallowed while saving, loading, parsing or converting",
  "Every failure reported by the operating system, a decoder, the parser, the validator or a verification step while parsing, archiving, saving, loading, diffing, validating or converting reaches the caller as an error. It is never dropped, replaced by a default value, or hidden by accepting a short read or a short write.",
  ["fault_sequences", "inputs"], "every call that can fail on those paths",
  "Tests exercise successful I/O; the failing branch of nearly every call is never taken.",
  ["dochy_fs/src", "dochy_diff/src", "dochy_core/src", "dochy_archiver2/src", "dochy_compaction/src", "dochy_json5/src"],
  [("Result propagation with ?", "all crates")])

p("C06", "A clone is an independent snapshot",
  "After an object tree has been cloned (explicitly, by a background save, or by the caches of the history), no later write through one of the two is visible through the other, and the definition an object was built from is never modified after construction. A clone never carries the identity of the original, so the history never takes it for the object it last saved.",
  ["programs", "histories", "schedules"], "every sequence of writes through every public mutating function after any clone",
  "Tests mutate a few members after cloning; sharing is per member type and nesting level.",
  ["dochy_core/src/imp/structs/root_obj.rs", "dochy_core/src/imp/structs/rust_list.rs", "dochy_core/src/imp/intf/mitem.rs", "dochy_core/src/imp/structs/rust_string.rs", "dochy_core/src/imp/structs/rust_array.rs", "dochy_core/src/imp/structs/linked_m.rs"],
  [("copy on write through Arc", "root_obj.rs, rust_list.rs, rust_array.rs, rust_string.rs"), ("fresh identity on clone", "root_obj.rs")])

p("C07", "Ill-typed writes are rejected",
  "Through the public set functions of roots and of list items a parameter is stored only if the definition has a parameter of that name and type and the value's state (value, null, undefined) is one the member's declared variability admits. In every other case the call reports the rejection and the object is unchanged.",
  ["inputs", "programs"], "all names, types, variabilities and states",
  "Tests set well-typed values; the rejection table has 4 variabilities times 3 states for 7 types at 2 levels.",
  ["dochy_core/src/imp/intf/root.rs", "dochy_core/src/imp/intf/mitem.rs", "dochy_core/src/imp/structs/root_obj.rs", "dochy_core/src/imp/structs/param_type.rs", "dochy_core/src/imp/structs/var_type.rs"],
  [("verification before insertion", "root_obj.rs, intf/mitem.rs"), ("variability table", "var_type.rs")])

p("C08", "Typed accessors read the member that was written",
  "For every parameter type and for roots, constant items and mutable items, a getter returns the override stored under exactly the given name if there is one and otherwise the definition's default for that name, and a set function stores under exactly that name a value of the accessor's own type. A typed getter never returns data of another member or another type. The references of items are read and set the same way.",
  ["inputs", "programs"], "7 types times 3 kinds of holder times get, get-default, get-mutable and set, for all names",
  "The accessor family is some 80 functions of which the tests call a part, mostly with one or two names.",
  ["dochy_core/src/imp/intf/root.rs", "dochy_core/src/imp/intf/citem.rs", "dochy_core/src/imp/intf/mitem.rs"],
  [("override-then-default lookup", "get_param functions")])

p("C09", "The reader of a difference consumes exactly what the writer produced",
  "For every parameter type, variability and state, every reference, every list operation (create, modify, delete, become undefined) and every way the set of changed members is stored, the sequence of values the difference writer emits is the sequence the difference reader consumes. The reader rebuilds from it the same type, the same state and the same operation.",
  ["inputs", "histories"], "all combinations of member kind, type, variability, state and id-set representation",
  "The difference module's own tests are disabled; the remaining ones cover few of the combinations.",
  ["dochy_diff/src/imp/write", "dochy_diff/src/imp/read"],
  [("writer functions", "dochy_diff/src/imp/write"), ("reader functions", "dochy_diff/src/imp/read")])

p("C10", "A difference leaves out no change",
  "Every parameter, reference or list that the newer object holds and that is missing from the older object or not equal to its value there is put into the difference; every item present only in the older list is recorded as deleted and every item present only in the newer one as created with its predecessor. Applying the difference stores each recorded entry under the member it was recorded for.",
  ["inputs", "histories"], "all pairs of an object and a later state of it",
  "Tests compare a few hand-written edits.",
  ["dochy_diff/src/imp/prepare", "dochy_diff/src/imp/apply", "dochy_core/src/imp/structs/util/identity_equal_trait.rs"],
  [("comparison of old and new", "dochy_diff/src/imp/prepare"), ("application", "dochy_diff/src/imp/apply"), ("identity comparison", "IdentityEqual implementations")])

p("C11", "Binary encoding and decoding agree for every kind of value",
  "For every kind of value of the binary format the encoder's tag, size field, payload width and byte order are the ones the decoder recognises for that kind, no tag is a prefix of another, and the decoder rebuilds the same kind.",
  ["inputs"], "all 17 kinds of value and all size classes",
  "The round-trip test uses a few values per kind; several kinds and size classes are never encoded.",
  ["dochy_compaction/src/enc_dec/encode.rs", "dochy_compaction/src/enc_dec/decode.rs", "dochy_compaction/src/enc_dec/tag_reader.rs"],
  [("tag table", "encode.rs, tag_reader.rs")])

p("C12", "Compacting a number or string never changes its value",
  "Whenever a value is stored in a smaller representation (bit, byte, short string, single precision), it is because the value survives that representation exactly; the reverse conversion yields the original value, including negative zero and not-a-number.",
  ["inputs"], "all 64-bit integers and floats and all strings",
  "Tests sample the range; the damage is at boundary values.",
  ["dochy_compaction/src/basic_compaction.rs", "dochy_compaction/src/kval_enum.rs", "dochy_compaction/src/string_compaction.rs"],
  [("guards of the narrowing conversions", "basic_compaction.rs")])

p("C13", "Source hash and archive depend on all of the contents and on nothing else",
  "The hash of a source covers the path and the bytes of every archived file. The hash and the archive are functions of those alone: the order in which the operating system lists files, thread timing, time of day and randomness cannot influence them.",
  ["inputs", "schedules", "configurations"], "all directory trees, listing orders and schedules of the hashing thread",
  "Tests hash one small directory on one machine.",
  ["dochy_archiver2/src/imp/read_archive_data_from_directory.rs", "dochy_archiver2/src/imp/write_archive.rs", "dochy_archiver2/src/imp/structs/hash_thread.rs", "dochy_archiver2/src/imp/read_archive.rs"],
  [("sorted map of files", "read_archive_data_from_directory.rs"), ("single hashing thread fed in order", "hash_thread.rs")])

p("C14", "An archive is read back as it was written",
  "The archive reader consumes exactly the sequence the archive writer produces — file count, path and length of every file, then the compressed bodies — and pairs every body with the path it was written for.",
  ["inputs"], "all sets of files",
  "Tests archive one small directory.",
  ["dochy_archiver2/src/imp/write_archive.rs", "dochy_archiver2/src/imp/read_archive.rs"],
  [("writer and reader of the container", "write_archive.rs, read_archive.rs")])

p("C15", "The id of a list item is never handed out twice",
  "In a mutable list the id given to a new item is one no item of that list had before, whatever was inserted, removed or moved in between. The counter behind it never goes back: not by cloning, saving, loading, applying a difference or converting to a newer source.",
  ["histories", "programs"], "all sequences of list operations, clones, saves, loads and conversions",
  "Reuse shows only after removals followed by clone, load or conversion.",
  ["dochy_core/src/imp/structs/linked_m.rs", "dochy_diff/src/imp/apply/apply_list_diff.rs", "dochy_diff/src/imp/prepare", "dochy_core/src/imp/version_adjuster"],
  [("next id counter", "linked_m.rs")])

p("C16", "The links of a mutable list always form one consistent chain",
  "After every list operation the items form a single chain from first to last in which following next and following previous visit the same items in opposite orders, the first has no predecessor, the last no successor, and every item of the list is on it. An item that is inserted or moved is at the place that was asked for and the order of the others is unchanged. A cursor over the list moves along that chain in the direction asked for and tells its ends correctly.",
  ["histories", "programs"], "all sequences of insert, remove and move operations at all positions",
  "The pointer surgery has separate cases for first, last, only and neighbouring items; tests visit some.",
  ["dochy_core/src/imp/structs/linked_m.rs"],
  [("link updates", "linked_m.rs")])

p("C17", "Old data is read with its own source and then converted",
  "A file saved under a different version of the source is interpreted with the source archived next to it and the result is converted to the current source before it is returned; a file saved under the current source is interpreted with the current source. Which of the two applies is decided by comparing the hash of the directory that contains the file with the hash of the current source.",
  ["histories", "configurations"], "all histories of source changes",
  "Tests load with one or two source versions.",
  ["dochy_fs/src/imp/filesys/load_dochy_file.rs", "dochy_fs/src/imp/history/pub_fn/load_history_file.rs", "dochy_fs/src/imp/history/diff_and_cache/dochy_cache.rs"],
  [("hash comparison", "load functions")])

p("C18", "Conversion to a newer source keeps the data",
  "Converting data to a newer source keeps every stored value of a member that both versions have, under its name; list items keep their ids, their order and their references at every nesting level, and new items get ids never used before. A member is made undefined only if the older source does not have it, and every nested list is converted with the definition of its own member.",
  ["inputs", "histories"], "all pairs of source versions and all data",
  "The test of the converter is disabled in the repository.",
  ["dochy_core/src/imp/version_adjuster"],
  [("adjust functions", "dochy_core/src/imp/version_adjuster")])

p("C19", "Validation is performed when asked for and covers every member",
  "Every function that parses, unpacks or converts an object validates the object it returns whenever its caller asks for validation, and a failed validation is the caller's failure; loads pass their caller's request on. The validation examines every member of every list, table and item at every nesting level, including references.",
  ["inputs", "configurations"], "all sources and all data, through every entry point with a validation switch",
  "Tests validate a few correct sources.",
  ["dochy_core/src/imp/json_to_rust/validation", "dochy_core/src/imp/json_to_rust/roots", "dochy_core/src/imp/version_adjuster/version_adjuster.rs", "dochy_fs/src/imp/filesys/load_dochy_file.rs"],
  [("validation switch", "roots, adjust_versions"), ("recursive validators", "validation")])

p("C20", "Generated accessors call existing functions for their own member",
  "For every kind of member, type, variability and nesting, the accessor source that is generated calls a function that the runtime interface really has, with the argument and result types that function has, and passes the name of that very member.",
  ["inputs", "configurations"], "all sources",
  "The generated files kept in the repository cover part of the type and variability table and are not compared after generation.",
  ["dochy_intf/src/imp/structs", "dochy_intf/src/imp/util", "dochy_core/src/imp/structs/param_type.rs", "dochy_core/src/imp/intf"],
  [("source templates", "dochy_intf/src/imp/structs")])

p("C21", "Handles into an object cannot outlive it or be used while it changes",
  "Safe code cannot keep a list, item, table or iterator handle obtained from an object beyond the borrow of that object, cannot obtain two mutable handles to one list, and cannot mutate through a read-only handle. Whole objects can be sent to and shared with other threads.",
  ["programs"], "all safe client programs",
  "A test only shows programs that compile; this is about the programs that must not.",
  ["dochy_core/src/imp/intf/mlist_const.rs", "dochy_core/src/imp/intf/mlist_mut.rs", "dochy_core/src/imp/structs/linked_m.rs"],
  [("lifetimes and marker types of the handles", "dochy_core/src/imp/intf")])

p("C22", "Background history saves happen in the order they were requested",
  "Background saves to one history directory are carried out one at a time in the order of the calls, each saving the state the object had at its call. Every background save, of a history or of a single file, invokes its callback exactly once with the outcome of its own save.",
  ["schedules", "histories"], "all schedules and numbers of queued saves",
  "A second worker or a reordered queue shows only under load.",
  ["dochy_fs/src/imp/history/pub_fn/save_history_file.rs", "dochy_fs/src/imp/history/current_root_obj_info/fifo_thread.rs", "dochy_fs/src/imp/filesys/save_dochy_file.rs"],
  [("one-thread pool per directory", "fifo_thread.rs"), ("snapshot before queueing", "save_history_file.rs")])

p("C23", "Saved bytes are a function of the saved data",
  "The bytes of a difference depend only on the two objects compared: no clock, random number, address, hash seed or thread schedule influences them, and the number a member gets in the format depends only on the source and is no other member's.",
  ["inputs", "schedules", "configurations"], "all objects, processes and schedules",
  "Tests run in one process and never compare bytes between processes.",
  ["dochy_diff/src", "dochy_compaction/src", "dochy_core/src/imp/structs/util/hash_m.rs", "dochy_core/src/imp/structs/meta_table.rs"],
  [("ordered maps in the writer", "dochy_diff/src/imp/prepare"), ("deterministic hasher", "hash_m.rs")])

p("C24", "A corrupted length cannot exhaust memory",
  "A length or count read from a file never reaches a memory reservation that aborts the process when it cannot be satisfied; every allocation sized by file contents fails with an error instead.",
  ["inputs", "fault_sequences"], "all byte sequences presented as saved file, archive or history file",
  "Tests decode only files the library wrote.",
  ["dochy_compaction/src/enc_dec/reader.rs", "dochy_compaction/src/enc_dec/decode.rs", "dochy_diff/src/imp/read", "dochy_archiver2/src/imp/read_archive.rs", "dochy_fs/src/imp/history/algo/phase_data.rs"],
  [("checked reservation", "with_capacity_safe")])

p("C25", "Loading a history file applies its whole chain in order",
  "Loading a history file applies, on top of the source object, the difference files of all its ancestors from the oldest to the newest and finally its own, each exactly once, no matter whether they are read one after another or in parallel. A missing ancestor is an error, never skipped.",
  ["histories", "schedules", "configurations"], "all histories, single- and multi-threaded loading",
  "Tests load a few histories with default options.",
  ["dochy_fs/src/imp/history/file_hist/ancestors.rs", "dochy_fs/src/imp/common/apply_items.rs", "dochy_fs/src/imp/history/diff_and_cache/dochy_cache.rs"],
  [("ancestor enumeration", "ancestors.rs"), ("ordered application", "apply_items.rs")])

p("C26", "Removing old history files never removes an ancestor of a kept file",
  "After removing all but the latest N files of a history, each of those N files can still be loaded and yields the same data as before.",
  ["histories", "configurations"], "all histories, options and N",
  "Tests remove from a few short histories.",
  ["dochy_fs/src/imp/history/remove", "dochy_fs/src/imp/history/file_hist/file_histories.rs"],
  [("keep marking along the ancestor chain", "history_remover.rs")])

p("C27", "History file names identify their place in the history",
  "The name of a history file, when analysed, gives back the control number, predecessor, order and tag it was made from, for all values of these.",
  ["inputs"], "all tags, control numbers and orders",
  "Tests use untagged names with small numbers.",
  ["dochy_fs/src/imp/history/file_name"],
  [("name calculation and analysis", "calc_filename.rs, analyze_file_name.rs")])

p("C28", "A crash during a save damages nothing saved before",
  "If the process or machine stops at any point during a save, every file saved before can still be loaded afterwards with its old contents.",
  ["crash_points"], "every prefix of the file-system operations of a save",
  "Tests never stop in the middle of a save.",
  ["dochy_fs/src/imp/filesys/save_dochy_file.rs", "dochy_fs/src/imp/history/fs/write_phase_file.rs", "dochy_fs/src/imp/common/path/prepare_hash_dir.rs"],
  [("new file per history save", "write_phase_file.rs")])

p("C29", "Malformed data is reported, never a panic",
  "Opening, loading or parsing an arbitrary file or directory ends with a value or an error; it never panics or aborts.",
  ["inputs", "fault_sequences"], "all byte sequences and directory contents",
  "Tests read only well-formed data.",
  ["dochy_compaction/src/enc_dec", "dochy_diff/src/imp/read", "dochy_fs/src/imp/common/path/hash.rs"],
  [("error returns in decoders", "decode.rs, read/*.rs")])

p("C30", "Every member kind is handled by every operation",
  "Each operation that walks an object — comparing, writing, reading and applying differences, converting, validating, describing members, generating accessors — handles every kind of member and every parameter type by an action of its own; none is silently skipped, treated as another kind, or reaches a placeholder.",
  ["inputs", "configurations"], "all member kinds and parameter types",
  "A skipped kind is visible only with a source that uses it in that operation.",
  ["dochy_diff/src", "dochy_core/src", "dochy_intf/src"],
  [("matches over the member enumerations", "all walkers")])

p("C31", "A parsed source means what the JSON5 text says",
  "Parsing a source yields every member of the text with its value; numbers, strings, escapes and comments follow JSON5 and duplicates are errors.",
  ["inputs"], "all texts",
  "Tests parse a few sources.",
  ["dochy_json5/src"],
  [("grammar", "json5.pest"), ("conversion", "de.rs")])

p("C32", "Exported JSON can be read back to equal data",
  "Converting an object to JSON text and parsing that text gives an object with equal contents.",
  ["inputs"], "all objects",
  "Tests print a few objects.",
  ["dochy_core/src/imp/rust_to_json"],
  [("export", "rust_to_json")])

p("C33", "The number of files a load has to apply stays bounded",
  "With the default options no history file ever needs more than a bounded number of ancestors, whatever the sizes of the differences.",
  ["histories"], "all sequences of difference sizes",
  "Tests save a few dozen files.",
  ["dochy_fs/src/imp/history/algo"],
  [("phase selection", "calc_next_phase.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
