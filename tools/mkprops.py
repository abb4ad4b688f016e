"""Generates properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, pathlib
P = []
def add(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = state
    if observe: anchors["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})

C = "zcollection/collection/__init__.py"; CA = "zcollection/collection/abc.py"; CD = "zcollection/collection/detail.py"
S = "zcollection/storage.py"; D = "zcollection/dataset.py"; M = "zcollection/meta.py"; MG = "zcollection/merging/__init__.py"
TS = "zcollection/merging/time_series.py"; PE = "zcollection/merging/period.py"; PA = "zcollection/partitioning/abc.py"
PD = "zcollection/partitioning/date.py"; PS = "zcollection/partitioning/sequence.py"; V = "zcollection/view/__init__.py"
VD = "zcollection/view/detail.py"; IX = "zcollection/indexing/abc.py"; SY = "zcollection/sync.py"; FS = "zcollection/fs_utils.py"
VA = "zcollection/variable/abc.py"; VN = "zcollection/variable/array.py"; VL = "zcollection/variable/delayed_array.py"
CP = "zcollection/compressed_array.py"; EX = "zcollection/expression.py"; DU = "zcollection/dask_utils.py"

add("C01", "Insert then load returns exactly what was inserted",
    "Loading a collection returns, for every variable, exactly the values that were inserted, in axis order, with the same data type, dimensions, fill value, codecs and masked elements, and with the attributes declared by the collection. This holds for lazy and in-memory datasets and for xarray datasets, any chunking, compressor or filter, chunks made only of fill values, local and in-memory file systems, and whether the data is read back lazily or eagerly, by the writing session or after reopening. A variable missing from the inserted dataset reads back as its fill value, and inserting never changes the values of the caller's arrays. A dataset with variables the collection does not declare, or whose definition differs while its validation was asked for, is refused without any change. On storage every array is cut into the block sizes the collection declares, whatever the blocks of the inserted data.",
    ["inputs", "configurations"], "every dataset (types, shapes, chunks, codecs, fill values, lazy/eager) x every partitioning x file system x read mode",
    "The tests insert one fixed int64 dataset with one chunking per file system; the guarantee is over all dtypes, layouts, codecs and chunk boundaries.",
    [C, S, D, VL, VN], [("write one variable to zarr", S + ":write_zarr_variable"), ("open a stored group", S + ":open_zarr_group"), ("insert", C + ":Collection.insert"), ("load and concatenate", CA + ":ReadOnlyCollection.load")],
    ["Collection.insert arguments", "Collection.load result"])

add("C02", "Every row lands in exactly the partition its keys name",
    "Each inserted row is stored in exactly one partition, the one whose name spells that row's partitioning keys (calendar components at the configured resolution, or the integer key values), rows keep their order inside it, and no row is lost or duplicated. The partition paths returned by an insertion are exactly those partitions. A dataset whose key values are not sorted is refused with an error, in lazy and in-memory mode alike, before anything is written.",
    ["inputs", "configurations"], "every key sequence (Date at any resolution, Sequence of 1..n integer keys) x lazy/eager x chunking",
    "Tests check a handful of sorted key patterns; mis-splits show up only for particular run lengths, chunk boundaries, resolutions or key orders.",
    [PA, PD, PS, C], [("split rows by key", PA + ":Partitioning.split_dataset"), ("date keys", PD + ":Date._split"), ("integer keys", PS + ":Sequence._split"), ("monotony check", PA + ":unique_and_check_monotony")],
    ["stored groups, read with zarr only", "Collection.insert return value"])

add("C03", "Histories of inserts and drops behave like a map of partitions",
    "After any sequence of insertions without merging and partition removals, each partition contains exactly the rows of the last insertion that addressed it, dropped partitions are gone, and nothing else exists in the collection. Partitions that an operation does not address are left byte-for-byte unchanged. Listing, loading and reopening the collection all agree with that state after every step.",
    ["histories", "schedules"], "every sequence of insert/overwrite/drop/reopen steps, any batch size and worker layout",
    "Tests run at most two or three steps in one order; the guarantee is about arbitrary histories, including shrinking and growing rewrites of the same partition.",
    [C, CD, MG], [("create or replace one partition", CD + ":_insert"), ("replace stored data", MG + ":_update_fs"), ("drop", C + ":Collection.drop_partitions")],
    ["file tree snapshots before/after each operation", "Collection.load", "Collection.partitions"])

add("C04", "Time-series merge replaces only the inserted time span",
    "Merging a time series into a partition yields all inserted rows plus exactly the existing rows whose time lies strictly outside the span from the first to the last inserted time, ordered by time, for every relative position of the two spans, every time unit and every variable. When a gap tolerance is given, the rule applies to each run of inserted rows separated by gaps larger than the tolerance, so existing rows inside such gaps survive. Rows kept from either side are unchanged in all their variables.",
    ["inputs", "histories"], "every pair of sorted time axes (before, after, overlapping, inside, containing, touching, equal, single points) x tolerance x lazy/eager",
    "Tests cover one example per relative position with coarse spacing; off-by-one errors live at touching or adjacent boundaries.",
    [TS, PE, MG], [("merge algorithm", TS + ":merge_time_series"), ("interval relations", PE + ":Period"), ("merge into a partition", MG + ":perform")],
    ["merge_time_series result", "Collection.load after insert(merge_callable=...)"])

add("C05", "Update applies the function once per selected partition, nothing else",
    "Updating a collection calls the user function exactly once for each selected partition (plus at most one trial call on the first one when the updated variables are not given), with that partition's own data and the caller's arguments, and stores precisely the arrays it returned. All other variables, partitions and metadata stay unchanged, whatever the number of parallel batches, workers, filters or loaded variables, and masked results are stored as fill values. An update that selects nothing changes nothing and does not fail, and one that returns variables the collection does not have is refused and changes nothing.",
    ["inputs", "schedules", "configurations"], "every update function, filter, batch count, worker layout, selected variables, lazy/eager",
    "Tests use one or two workers and partition counts that divide evenly; the guarantee is over all batch splits and schedules.",
    [C, CD, DU, S], [("update", C + ":Collection.update"), ("apply per partition", CD + ":_wrap_update_func"), ("batching", DU + ":split_sequence"), ("rewrite an array", S + ":update_zarr_array")],
    ["calls of the user function", "file tree snapshots", "Collection.load"])

add("C06", "Overlapping computations see exactly the right neighbours",
    "A computation with overlap gives the function, for each selected partition, the concatenation in partition order of up to the requested number of selected partitions before and after it (fewer only at the two ends), and tells the function exactly which slice is the partition itself. Results are paired with the right partition, and an update with overlap stores for each partition exactly the part of the result that belongs to it (or the whole result when trimming is disabled). This holds for collections and views, any depth, filter and number of batches: the neighbours seen are the stored ones from before the update, also for the variables being updated.",
    ["inputs", "configurations"], "every depth, filter, partition count and size pattern, lazy/eager, with or without partition_info, collection or view",
    "Tests use depth 1 or 2 on equally sized partitions, where wrong neighbours or wrong slices often give the same shapes.",
    [CD, CA, VD, V], [("load with neighbours", CD + ":_load_dataset_with_overlap"), ("trim and store", CD + ":_update_with_overlap"), ("view neighbours", VD + ":_select_overlap"), ("map with overlap", CA + ":ReadOnlyCollection.map_overlap")],
    ["datasets received by the user function", "stored arrays after update"])

add("C07", "Selection means the same thing in every operation",
    "A filter, written as a text expression or as a function over the partition keys, selects exactly the partitions whose keys satisfy it, and listing, loading, mapping, updating and dropping all agree on that selection. Partitions are listed once each in increasing numeric key order, absolute and relative paths correspond, selected variables restrict exactly the variables returned, and mapping returns one result per selected partition paired with its own keys, in that order. Selecting nothing yields an empty listing and no dataset rather than an error.",
    ["inputs", "configurations"], "every predicate over the keys x partition population x operation x selected variables x batch size",
    "Tests use a few hand-written filters over one population; lexical versus numeric ordering or filter drift between operations is invisible there.",
    [CA, EX, PA], [("list partitions", CA + ":ReadOnlyCollection.partitions"), ("filter expressions", EX + ":Expression"), ("directory listing and sort", PA + ":Partitioning.list_partitions"), ("map", CA + ":ReadOnlyCollection.map")],
    ["Collection.partitions / load / map results"])

add("C08", "A failed operation leaves stored data intact and retryable",
    "If an insertion, merge, update or partition removal fails part-way, because a storage access, a merge function or a user function raises once, the error reaches the caller and every partition holds either its complete previous content or its complete new content, never a mixture, a truncated group or leftover temporary data that disturbs listing or loading; for an in-place update, which rewrites arrays where they are, this is guaranteed for every stored chunk other than the one being written. All tasks started by the operation are finished when the error is reported. Repeating the operation afterwards without the fault succeeds and gives the same result as if the fault had never occurred.",
    ["fault_sequences", "inputs"], "a failure injected at every file-system mutation and every user-callable invocation of insert, overwrite, merge, update and drop",
    "The tests inject one or two failures by hand; the guarantee is about every failure point.",
    [CD, MG, S, C], [("undo of a failed creation", CD + ":_insert"), ("staged replacement", MG + ":_update_fs"), ("transaction", S + ":execute_transaction"), ("task completion", S + ":execute_transaction")],
    ["file mutations at the operating-system boundary", "content after the failure", "content after a retry"])

add("C09", "A crash during insertion never corrupts the rest of the collection",
    "If the process is killed at any point of an insertion, the collection can still be reopened, every partition that the insertion did not address is intact, and every addressed partition reads as its complete previous content, its complete new content, or as absent. Leftovers of the interrupted write never appear as partitions or as data. Repeating the insertion after the crash completes and gives the same collection as an uninterrupted one.",
    ["crash_points", "histories"], "a kill at every file-system mutation of first insertion, overwrite and merge",
    "Unit tests cannot kill the process between two file operations.",
    [CD, MG, C, PA], [("partition exists only once its consolidated metadata does", CD + ":_insert"), ("staged replacement and rename", MG + ":_rename"), ("listing ignores hidden directories", PA + ":list_partitions")],
    ["file tree after the kill", "reopened collection"])

add("C10", "Stored data is modified only while the synchronizer is held",
    "Every file that belongs to partition data or to a view's data (the configuration file written when a collection or view is created aside) is created, rewritten or deleted by insert, update, drop, add-variable, drop-variable and the view operations only between the acquisition and the release of the collection's or view's synchronizer by that operation. The synchronizer is always released again, also when the operation fails, and is never acquired twice without being released in between.",
    ["schedules", "fault_sequences"], "every write operation on collections and views, on any worker layout, with and without failures",
    "The tests use the no-op synchronizer almost everywhere and never look at when files change.",
    [S, SY, C, V], [("transaction under the lock", S + ":execute_transaction"), ("interprocess lock", SY + ":ProcessSync"), ("locked listing", CA + ":ReadOnlyCollection.partitions")],
    ["synchronizer enter/exit events", "file mutations at the operating-system boundary"])

add("C11", "Concurrent sessions sharing a process lock behave as if serialized",
    "When several processes insert, merge, update and drop in one collection using the same interprocess lock, the final content of each partition equals that of some sequential order of the operations that address it, and none of them loses, duplicates or tears a partition or fails because of the others. The lock excludes all other sessions while one holds it, survives being sent to another process, is released when an operation ends or fails, and the collection reports itself locked exactly while some session holds the lock.",
    ["schedules", "histories"], "every interleaving of operations of several processes",
    "The test suite runs a single worker process and one session.",
    [SY, S, C], [("interprocess lock", SY + ":ProcessSync"), ("transaction under the lock", S + ":execute_transaction")],
    ["per-session operation logs", "final content", "Collection.is_locked"])

add("C12", "Read-only access never modifies stored data",
    "A collection opened read-only refuses every operation that would change stored data, and no operation that only reads (opening, listing, loading, mapping, iterating, copying elsewhere, querying) writes, creates or deletes anything in it, in either mode. No operation on a view ever modifies its reference collection.",
    ["histories", "inputs"], "every sequence of operations on a read-only collection or through a view",
    "The tests call a few forbidden methods and check the exception, not that nothing changed on disk for all the others.",
    [C, CA, V], [("read-only mode", C + ":Collection._read_only_mode"), ("view opens its reference read-only", V + ":View.__init__")],
    ["file mutations at the operating-system boundary", "file tree snapshots"])

add("C13", "A view extends its reference collection without mixing them up",
    "Loading a view returns, for its partitions and under any filter, indexer and variable selection, the reference variables with the reference's values next to the view's own variables; a new view variable (declared with a fill value) reads as its fill value until updated, and an update stores exactly the arrays returned by the function for the selected partitions and changes nothing else. A view covers exactly the reference partitions selected at creation (and still present), dropping a variable removes it from all of them, reference variables can be neither added, updated nor dropped through the view, and reopening a view restores its variables, values and partitions.",
    ["histories", "inputs"], "every sequence of add/update/drop/load/reopen on views over any reference, filter, lazy/eager",
    "Tests run one fixed sequence on a view covering all partitions.",
    [V, VD], [("load reference and view variables", VD + ":_load_one_dataset"), ("create a view variable", VD + ":_create_zarr_array"), ("view update", V + ":View.update"), ("view configuration", V + ":View._write_config")],
    ["View.load / map / partitions results", "reopened view"])

add("C14", "Synchronizing a view realigns it with its reference",
    "Synchronizing covers the view's partitions and the reference partitions its filter selects (all of them without a filter). Afterwards the view reports itself in sync, every view variable has the reference's current shape in each of those partitions, and the whole view loads. Partitions whose reference axis is unchanged keep their view values; where the axis was only extended, the existing view values are kept and the new rows read as the fill value; where it changed otherwise the view values are reset to the fill value, and the returned predicate selects exactly the partitions that were changed. Before synchronizing, the view reports itself out of sync whenever some reference axis differs.",
    ["histories"], "every sequence of reference changes (append, rewrite, new partitions, unchanged) interleaved with view updates and syncs",
    "Tests cover one extension and one rewrite; combinations with chunked variables, several variables and new partitions are not explored.",
    [VD, V], [("per-partition synchronization", VD + ":_sync"), ("extend", VD + ":_extend_partition"), ("checksum of the axis", VD + ":_write_checksum_array"), ("sync", V + ":View.sync")],
    ["View.sync result", "View.is_synced", "View.load"])

add("C15", "Adding and dropping variables changes exactly that variable",
    "Adding a variable (declared with a fill value) makes it appear in every partition with its declared type, dimensions, fill value, codecs and attributes and with all values equal to the fill value, and it can then be updated, loaded and inserted like any other; dropping removes it from every partition and from the metadata. All other variables keep their values, later insertions and reopened sessions see the new schema, and an empty collection accepts both operations. A refused or failed change (existing name, unknown dimension, partitioning key, non-partitioned variable, unserializable attribute) raises and leaves stored data, stored metadata and the session's metadata as they were.",
    ["histories", "inputs"], "every sequence of add/drop/insert/update/reopen, any variable definition valid or not",
    "Tests add and drop one variable on one non-empty collection.",
    [C, S, M], [("add", C + ":Collection.add_variable"), ("drop", C + ":Collection.drop_variable"), ("create array in a partition", S + ":add_zarr_array"), ("delete array from a partition", S + ":del_zarr_array")],
    ["Collection.load, metadata, variables()", "reopened collection"])

add("C16", "Collection configuration survives a reopen unchanged",
    "Reopening a collection restores exactly its axis, partitioning scheme, chunking, block size, attributes and every variable's name, type, dimensions, fill value (including not-a-number, infinities and dates), attributes, compressor and filters, so that the reopened collection accepts, stores and returns data exactly as the original one. Opening or re-creating over an existing collection never alters its stored configuration, and metadata objects that are equal have equal configurations and vice versa.",
    ["inputs", "configurations"], "every metadata definition and partitioning scheme",
    "Tests round-trip two or three definitions with simple types.",
    [M, C, PA, "zcollection/partitioning/registry.py"], [("metadata configuration", M + ":Dataset.get_config"), ("metadata restoration", M + ":Dataset.from_config"), ("configuration file", C + ":Collection._write_config"), ("partitioning registry", "zcollection/partitioning/registry.py:get_codecs")],
    ["metadata before and after reopening"])

add("C17", "Partition keys survive every encoding unchanged",
    "Formatting a partition key as a path and parsing it back, with any base directory prefix, returns the same key, and encoding and decoding it returns the same key, for every date resolution and every combination of integer keys; distinct keys have distinct paths. The order of parsed keys is the order of the dates or integer tuples they denote, and a path that does not belong to the scheme is refused.",
    ["inputs"], "every key value (years 1 to 9999, all calendar components, negative and large integers), every key name and every separator or prefix",
    "Tests parse a handful of fixed paths.",
    [PA, PD, PS], [("parse", PA + ":Partitioning.parse"), ("join", PD + ":Date.join"), ("encode/decode dates", PD + ":Date.encode"), ("encode/decode integers", PS + ":Sequence.encode")],
    ["parse/join/encode/decode results"])

add("C18", "An index answers queries exactly like scanning the data",
    "After an index update, querying the index for column values and loading the collection (or a view) with the result returns exactly the rows that a direct scan selects: the union, in partition order, of all indexed ranges whose columns satisfy the query, each row once, for every logical operator (invert selecting what does not satisfy all the columns) and combination of columns; entries of partitions that no longer exist select nothing. Updating an index after the collection changed replaces the entries of the updated partitions and keeps the others, and a saved index reopens with the same content, metadata and answers. An update whose index function fails leaves the stored index as it was, and a query with an unknown operator or column is refused.",
    ["inputs", "histories"], "every set of indexed ranges (adjacent, overlapping, nested, per partition), query, and update history",
    "Tests query one half-orbit index whose ranges never overlap or nest.",
    [IX, CA], [("index update", IX + ":Indexer._update"), ("ranges to slices", IX + ":Indexer._table_2_indexer"), ("query", IX + ":Indexer.query"), ("apply an indexer when loading", CA + ":build_indexer_args")],
    ["Indexer.query result", "Collection.load(indexer=...)"])

add("C19", "Lazy and in-memory datasets compute the same results",
    "Every dataset operation (selection, deletion, concatenation, merging, renaming, variable selection and addition, computing, persisting, rechunking, pickling, conversion to and from xarray and dictionaries, evaluation of a text expression over the variables) gives the same values, masks, dimensions, types and attributes for a lazy dataset as for an in-memory one and as the corresponding numpy operation, and leaves its operands' values unchanged unless documented otherwise. Operations on inconsistent inputs (conflicting sizes, name collisions when renaming or merging, unknown names, mixed lazy and in-memory data) raise instead of producing an inconsistent dataset.",
    ["inputs", "programs"], "every program of dataset operations over every dataset, lazy versus in-memory versus numpy",
    "Tests exercise each method once on one dataset, mostly lazy.",
    [D, VA, VL, VN], [("dataset operations", D + ":Dataset"), ("concatenation", VA + ":concat"), ("masking", VL + ":DelayedArray.data"), ("xarray conversion", D + ":Dataset.from_xarray")],
    ["values and properties of the resulting datasets"])

add("C20", "Compressed arrays are indistinguishable from the arrays they hold",
    "An array held compressed in memory behaves like the original array: indexing, arithmetic, comparison, reductions, array functions, copies, pickling and conversion to numpy give the same values, type, shape and mask as on the original. Persisting a dataset with compression does not change any value it yields.",
    ["inputs", "programs"], "every array (type, shape, layout, fill value) and every expression over compressed and plain operands",
    "Tests apply a few operations to one or two arrays.",
    [CP, D], [("compressed array", CP + ":CompressedArray"), ("compressed persistence", D + ":Dataset.persist")],
    ["results of operations on compressed arrays"])

add("C21", "A copied collection is an independent, equal collection",
    "Copying a collection to another location, on the same or another file system, with any filter and number of parallel batches, produces a collection with the same configuration whose selected partitions and non-partitioned variables are equal to the source's, and leaves the source unchanged. Later changes to either collection do not affect the other, and a copy never overwrites partitions already present at the target; a copy that fails does not modify the target any more once the failure is reported.",
    ["inputs", "configurations"], "every collection, filter, batch count, file-system pair",
    "Tests copy one collection without non-partitioned variables and always pass the target file system.",
    [C, FS], [("copy", C + ":Collection.copy"), ("copy a tree", FS + ":copy_tree")],
    ["source and target trees", "loaded contents"])

add("C22", "Validation reports exactly the unreadable partitions",
    "Validating a collection reports a partition if and only if reading some of its stored data or metadata back raises, whatever the damage (truncated, corrupted, unreadable or missing files) and codec, without failing and without touching valid partitions. With fixing enabled exactly the reported partitions are removed, after which the collection validates and loads cleanly; without it nothing is modified.",
    ["fault_sequences", "inputs"], "every kind of on-disk damage to any file of any subset of partitions",
    "Tests corrupt one uncompressed chunk.",
    [C, S], [("validate", C + ":Collection.validate_partitions"), ("check one group", S + ":check_zarr_group")],
    ["validate_partitions result", "file tree snapshots", "independent zarr read of each partition"])

add("C23", "Age-based removal drops exactly the partitions older than the limit",
    "Dropping partitions with an age limit removes exactly the selected partitions whose last creation lies further in the past than the limit and keeps all others, whatever the time zone, daylight-saving state and file system of the session. The returned list names exactly the removed partitions, and a limit of zero or a negative limit removes all selected ones.",
    ["configurations", "inputs"], "every time zone, age limit, partition age and filter",
    "Tests run in one time zone with limits of one day and zero.",
    [C], [("age filter", C + ":Collection.drop_partitions")],
    ["remaining partitions", "creation times reported by the file system"])

add("C24", "Variables without the partitioning dimension are stored once and kept",
    "Variables that do not use the partitioning dimension are stored once at the first insertion, keep those values through every later insertion, update, merge, drop and reopen, and accompany the partition data in load, map, map with overlap and update functions, also under variable selection, and can be loaded or mapped alone. They never appear in partitions or in partition listings, whatever the names of the axis variable and of its dimension.",
    ["histories", "inputs"], "every dataset mixing partitioned and non-partitioned variables, any axis and dimension names, any operation history",
    "Tests use one collection whose axis variable and dimension share a name.",
    [C, CA, CD], [("write once", C + ":_write_immutable_dataset"), ("location", CA + ":_immutable_path"), ("merge when loading", CD + ":_load_dataset")],
    ["datasets returned by load/map or received by user functions", "stored tree"])

add("C25", "Period relations agree with the sets of instants they denote",
    "For any two periods expressed in the same time unit, whatever that unit and whether their end is inclusive, the reported relation, intersection, adjacency, containment, union and duration agree with the sets of instants the periods denote; a period is empty exactly when it denotes no instant. The reported relation is one whose documented picture matches (the only one for periods of more than one instant), and its classification (before, after, overlapping before or after, containing, inside) is unique and agrees with the positions. The relation of periods in different units follows the order of their first and last instants.",
    ["inputs"], "every pair of periods, all relative positions and boundary coincidences, all time units",
    "Tests list a few dozen fixed pairs.",
    [PE], [("period algebra", PE + ":Period"), ("relation", PE + ":PeriodRelation")],
    ["Period and PeriodRelation results"])

add("C26", "Operations touch only their own collection, view or index directory",
    "No operation creates, rewrites, moves or deletes a file outside the directory of the collection, view, copy target or index it was asked to modify (lock files aside), whatever the directory is called, including names that contain equal signs, key names, spaces, dots or a trailing slash, relative paths, and with other collections next to it. (Names with the wildcards * ? [ are left out: the fsspec library expands them.) With any such directory name all operations work and give the same results as with a plain name. Creating a collection or a view where a file or a directory already exists is refused and leaves it untouched.",
    ["inputs", "configurations"], "every base directory name and location x every operation",
    "Tests use plain temporary directories only and never look outside them.",
    [MG, PA, FS, C], [("temporary directory of a replacement", MG + ":_extract_root_dirname"), ("path parsing", PA + ":Partitioning.parse"), ("path normalization", FS + ":normalize_path")],
    ["file mutations at the operating-system boundary", "snapshot of sibling directories"])

add("C27", "A failed change of a view or of the variables can be repeated",
    "If adding or dropping a variable of a collection, or adding, dropping, updating or synchronizing in a view, fails part-way because a storage access or the user function raises once (also a write that stores only a part of its data), the error reaches the caller after all its tasks are finished, the configuration can still be read, and the other variables and, for a view, its reference collection and the partitions that were in sync are unchanged. A failed addition leaves no trace of the variable in the session or on storage; an update in place leaves in every stored chunk its former or its new values. Repeating the operation, in the same session or in a new one, succeeds and gives the same result as if the fault had never occurred (a partition of a view whose synchronization failed may be reset to the fill value), also when all storage accesses fail from some point on; a variable whose removal is effective and which is added again reads as its fill value.",
    ["fault_sequences", "crash_points"], "every point at which an access can fail x every schema or view operation x every layout",
    "Tests never inject a storage failure in these operations.",
    [C, V, VD, S, FS], [("roll back of an addition", C + ":Collection.add_variable"), ("roll back of an addition (view)", V + ":View.add_variable"), ("synchronization", VD + ":_sync"), ("rewriting the configuration", FS + ":write_text")],
    ["file mutations at the operating-system boundary, with injected faults", "stored tree", "configuration and data of reopened sessions"])

out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
