"""Per-property facts the driver needs (must not import the code under test)."""
INFO = {}


def add(prop, rule, needs=(), level='exploration', assumptions=(), shards=8):
    INFO[prop] = {'level': level, 'rule': rule, 'needs': list(needs), 'assumptions': list(assumptions), 'shards': shards}


IN_PROC = 'workers are threads of the checking process (dask LocalCluster processes=False), so the monitors see every access'
SEEDED = 'inputs and histories are sampled from seeded generators; absence of violations is evidence for what was explored only'

add('C01', 'distinct = (file system, lazy/in-memory, partition kind, masked, missing variables, type+codec profile); trivial = no row compared',
    ['arrays_compared', 'stored_arrays_compared', 'all_fill_arrays', 'missing_variables', 'reopened_loads', 'caller_arrays_checked', 'xarray_insertions', 'created_from_xarray', 'refused_insertions'],
    assumptions=[IN_PROC, SEEDED])
add('C02', 'distinct = (partition kind, resolution, key depth, lazy/in-memory, file system, valid/unsorted variant); trivial = a single row',
    ['rows_placed', 'partitions_seen', 'unsorted_refused_lazy', 'unsorted_refused_eager', 'boundary_rows', 'large_datasets', 'large_insertions'], assumptions=[IN_PROC, SEEDED])
add('C03', 'distinct = (operation bigrams seen in the history, partition kind, depth, file system, lazy flags); trivial = history without overwrite or drop',
    ['ops_insert', 'ops_drop', 'overwrites', 'frame_partitions_checked', 'emptied', 'reopens'], assumptions=[IN_PROC, SEEDED])
add('C04', 'distinct = (relative position of the two spans, gap to the neighbours, tolerance class, lazy/in-memory, path: direct call or through insert, time unit)',
    ['merges_direct', 'merges_inserted', 'kept_rows', 'replaced_rows', 'tolerance_runs', 'tolerance_in_another_unit', 'long_series', 'adjacent_by_one_unit', 'pos_inside', 'pos_before', 'pos_after', 'pos_contains'],
    assumptions=[IN_PROC, SEEDED, 'axis values are sorted inside each dataset'])
add('C05', 'distinct = (filter kind, variables given/inferred, lazy flag, callable form, masked, lazy result, selection size, batches vs partitions, file system)',
    ['calls', 'call_arrays_checked', 'frame_files_checked', 'partitions_updated', 'masked_updates', 'empty_selections', 'inferred_updates', 'swapped', 'refused_updates'],
    assumptions=[IN_PROC, SEEDED])
add('C06', 'distinct = (collection/view, map/update, depth, filter kind, lazy flag, partition_info, variable selection, selection size, file system)',
    ['window_arrays_checked', 'slices_checked', 'map_windows', 'update_windows', 'untrimmed_updates', 'depth_beyond_ends', 'interior_windows', 'view_windows'],
    assumptions=[IN_PROC, SEEDED])
add('C07', 'distinct = (partition kind, depth, filter kind, modifying operation, variable selection, lazy flag, selection size, batching, file system)',
    ['listings', 'text_filters', 'loads', 'map_arrays_checked', 'updates', 'drops', 'empty_selections', 'numeric_differs_from_textual', 'view_listings'],
    assumptions=[IN_PROC, SEEDED])
add('C08', 'distinct = (operation, kind of fault, mutated file class, persistent, error reported or absorbed, lazy flag)',
    ['faults_fired', 'error_reported', 'user_faults', 'lazy_data_faults', 'torn_writes', 'partitions_judged', 'retries'], level='fault_enumeration',
    assumptions=[IN_PROC, SEEDED, 'local file system; the injected I/O error replaces the system call (it has no partial effect)',
                 'a fault that is not reported to the caller must have had no effect on the result'])
add('C09', 'distinct = (operation, merging, kind of mutation at which the process died, states left, lazy flag)',
    ['crashes', 'addressed_partitions_judged', 'left_old', 'left_new', 'left_absent', 'completed', 'double_crashes', 'dropped_after_crash', 'arrays_compared'],
    level='fault_enumeration',
    assumptions=[SEEDED, 'process crash: what the process wrote before its death survives (no power failure)', 'local file system'])
add('C10', 'distinct = (operation, collection/view, I/O fault armed, failed, mutations seen)',
    ['guarded_mutations', 'operations', 'failed_operations', 'insert', 'overwrite', 'merge', 'update', 'drop', 'addvar', 'dropvar', 'validate',
     'view_create', 'view_add', 'view_update', 'view_sync', 'view_dropvar'],
    assumptions=[IN_PROC, SEEDED, 'configuration files are not partition data', 'local file system'])
add('C11', 'distinct = order in which the sessions obtained the lock (sequence of session ids over the whole run)',
    ['critical_sections', 'lock_handovers', 'mutations_observed', 'polled_locked', 'polled_unlocked', 'partitions_explained', 'threaded', 'forked', 'crashed_sessions'],
    assumptions=[SEEDED, 'local file system with POSIX record locks', 'schedules are provoked with injected delays, not enumerated',
                 'an operation may be split in several critical sections, so that each partition is explained on its own'], shards=4)
add('C12', 'distinct = (operation, mode, file system of the protected collection, refusal)',
    ['protected_operations', 'read_operations', 'refused_operations', 'view_operations', 'view_refused', 'damaged'], assumptions=[IN_PROC, SEEDED])
add('C13', 'distinct = (filter kind, lazy flag, variable selection, indexer, selection size, number of view variables, file systems)',
    ['loads', 'indexer_loads', 'map_arrays_checked', 'listings', 'added', 'updates', 'partitions_updated', 'swapped', 'call_arrays_checked', 'dropped', 'reopened',
     'refused', 'reference_drops', 'empty_selections'],
    assumptions=[IN_PROC, SEEDED, 'view variables declare a fill value', 'the reference is not modified otherwise than by dropping partitions (C14 does that)'])
add('C14', 'distinct = (reason of the synchronization, reasons together, file systems, new filter, partition kind, number of view variables)',
    ['syncs', 'sync_new', 'sync_extend', 'sync_reset', 'is_synced_true', 'is_synced_false', 'ref_same', 'ref_drop', 'ref_extend', 'ref_shrink', 'ref_modify', 'reopened'],
    assumptions=[IN_PROC, SEEDED, 'view variables declare a fill value',
                 'the partitions to synchronize are those of the view and those its filter selects (all of them without filter)'])
add('C15', 'distinct = (operation, previous operation, file system, empty collection, partition kind) and (refusal, file system, empty collection)',
    ['added', 'dropped', 'updated_added', 'inserted_without_the_variable', 'reopened', 'refused', 'failed_additions', 'started_empty', 'changed_empty',
     'stored_arrays_compared', 'name_reused'],
    assumptions=[IN_PROC, SEEDED, 'added variables declare a fill value', 'the injected I/O error does not hit the configuration file'])
add('C16', 'distinct = (type, fill value, compressor, number of filters, attribute types) of a variable',
    ['reopens', 'recreated', 'equalities', 'variables_compared', 'stored_definitions_compared', 'sessions_compared'],
    assumptions=[IN_PROC, SEEDED, 'attribute values are JSON values or numpy scalars and arrays of them (tuples come back as lists)'])
add('C17', 'distinct = (scheme, resolution or number of keys, key types, lazy flag, time unit)',
    ['date_keys', 'sequence_keys', 'parsed', 'refused', 'orders', 'numeric_differs_from_textual', 'splits', 'listings'],
    assumptions=[SEEDED, 'key names contain neither separators nor equal signs'])
add('C18', 'distinct = (style of ranges, logical operator, types of the queried columns, mask, partitions selected, filter kind, lazy flag)',
    ['updates', 'tables', 'selections', 'nested_selections', 'loads', 'view_loads', 'empty_answers', 'reopened', 'changed', 'dropped', 'emptied_partitions', 'masked_queries', 'failed_updates', 'refused_queries'],
    assumptions=[IN_PROC, SEEDED, 'index columns are named differently from the partitioning keys', 'the index is updated for the partitions that changed before it is queried'])
add('C19', 'distinct = (successive operations, masked input) and (refusal, lazy flag)',
    ['operations', 'variables_compared', 'masked_compared', 'operands_checked', 'concatenations', 'deletions', 'deletions_beside_other_variables', 'empty_selections', 'additions',
     'compute', 'rechunk', 'persist', 'pickle', 'insertion', 'observed_dict', 'observed_xarray', 'observed_getitem', 'observed_collection', 'observed_zarr', 'expressions', 'refused'],
    assumptions=[SEEDED, 'fill values are not changed by the operations', 'xarray conversions: numeric, boolean and date variables whose missing values carry the declared fill value'])
add('C20', 'distinct = (type, rank, mask, origin) of an array, (expression, operand kind, order) and (dataset operation)',
    ['expressions', 'refused_expressions', 'masked_inputs', 'rechunked', 'indexed', 'two_operands', 'reductions', 'keywords', 'copies', 'modifications', 'in_place', 'masked_assignments',
     'lazy_expressions', 'mixed_concatenations', 'persisted', 'persisted_twice', 'computed', 'stored', 'dataset_operations'],
    assumptions=[SEEDED, 'arrays of numbers, booleans, dates and strings', 'the fill value designates the masked elements (a valid element equal to it is masked)'])
add('C21', 'distinct = (source and target file systems, filter kind, mode, fixed variables, number of partitions copied, batches)',
    ['contents_compared', 'fixed_compared', 'files_compared', 'independent_changes', 'refused_copies', 'completed_copies', 'changes_insert', 'changes_drop', 'changes_update'],
    assumptions=[IN_PROC, SEEDED, 'no other session modifies the source during the copy'])
add('C22', 'distinct = (kind of damage, whether a reader notices, file system)',
    ['damaged', 'unreadable', 'harmless_damage', 'validations', 'removed', 'loaded', 'reinserted'],
    assumptions=[IN_PROC, SEEDED, 'a chunk file that does not exist holds fill values (Zarr), it is not damage', 'damage is judged by reading every chunk with zarr, following the consolidated metadata'])
add('C23', 'distinct = (file system, time zone, filter kind, limit)',
    ['removals', 'dropped', 'kept_young', 'near_the_offset', 'fs_aged', 'fs_naive', 'fs_east', 'fs_memory', 'fs_real', 'fs_real_memory'],
    assumptions=[IN_PROC, SEEDED, 'creation times are those the file system reports (without time zone: UTC)', 'partition ages differ from the limit by more than the duration of the removal'])
add('C24', 'distinct = (access, kind of variable selection, lazy flag, filter kind, partition kind, axis name equal to its dimension, selection size, file system)',
    ['fixed_arrays_checked', 'stored_once', 'seen_load', 'seen_map', 'seen_map_overlap', 'seen_update', 'seen_overlap', 'selected_all', 'selected_fixed', 'selected_part',
     'selected_mixed', 'inserted_other_values', 'inserted_without_them', 'merges', 'emptied', 'drops', 'reopens', 'refused', 'views', 'scalars', 'schema_changes'],
    assumptions=[IN_PROC, SEEDED, 'the sizes of the other dimensions do not change'])
add('C25', 'distinct = (unit, relation, single instants, adjacent)',
    ['pairs', 'instants', 'empty_periods', 'mixed_units', 'open', 'within', 'duration'] + ['rel_' + n for n in (
        'AFTER', 'START_TOUCHING', 'START_INSIDE', 'INSIDE_START_TOUCHING', 'ENCLOSING_START_TOUCHING', 'ENCLOSING', 'ENCLOSING_END_TOUCHING', 'EXACT_MATCH', 'INSIDE',
        'INSIDE_END_TOUCHING', 'END_INSIDE', 'END_TOUCHING', 'BEFORE')],
    assumptions=[SEEDED, 'all relative positions of two periods over five instants are enumerated; where these instants lie is sampled'])
add('C26', 'distinct = (operation, kind of directory name, spelling of the path, file system, mutations seen)',
    ['operations', 'mutations_seen', 'verified', 'create', 'insert', 'merge', 'update', 'overlap', 'drop', 'addvar', 'dropvar', 'validate', 'reopen', 'fail', 'copy', 'view',
     'view-sync', 'view-add', 'view-update', 'view-load', 'index', 'index-update', 'index-load', 'load', 'map'],
    assumptions=[IN_PROC, SEEDED, 'on the memory file system only the resulting tree is watched, not each mutation', 'names with wildcards (* ? [) are left out: fsspec expands them'])
add('C27', 'distinct = (operation, kind of fault, mutated file class, error reported or absorbed)',
    ['faults_fired', 'error_reported', 'user_faults', 'lasting_faults', 'torn_writes', 'retries', 'loads', 'drop_effective'], level='fault_enumeration',
    assumptions=[IN_PROC, SEEDED, 'local file system; the injected I/O error replaces the system call (it has no partial effect)',
                 'a fault that is not reported to the caller must have had no effect on the result'])
