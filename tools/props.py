"""The properties (source of properties.jsonl and of MANIFEST.json)."""

NOTES = (
    'No hook is compiled into the subject: the checks interpose on the '
    'published interfaces it is built on (an fsspec filesystem, the dask '
    'client, the Sync class, the os/shutil calls of the local filesystem). '
    'Every check runs the code of /repo as it is in the working tree.')

IMPL = ('explicit-state exploration of the implementation: ')

PROPS = [
    dict(
        id='C01',
        title='What was inserted is what is read back',
        statement=
        'After any sequence of insertions into a collection, loading it gives '
        'back, bit for bit and in the order of the partitions, exactly the '
        'records that the sequence leaves: an insertion replaces the records '
        'of the partitions it covers, or, with a time-series merge, the '
        'records of the period it covers. Missing values, masks, types, '
        'attributes and dimensions survive, whether arrays are lazy or in '
        'memory and however they are chunked, and whatever subset of '
        'variables or of records is asked for.',
        over=['histories', 'inputs', 'configurations'],
        forall='all sequences of insertions and all ways of reading them back',
        why='a test inserts one dataset or two; the interaction of the '
        'partition boundaries, chunk boundaries, merge strategy, laziness and '
        'history has too many combinations to be sampled by hand',
        files=['zcollection/collection/__init__.py',
               'zcollection/collection/abc.py',
               'zcollection/collection/detail.py',
               'zcollection/storage.py', 'zcollection/merging/__init__.py'],
        mechanism=[('insertion', 'Collection.insert, detail._insert'),
                   ('loading', 'ReadOnlyCollection.load'),
                   ('writing and reading of a partition',
                    'storage.write_zarr_group, storage.open_zarr_group')],
        observe=['ReadOnlyCollection.load', 'files of the partitions'],
        technique=IMPL + 'all insertion histories up to a depth over small '
        'datasets, compared with a reference model after each step',
        note='every history of the bounds is run on the real code; the pool '
        'is simulated in-process and a slice of the space is replayed on a '
        'real dask cluster',
    ),
    dict(
        id='C02',
        title='Splitting assigns every record to exactly one, right partition',
        statement=
        'Splitting a dataset yields, for every record, exactly one partition, '
        'the one whose keys are the value of the partitioning variables for '
        'that record, as contiguous slices in the order of the axis. A '
        'dataset whose keys are not monotonic is refused and leaves the '
        'collection untouched; no record is lost, duplicated or filed under '
        'another key.',
        over=['inputs'],
        forall='all key sequences of bounded length over values around every '
        'calendar rollover, all resolutions, chunkings and data types',
        why='a wrong boundary only shows with particular combinations of '
        'values, chunk limits and resolutions',
        files=['zcollection/partitioning/abc.py',
               'zcollection/partitioning/date.py',
               'zcollection/partitioning/sequence.py'],
        mechanism=[('splitting', 'Partitioning.split_dataset, index_dask'),
                   ('keys of a record', 'Date._split, Sequence._split')],
        observe=['Partitioning.split_dataset', 'Collection.insert'],
        technique=IMPL + 'all key sequences up to a length over boundary '
        'alphabets, compared with a reference computed record by record',
        note='exhaustive within the bounds',
    ),
    dict(
        id='C03',
        title='Partition names round-trip and list in order',
        statement=
        'The directory of a partition and its keys determine each other '
        'exactly, whatever the name of the collection directory. Listing a '
        'collection yields each existing partition once, in the chronological '
        'or numerical order of the keys, and nothing else, whatever files lie '
        'beside.',
        over=['inputs', 'configurations'],
        forall='all keys of bounded ranges around digit and calendar '
        'boundaries, all partitionings, all collection paths of a family of '
        'adversarial names, all sets of present partitions',
        why='orders and names break at boundaries (9 to 10, year 9999 to '
        '10000, names that look like keys) that examples miss',
        files=['zcollection/partitioning/abc.py',
               'zcollection/partitioning/date.py',
               'zcollection/partitioning/sequence.py',
               'zcollection/collection/abc.py'],
        mechanism=[('names', 'Partitioning.parse, join, encode, decode'),
                   ('listing', 'Partitioning.list_partitions')],
        observe=['ReadOnlyCollection.partitions', 'Partitioning.parse'],
        technique=IMPL + 'all bounded keys, all subsets of partitions, '
        'adversarial directory names, against set semantics',
        note='exhaustive within the bounds',
    ),
    dict(
        id='C04',
        title='Time-series merge keeps exactly the right records',
        statement=
        'Merging a dataset into an existing one along the axis yields the '
        'inserted records plus exactly the existing records outside the '
        'period they cover, sorted, with every variable carried along. With a '
        'tolerance, existing records inside the period that have no inserted '
        'record within the tolerance are kept as well.',
        over=['inputs'],
        forall='all pairs of (existing, inserted) sets of instants of a '
        'bounded grid, several tolerances and units',
        why='the relative positions of two periods and the off-by-one at each '
        'end make dozens of cases, of which tests cover a few',
        files=['zcollection/merging/time_series.py',
               'zcollection/merging/__init__.py'],
        mechanism=[('merge', 'merge_time_series')],
        observe=['merge_time_series', 'Collection.insert'],
        technique=IMPL + 'all pairs of subsets of a grid of instants, all '
        'tolerances, against a set-theoretic reference',
        note='exhaustive within the bounds',
    ),
    dict(
        id='C05',
        title='Operations act on exactly the partitions selected by a filter',
        statement=
        'A filter, written as an expression or as a function, selects exactly '
        'the partitions whose keys satisfy it. Every operation that takes a '
        'filter (listing, loading, mapping, updating, dropping, copying, '
        'validating, and those of views) reads or changes exactly these '
        'partitions and leaves every other one as it was.',
        over=['inputs', 'programs'],
        forall='all subsets of the partitions for every operation, all '
        'expressions of a bounded grammar',
        why='a filter that selects nothing, everything, or a subset with a '
        'hole exercises paths that the usual examples do not',
        files=['zcollection/collection/__init__.py',
               'zcollection/collection/abc.py', 'zcollection/expression.py',
               'zcollection/view/__init__.py'],
        mechanism=[('selection', 'ReadOnlyCollection.partitions'),
                   ('expressions', 'Expression')],
        observe=['every public operation with a filters argument'],
        technique=IMPL + 'operations x all subsets of partitions x forms of '
        'filter, and all expressions of a bounded grammar, against a reference',
        note='exhaustive within the bounds',
    ),
    dict(
        id='C06',
        title='An update writes what the function returns, and only that',
        statement=
        'Updating a collection with a function replaces, in every selected '
        'partition, exactly the variables returned by the function, by the '
        'values it returns for the records of that partition; every other '
        'variable, partition and record keeps its value. With an overlap, the '
        'function sees the records of the partition preceded and followed by '
        'those of the selected neighbours within the depth, and exactly the '
        'records of the partition are stored. The arguments of the caller are '
        'not modified.',
        over=['inputs', 'configurations'],
        forall='all subsets of the partitions, depths, kinds of functions, '
        'laziness, selections of variables and batch sizes',
        why='the trimming of the overlap and the placement of chunks depend '
        'on sizes of neighbours, first and last partitions and dimensions '
        'order that examples cover once',
        files=['zcollection/collection/__init__.py',
               'zcollection/collection/detail.py',
               'zcollection/collection/callable_objects.py',
               'zcollection/storage.py'],
        mechanism=[('update', 'Collection.update, detail._wrap_update_func, '
                    '_wrap_update_func_with_overlap'),
                   ('storage', 'storage.update_zarr_array')],
        observe=['Collection.update', 'ReadOnlyCollection.load'],
        technique=IMPL + 'all subsets of partitions x depths x functions, '
        'against a reference computed on rows',
        note='exhaustive within the bounds; a slice is replayed on a real '
        'dask cluster',
    ),
    dict(
        id='C07',
        title='Mapping calls the function once per partition on the right data',
        statement=
        'Mapping a function over a collection calls it exactly once for each '
        'selected partition, in the order of the partitions, with the '
        'selected variables of that partition, and returns the result of each '
        'call with the keys of its partition. With an overlap, the dataset '
        'given to the function also holds the neighbouring selected '
        'partitions within the depth, and the slice that is announced '
        'designates the records of the partition itself.',
        over=['inputs', 'configurations'],
        forall='all subsets of the partitions, depths, batch sizes, laziness '
        'and selections of variables',
        why='neighbour windows at the ends of a selection with holes are not '
        'sampled by tests',
        files=['zcollection/collection/abc.py',
               'zcollection/collection/detail.py',
               'zcollection/collection/callable_objects.py'],
        mechanism=[('map', 'ReadOnlyCollection.map, map_overlap'),
                   ('window', 'detail._load_dataset_with_overlap, '
                    '_select_overlap')],
        observe=['ReadOnlyCollection.map', 'ReadOnlyCollection.map_overlap'],
        technique=IMPL + 'all subsets of partitions x depths x batching, '
        'against a reference computed on rows',
        note='exhaustive within the bounds; a slice is replayed on a real '
        'dask cluster',
    ),
    dict(
        id='C08',
        title='The schema and every partition always agree',
        statement=
        'After any sequence of insertions, updates, additions and removals of '
        'variables or partitions, and reopenings, every partition holds '
        'exactly the variables of the schema, with the type, dimensions, '
        'attributes, fill value, compression and chunks it declares. An added '
        'variable holds its fill value wherever nothing was written, and '
        'every process that opens the collection afterwards sees the same '
        'schema and the same partitions. A refused change leaves everything '
        'as it was.',
        over=['histories', 'programs'],
        forall='all sequences of operations up to a depth, on a filesystem '
        'with and without cached listings, with local and remote workers',
        why='tests add one variable to one collection; the agreement must '
        'hold after every history',
        files=['zcollection/collection/__init__.py', 'zcollection/storage.py',
               'zcollection/meta.py', 'zcollection/dataset.py'],
        mechanism=[('schema', 'Collection.add_variable, drop_variable, '
                    '_write_config'),
                   ('partitions', 'storage.add_zarr_array, del_zarr_array')],
        observe=['Collection.metadata', 'files of the partitions',
                 'open_collection'],
        technique=IMPL + 'all operation sequences up to a depth against a '
        'reference model of schema and content',
        note='exhaustive within the bounds',
    ),
    dict(
        id='C09',
        title='A failed operation damages nothing and can be repeated',
        statement=
        'When the storage reports an error at any point of an operation, or '
        'the function of the user raises, the error reaches the caller and '
        'every partition holds its previous or its new content, complete; '
        'partitions out of the scope of the operation, and the variables an '
        'update does not write, are intact. The schema in memory and the '
        'stored one still agree, an addition of a variable is cancelled. '
        'Repeating the operation gives the result it would have given at '
        'first, and leaves no visible temporary file.',
        over=['fault_sequences'],
        forall='every primitive storage step of every operation failing once, '
        'or from that step on',
        why='no test makes the storage fail; the points of failure are '
        'hundreds',
        files=['zcollection/collection/__init__.py',
               'zcollection/collection/detail.py',
               'zcollection/merging/__init__.py', 'zcollection/storage.py',
               'zcollection/fs_utils.py'],
        mechanism=[('replacement of a partition', 'merging._update_fs, '
                    '_rename'), ('creation of a partition',
                                 'detail._insert'),
                   ('rollback', 'Collection.add_variable')],
        observe=['content of the partitions', 'exceptions raised'],
        technique='exhaustive fault injection on the implementation: each '
        'primitive storage step of each operation fails in turn',
        note='all single faults of the operations of the bounds, on a model '
        'object store and on the local filesystem',
    ),
    dict(
        id='C10',
        title='A crash at any point loses nothing but the unfinished work',
        statement=
        'When the process dies at any point of an operation, the collection '
        'can be opened again, and every partition out of the scope of the '
        'operation is intact. Each partition the operation was writing holds '
        'its previous content, its new content or, where validate_partitions '
        'reports it, an unfinished one, and no half-written partition passes '
        'for a complete one. Repeating the operation completes it.',
        over=['crash_points', 'fault_sequences'],
        forall='every primitive storage step of every operation being the '
        'last one, written entirely or torn',
        why='no test kills the process; the crash points are hundreds and '
        'include half-written files',
        files=['zcollection/collection/__init__.py',
               'zcollection/collection/detail.py',
               'zcollection/merging/__init__.py', 'zcollection/storage.py',
               'zcollection/fs_utils.py'],
        mechanism=[('replacement of a partition', 'merging._update_fs'),
                   ('creation of a partition',
                    'detail._insert, storage._write_meta'),
                   ('configuration', 'Collection._write_config'),
                   ('validation', 'storage.check_zarr_group')],
        observe=['content of the partitions', 'validate_partitions',
                 'open_collection'],
        technique='exhaustive crash-point exploration of the implementation: '
        'the process stops at each primitive storage step of each operation, '
        'the last write being complete or torn',
        note='all the crash points of the operations of the bounds, on a '
        'model object store and on the local filesystem',
    ),
    dict(
        id='C11',
        title='Clients sharing a synchronizer never interleave on a partition',
        statement=
        'When several clients share a synchronizer, the files of a partition '
        'are only written while the client that writes them holds the lock, '
        'and each partition ends as if the operations had been done one after '
        'the other. When a task of an operation fails, the lock is kept until '
        'all its other tasks have stopped, then released, and the error '
        'reaches the caller. No schedule of the clients and of their workers '
        'blocks for ever.',
        over=['schedules', 'fault_sequences'],
        forall='all schedules of two clients and their worker threads up to a '
        'number of delays, for every pair of operations; every failing '
        'storage step combined with the schedules of the remaining tasks',
        why='tests run one client at a time under one schedule',
        files=['zcollection/storage.py', 'zcollection/collection/__init__.py',
               'zcollection/collection/detail.py',
               'zcollection/merging/__init__.py'],
        mechanism=[('critical section', 'storage.execute_transaction'),
                   ('operations', 'Collection.insert, update, '
                    'drop_partitions, add_variable, drop_variable, '
                    'validate_partitions')],
        observe=['files written', 'content of the partitions'],
        technique='stateless model checking of the implementation: '
        'delay-bounded exploration of the client and worker threads under a '
        'controlled scheduler',
        note='exhaustive up to the stated number of delays',
    ),
    dict(
        id='C12',
        title='The result never depends on how the workers are scheduled',
        statement=
        'Whatever the order and the interleaving in which the workers run the '
        'tasks of an operation (insert, load, map, map_overlap, update, '
        'drop_partitions, add_variable, copy, validation, views), the '
        'operation ends with the same stored files and the same result. '
        'Order-dependent results, lost updates, and errors that only some '
        'schedules meet are excluded.',
        over=['schedules'],
        forall='all interleavings of the tasks at every access to the '
        'storage, up to a number of delays',
        why='a test runs one schedule, chosen by the machine',
        files=['zcollection/collection/__init__.py',
               'zcollection/collection/detail.py', 'zcollection/dask_utils.py',
               'zcollection/storage.py', 'zcollection/merging/__init__.py',
               'zcollection/fs_utils.py', 'zcollection/view/__init__.py',
               'zcollection/view/detail.py'],
        mechanism=[('insertion', 'Collection.insert, detail._insert, '
                    'detail._insert_with_merge'),
                   ('gathering', 'Collection.load, map, map_overlap'),
                   ('update', 'Collection.update, '
                    'detail._wrap_update_func_overlap')],
        observe=['files stored', 'results', 'errors'],
        technique='stateless model checking of the implementation: '
        'delay-bounded exploration of the worker threads of one operation '
        'under a controlled scheduler, every storage access being a '
        'scheduling point',
        note='exhaustive up to the stated number of delays',
    ),
    dict(
        id='C13',
        title='A view shows its reference beside its own variables',
        statement=
        'Loading, mapping or updating a view, with any filter, indexer, '
        'selection of variables or overlap depth, gives for every selected '
        'partition the current values of the reference collection beside the '
        'values last written to the variables of the view, and fill values '
        'where nothing was written. Operations on a view change only the '
        'variables of the view they name, in the selected partitions, never '
        'a file of the reference, and refuse the variables of the reference. '
        'A view opened by another process shows the same.',
        over=['histories', 'inputs'],
        forall='every sequence of operations on a view up to a depth; every '
        'subset of its partitions x way of reading it',
        why='tests use one view with one partition and one sequence',
        files=['zcollection/view/__init__.py', 'zcollection/view/detail.py'],
        mechanism=[('merged datasets', 'view.detail._load_one_dataset'),
                   ('overlap', 'view.detail._select_overlap'),
                   ('variables', 'View.add_variable, View.drop_variable, '
                    'View.update')],
        observe=['View.load', 'View.map', 'View.map_overlap', 'View.update',
                 'files of the reference'],
        technique='explicit-state exploration of the implementation: every '
        'operation sequence up to the depth, compared with a reference model '
        'of the view after each step',
        note='exhaustive for the partitions, variables and depths of the '
        'bounds',
    ),
    dict(
        id='C14',
        title='A synchronized view follows every change of its reference',
        statement=
        'is_synced tells exactly whether the axis of some partition the view '
        'is about differs from what the view was built on. sync brings every '
        'such partition up to date: values are kept when the reference was '
        'only extended and reset to the fill value when its axis changed, '
        'partitions newly selected are created with all the variables, and '
        'the others are untouched. The filter it returns selects the '
        'partitions that changed.',
        over=['histories'],
        forall='every sequence of changes of the reference, of the view and '
        'of synchronizations up to a depth',
        why='tests follow one or two histories out of thousands',
        files=['zcollection/view/__init__.py', 'zcollection/view/detail.py',
               'zcollection/storage.py'],
        mechanism=[('checksums', 'view.detail._calculate_axis_reference, '
                    '_write_checksum'),
                   ('synchronization', 'view.detail._sync, View.sync, '
                    'View.is_synced')],
        observe=['View.sync', 'View.is_synced', 'View.load'],
        technique='explicit-state exploration of the implementation: every '
        'history up to the depth, compared with a reference model of the '
        'collection and of the view after each step',
        note='exhaustive for the partitions, records and depths of the bounds',
    ),
    dict(
        id='C15',
        title='A query of an index selects exactly the matching records',
        statement=
        'Whatever the entries of the index (adjacent, disjoint, overlapping '
        'or nested, in any number of partitions), a query on any columns, '
        'with any logical operator and with or without a mask, returns for '
        'every partition slices that cover exactly the records of the '
        'matching entries, each once and in order, and loading the collection '
        'with them gives those records. After any sequence of insertions, '
        'removals and updates of the index, the entries of a partition are '
        'those computed from its current content, and an index opened again '
        'is the same.',
        over=['inputs', 'histories'],
        forall='all label sequences and entry tables of bounded length, all '
        'queries over the columns and operators, all histories up to a depth',
        why='tests query one index built once from half orbits',
        files=['zcollection/indexing/abc.py', 'zcollection/collection/abc.py'],
        mechanism=[('queries', 'Indexer.query'),
                   ('updates', 'Indexer.update, Indexer._update'),
                   ('records selected', 'Collection.load(indexer)')],
        observe=['Indexer.query', 'Indexer.table', 'Collection.load'],
        technique=IMPL + 'all tables of entries, queries and histories of the '
        'bounds, compared with sets of record numbers',
        note='exhaustive for the labels, entries and depths of the bounds',
    ),
    dict(
        id='C16',
        title='A collection keeps the schema it was created with',
        statement=
        'For every data type, fill value, compressor, filters, attributes, '
        'dimensions, chunk sizes, axis and partitioning, a collection opened '
        'again has the same description as when it was created, the arrays '
        'it stores follow it, and loading gives the values, types and '
        'attributes declared; a variable missing from an inserted dataset '
        'holds its fill value. With validation, a dataset with other metadata '
        'is refused; so is a creation over an existing directory or with an '
        'unusable description. What is refused leaves the storage untouched.',
        over=['configurations', 'inputs'],
        forall='the product of data types, fill values and codecs, and the '
        'product of partitionings, axes, chunks, limits and attributes of the '
        'bounds',
        why='a value that does not survive its textual encoding only shows '
        'with that type and that value',
        files=['zcollection/meta.py', 'zcollection/collection/__init__.py',
               'zcollection/collection/abc.py',
               'zcollection/convenience/collection.py',
               'zcollection/storage.py', 'zcollection/dataset.py',
               'zcollection/partitioning/registry.py'],
        mechanism=[('encoding', 'meta.Variable.get_config, from_config'),
                   ('configuration', 'Collection._write_config, from_config'),
                   ('arrays', 'storage.write_zarr_variable')],
        observe=['open_collection', 'Collection.metadata', 'files of the '
                 'partitions', 'Collection.load'],
        technique=IMPL + 'every schema of the bounds is created, opened, '
        'filled and read',
        note='exhaustive for the listed types, values, codecs and settings',
    ),
    dict(
        id='C17',
        title='A copy holds what was selected and lives its own life',
        statement=
        'Collection.copy leaves the source as it was and gives a collection '
        'with the same description that holds exactly the selected '
        'partitions with the same content, immutable variables included, '
        'whatever the filesystems, the grouping and the mode. Later '
        'operations on one never change the other and have the same effect '
        'on both. A step of the storage that fails is reported or has no '
        'effect on the copy; a partition that the target already holds is '
        'refused and left intact.',
        over=['inputs', 'configurations', 'histories', 'fault_sequences'],
        forall='every subset of partitions, state of the source, pair of '
        'filesystems and grouping; every sequence of operations up to the '
        'depth; every failing step',
        why='tests copy two collections in full once and compare one '
        'variable',
        files=['zcollection/collection/__init__.py',
               'zcollection/fs_utils.py'],
        mechanism=[('copy', 'Collection.copy'),
                   ('walk', 'fs_utils.copy_tree, fs_utils.fs_walk')],
        observe=['files of both', 'Collection.load', 'Collection.partitions',
                 'Collection.metadata'],
        technique=IMPL + 'every combination of the bounds, every sequence of '
        'operations and every failing step of the storage',
        note='exhaustive for the states, subsets, pairs and depth of the '
        'bounds',
    ),
    dict(
        id='C18',
        title='Reading modifies nothing, and read-only means read-only',
        statement=
        'No operation that reads (listing, loading, mapping, validating, '
        'copying, describing, or using a view of the collection) modifies a '
        'file of the collection, in any mode, even when the function it is '
        'given or the caller modifies the loaded data, and it gives the same '
        'result whatever was read before. A collection opened in read-only '
        'mode (the default), or a copy of it sent to another process, refuses '
        'every operation that would modify it, even to repair it. Opening '
        'what does not exist creates nothing.',
        over=['histories', 'configurations'],
        forall='every sequence of operations up to a depth, in every mode, on '
        'sound, empty, damaged and unfinished collections',
        why='tests try each forbidden operation once on one sound collection '
        'and never watch what reading does to the files',
        files=['zcollection/collection/__init__.py',
               'zcollection/collection/abc.py',
               'zcollection/convenience/collection.py'],
        mechanism=[('refusals', 'Collection._read_only_mode, '
                    'validate_partitions'),
                   ('reading', 'ReadOnlyCollection.load, map, map_overlap, '
                    'partitions, variables, iterate_on_records'),
                   ('copy', 'Collection.copy')],
        observe=['files of the collection', 'results of the operations'],
        technique=IMPL + 'every sequence of operations up to the depth, on a '
        'filesystem that reports every step that modifies it',
        note='exhaustive for the operations, states and depths of the bounds',
    ),
    dict(
        id='C19',
        title='Dataset operations compute the same on plain and delayed data',
        statement=
        'Any sequence of operations on a dataset (selection by position or by '
        'name or dimension, deletion, concatenation, merge, renaming, adding '
        'variables, computing, rechunking, persisting, pickling, conversion '
        'to xarray) gives the values, masks, dimensions, attributes and '
        'metadata that the same operations give on plain arrays, whether the '
        'data are in memory or delayed and however they are chunked. The '
        'operations that return a dataset do not modify the one they start '
        'from, and one that is refused changes nothing.',
        over=['histories', 'inputs', 'configurations'],
        forall='every sequence of operations up to a depth, for several '
        'chunkings',
        why='tests apply one operation to one dataset',
        files=['zcollection/dataset.py', 'zcollection/variable/abc.py',
               'zcollection/variable/array.py',
               'zcollection/variable/delayed_array.py',
               'zcollection/meta.py'],
        mechanism=[('datasets', 'dataset.Dataset'),
                   ('variables', 'variable.Array, variable.DelayedArray')],
        observe=['Dataset methods', 'Variable.values, data, array'],
        technique=IMPL + 'every operation sequence up to the depth, compared '
        'with a reference made of plain numpy arrays',
        note='exhaustive for the operations, arguments, chunkings and depths '
        'of the bounds',
    ),
    dict(
        id='C20',
        title='Housekeeping removes exactly the right partitions',
        statement=
        'drop_partitions removes exactly the selected partitions that were '
        'created longer ago than the delay, whatever the time zone, and '
        'returns them in order. validate_partitions reports exactly the '
        'selected partitions that cannot be read, and with fix removes them '
        'and only them. All the other files are left as they were, every '
        'client sees the result at once, what remains can be read, and what '
        'was removed can be inserted again.',
        over=['inputs', 'configurations', 'fault_sequences'],
        forall='every subset of partitions, age, delay and time zone; every '
        'damage of every file of a partition',
        why='tests drop by one filter and damage one file; a wrong choice '
        'destroys data',
        files=['zcollection/collection/__init__.py', 'zcollection/storage.py'],
        mechanism=[('removal', 'Collection.drop_partitions'),
                   ('validation', 'Collection.validate_partitions, '
                    'storage.check_zarr_group')],
        observe=['partitions left', 'files left', 'Collection.load'],
        technique=IMPL + 'every combination of the bounds, compared with what '
        'can be read before and after',
        note='exhaustive for the ages, delays, zones, files and damages of '
        'the bounds',
    ),
    dict(
        id='C21',
        title='A period of time behaves as the set of its instants',
        statement=
        'A Period holds the instants from its beginning to its end: its '
        'bounds, its length, contains, is_before, is_after, is_adjacent, '
        'intersects, intersection, merge, span, shift, expand and the '
        'comparisons give what sets of instants give, and the relation '
        'between two periods is the one that its definition says. This '
        'holds for every unit of time, before and after the epoch, however '
        'the period was made, and no operation but shift and expand '
        'modifies a period.',
        over=['inputs'],
        forall='every pair of periods and every instant, for every unit',
        why='tests use three periods; the boundaries decide which records a '
        'merge keeps',
        files=['zcollection/merging/period.py'],
        mechanism=[('periods', 'Period'), ('relations', 'PeriodRelation')],
        observe=['results of the methods of Period'],
        technique=IMPL + 'every pair of periods over a grid of instants, '
        'against sets of instants',
        note='exhaustive for the grid of the bounds',
    ),
    dict(
        id='C22',
        title='Variables outside the partitioning are stored once and kept',
        statement=
        'The variables that do not depend on the partitioning dimension keep '
        'the values of the first insertion whatever is inserted, updated, '
        'dropped or copied afterwards. They are given, unsplit, with every '
        'load and to every function mapped on or updating the partitions, '
        'with or without overlap or indexer, when they are selected. An '
        'interruption of the insertion that stores them does not prevent the '
        'next one from storing them.',
        over=['histories', 'crash_points', 'fault_sequences'],
        forall='every sequence of operations up to a depth x way of reading; '
        'every step of the first insertion interrupted',
        why='tests insert once and load once',
        files=['zcollection/collection/__init__.py',
               'zcollection/collection/abc.py',
               'zcollection/collection/detail.py'],
        mechanism=[('storage', '_write_immutable_dataset'),
                   ('loading', 'detail._load_dataset, '
                    '_load_dataset_with_overlap')],
        observe=['Collection.load', 'Collection.map', 'Collection.map_overlap',
                 'Collection.update'],
        technique=IMPL + 'every operation sequence up to the depth compared '
        'with a reference model, and every crash or error point of the first '
        'insertion',
        note='exhaustive for the operations and depths of the bounds',
    ),
    dict(
        id='C23',
        title='The lock of a collection excludes the other processes',
        statement=
        'At most one process at a time is inside a ProcessSync of a given '
        'path, whether the processes made it from the path or received a '
        'copy of it. Leaving the block, normally or with an exception (which '
        'is not hidden), or the death of the process frees the lock, and a '
        'process that waits then gets it. is_locked is true while a process '
        'is inside, false before the first use.',
        over=['schedules', 'histories', 'crash_points'],
        forall='every interleaving of enter, exit, exception, death and '
        'attempts of up to three processes up to the depth',
        why='the tests never take the lock; everything that C11 says '
        'relies on it',
        files=['zcollection/sync.py'],
        mechanism=[('lock', 'ProcessSync.__enter__, __exit__'),
                   ('copy', 'ProcessSync.__reduce__')],
        observe=['which process is inside', 'ProcessSync.is_locked'],
        technique=IMPL + 'every sequence of operations of real processes on '
        'a real file, against the model of a mutex',
        note='exhaustive for the processes, set-ups and depth of the bounds',
    ),
    dict(
        id='C24',
        title='A failure or a crash never leaves a view beyond repair',
        statement=
        'When the storage fails, or the process dies, at any point of an '
        'operation of a view (creation, addition, deletion or update of a '
        'variable, synchronization), the reference is intact, the error '
        'reaches the caller, an addition is cancelled, and what the view '
        'holds outside the scope of the operation is intact. The view can be '
        'opened again, the variables in memory and the stored ones agree, '
        'and repeating the operation, or synchronizing, completes it. The '
        'view then follows its reference as if nothing had happened.',
        over=['fault_sequences', 'crash_points'],
        forall='every primitive storage step of every operation of a view '
        'failing, or being the last one, written entirely or torn',
        why='no test makes the storage fail; a view stores a record of what '
        'it has seen, and an incomplete one is found again by every later '
        'synchronization',
        files=['zcollection/view/__init__.py', 'zcollection/view/detail.py',
               'zcollection/fs_utils.py'],
        mechanism=[('checksum', 'detail._write_checksum_array, '
                    '_load_checksum_array'),
                   ('synchronization', 'detail._sync, _sync_partition, '
                    '_extend_partition'),
                   ('rollback', 'View.add_variable')],
        observe=['View.load', 'View.is_synced', 'View.metadata',
                 'files of the reference'],
        technique='exhaustive fault injection and crash-point exploration of '
        'the implementation: each primitive storage step of each operation '
        'fails, or is the last one',
        note='all single faults and crash points of the operations of the '
        'bounds, on a model object store and on the local filesystem',
    ),
]
