#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None, **({'state': state} if state else {}))))

p('C01', 'I/O errors are never swallowed',
  'Whenever a public operation that reads, writes, opens or maps a file or stream has an underlying I/O call fail, that operation returns the error to its caller or panics; it never reports success and never silently carries on with partial data.',
  ['fault_sequences'], 'Every I/O call issued by any public operation (Rust API, parsing helpers, Python bindings) failing at any point.',
  'The tests only use healthy temporary files, so no write, seek, open or read ever fails in them.',
  ['src/index/io.rs', 'src/index/rw/mod.rs', 'src/io.rs', 'src/slice_vector/mod.rs', 'src/slice_vector/offsets.rs', 'src/slice_vector/set_vector.rs', 'src/elements/embeddings/parsing.rs', 'src/elements/embeddings/mod.rs', 'py/src/lib.rs', 'py/src/embeddings.rs', 'py/src/variants/mod.rs'],
  [('every Result carrying an I/O error is propagated with ?, returned or unwrapped', 'all writers, readers and openers')], ['returned Result of write_index, write_elements, write, from_file, save_*'])
p('C02', 'Buffered output is flushed, and a flush error reported, before success',
  'When an operation that writes an index, elements or embeddings reports success, every byte it produced has been accepted by the destination it was given: bytes still sitting in an internal buffer are pushed out first, and a failure to push them out makes the operation fail.',
  ['fault_sequences'], 'Every destination that starts failing at any byte, for every public operation that wraps the destination in a buffer.',
  'A failing flush in a destructor is invisible unless the destination fails exactly while the last buffer is drained, which no test arranges.',
  ['src/index/io.rs', 'src/index/rw/mod.rs', 'src/elements/embeddings/parsing.rs'],
  [('explicit flush of the buffering writer after the last write', 'write_index, RwGranneBuilder::write, parsing save functions')], ['Result of write_index / write / save_index_and_elements_to_disk'])
p('C03', 'Reported byte counts equal the bytes actually written',
  'Every public write operation that reports a number of bytes reports exactly the number of bytes it appended to the destination, and the layer sizes recorded in a saved index are exactly the sizes of the layers that follow.',
  ['inputs'], 'All contents, lengths (including empty), widths, ranges and element types.',
  'Tests ignore the returned counts; only round trips of some sizes are sampled.',
  ['src/io.rs', 'src/slice_vector/mod.rs', 'src/slice_vector/offsets.rs', 'src/slice_vector/set_vector.rs', 'src/index/io.rs', 'src/elements/embeddings/mod.rs', 'src/elements/dense_vector.rs'],
  [('byte counters accumulated beside each write; stream positions subtracted', 'write, write_range, write_as_multi_set_vector, write_as_variable_width_slice_vector')], ['returned usize', 'layer_sizes in the index header'])
p('C04', 'Saved index layout: fixed-size header, then contiguous layers, loaded alike',
  'Saving an index starts at the position where the destination stream was handed over: it leaves a header of fixed size there, writes the layers contiguously in order directly behind it, and writes the header itself last, with all of it inside the reserved space; loading starts the first layer right behind the same fixed-size header and each next layer where the previous one ended.',
  ['inputs', 'configurations', 'crash_points'], 'Any number of layers, any layer contents, any initial stream position, interruption at any write.',
  'Tests always write at position 0 of an empty file and with a handful of layers.',
  ['src/index/io.rs', 'src/slice_vector/set_vector.rs'],
  [('seek past the header, write layers, seek back, write header', 'write_index'), ('start = header length; start += size', 'load_layers')], ['bytes of a saved index'])
p('C05', 'Every header field loading relies on is written by saving, and is checked',
  'Every header entry that loading an index depends on is produced by saving under the same name and with a compatible type, and loading rejects data that does not begin with the library marker that saving writes.',
  ['inputs', 'histories'], 'All saved indexes; all byte strings that are not indexes.',
  'Round-trip tests on a few indexes do not enumerate fields, and none feeds foreign data.',
  ['src/index/io.rs'], [('JSON header keys and magic string', 'write_index / read_layer_sizes')], ['Granne::from_bytes, Granne::from_file'])
p('C06', 'Loading works from byte buffers at any memory address',
  'Loading vectors, elements, embeddings or an index from bytes, and reading them afterwards, never performs a misaligned or out-of-bounds typed access, whatever address the supplied buffer or the part of it holding the data happens to have.',
  ['inputs'], 'All buffer addresses and lengths, all layer sizes, all element types stored.',
  'Allocation addresses in tests are whatever the allocator returns, and most layer sizes are accidentally aligned.',
  ['src/io.rs', 'src/slice_vector/mod.rs', 'src/slice_vector/offsets.rs', 'src/odd_byte_int.rs'],
  [('byte-to-typed reinterpretation', 'io::load_bytes_as and its callers'), ('byte-aligned stored types', 'Chunk, ThreeByteInt, FiveByteInt')], ['from_bytes, from_file, search on a loaded index'])
p('C07', 'Safe API never bypasses bounds checks',
  'No call sequence through the safe public API can read or write memory outside the buffers it was given or owns: every element, neighbour and vector access made on behalf of safe code is bounds-checked, including inside vectorised and BLAS-backed arithmetic on vectors of different lengths.',
  ['inputs', 'programs', 'configurations'], 'All ids, lengths, vector dimensions, malformed files, and all feature configurations.',
  'A test that stays inside bounds says nothing about an unchecked access outside them.',
  ['src/io.rs', 'src/math.rs', 'src/slice_vector/mod.rs', 'src/slice_vector/offsets.rs', 'src/index/rw/rw_lock_slice_vector.rs', 'src/index/rw/mod.rs', 'src/elements/dense_vector.rs'],
  [('closed set of unsafe operations, each guarded', 'load_bytes_as, write_as_bytes, math kernels, RwLockSliceVector')], ['any safe public function'])
p('C08', 'Memory-mapped data is only exposed through unsafe constructors',
  'No safe public function of the library hands out a value that still reads from a memory-mapped file; every constructor that does so is an unsafe function, and the library never creates a writable mapping.',
  ['programs'], 'All programs that use the library without writing unsafe.',
  'Tests cannot observe what other programs the API admits.',
  ['src/index/mod.rs', 'src/slice_vector/mod.rs', 'src/slice_vector/offsets.rs', 'src/slice_vector/set_vector.rs', 'src/elements/dense_vector.rs', 'src/elements/embeddings/mod.rs', 'src/elements/embeddings/parsing.rs'],
  [('unsafe fn from_file / from_files', 'index, vectors, embeddings'), ('GranneBuilder::from_file copies the layers out of the mapping', 'src/index/mod.rs')], ['public signatures'])
p('C09', 'Vectorised code runs only on processors that support it',
  'Arithmetic that was compiled for optional processor features is executed only after a run-time check that the processor has every one of those features; otherwise the portable code runs.',
  ['configurations', 'inputs'], 'All processors, with any subset of the optional features.',
  'Tests run on one machine that has all of the features.',
  ['src/math.rs'], [('is_x86_feature_detected! before each target_feature function', 'dot_product_f32, dot_product_and_squared_norms_i8, sum_into_f32, normalize_f32')], ['distance and normalisation results'])
p('C10', 'Ids, counts and offsets are never silently truncated',
  'When an element id, embedding id, neighbour id, neighbour count or stored offset does not fit the width it is stored in, the operation panics or fails instead of storing a truncated value; this includes adding elements beyond the number of ids an index can represent.',
  ['inputs', 'histories'], 'All ids, counts and offsets up to the full range of machine integers.',
  'Reaching the limits takes billions of elements or gigabytes of data.',
  ['src/odd_byte_int.rs', 'src/slice_vector/offsets.rs', 'src/slice_vector/set_vector.rs', 'src/slice_vector/mod.rs', 'src/index/mod.rs', 'src/index/reorder.rs', 'src/index/rw/mod.rs', 'src/elements/embeddings/mod.rs'],
  [('checked conversions and asserts before narrowing', 'try_from().unwrap(), write_uint, Chunk::push, GranneBuilder::new/push')], ['panic instead of a wrong id'])
p('C11', 'Concurrent insert, search, read and save never deadlock on each other',
  'Any number of threads calling any mix of the concurrent index operations (insert, batch insert, search, element access, save, length), including from inside a worker pool, always make progress: no operation re-acquires a lock it already holds, no two operations take the same locks in opposite orders, and no operation waits for a worker pool while holding a lock that the work it may pick up meanwhile also needs.',
  ['schedules', 'programs'], 'All thread interleavings of the concurrent index operations, excluding callers that keep a returned read guard while calling back in.',
  'Deadlocks need a particular interleaving with a waiting writer; the tests run a few quick schedules.',
  ['src/index/rw/mod.rs', 'src/index/mod.rs', 'src/index/rw/rw_lock_slice_vector.rs'],
  [('lock order: save lock, elements, layers, node', 'RwGranneBuilder::insert_batch, write, search'), ('one node lock at a time', 'connect_nodes, initialize_node, get_neighbors')], ['termination of insert/search/save'])
p('C12', 'Concurrent inserts receive distinct consecutive ids of their own elements',
  'Every successful concurrent insertion returns the id under which exactly its element is stored; ids handed out are the positions the elements occupy, no id is handed out twice, and ids of one batch are in the order of its elements.',
  ['schedules'], 'All interleavings of insertions from any number of threads.',
  'A lost or doubled id needs two inserts to interleave between reading the length and appending.',
  ['src/index/rw/mod.rs'], [('id computation and append under one exclusive lock', 'insert_batch')], ['insert / insert_batch return values', 'get_element'])
p('C13', 'A concurrent save is a consistent snapshot',
  'What a save writes while other threads insert is one moment in time: no element or neighbour list changes between the start and the end of the save, and the index and the elements it writes belong to the same set of elements.',
  ['schedules'], 'All interleavings of saves with insertions.',
  'No test saves while inserting.',
  ['src/index/rw/mod.rs', 'src/index/rw/rw_lock_slice_vector.rs'],
  [('exclusive save lock versus shared lock held during every modification', 'write / insert_batch')], ['files written by save_index_and_elements_to_disk'])
p('C14', 'The capacity limit is decided atomically with the insertion',
  'The concurrent index never stores more elements than its configured maximum, whatever insertions run at the same time: whether there is room is decided under the same exclusive access under which the elements are then added.',
  ['schedules'], 'All interleavings of insertions near the capacity limit, all batch sizes.',
  'The single-threaded capacity test cannot interleave two inserts around the check.',
  ['src/index/rw/mod.rs'], [('capacity check', 'insert_batch')], ['len() after concurrent inserts'])
p('C15', 'Neighbour updates made by another thread are never overwritten blindly',
  'While an index is built or extended by several threads, a neighbour list is only changed in ways computed from its current content under exclusive access to that list, so connections another thread has just added are never lost by being overwritten.',
  ['schedules'], 'All interleavings of index construction.',
  'The test-suite pins the worker pool to one thread because of this race.',
  ['src/index/mod.rs'], [('node write lock around read-modify-write', 'initialize_node, connect_nodes')], ['neighbour lists after a multi-threaded build'])
p('C16', 'No element is its own neighbour and no neighbour is listed twice',
  'In every graph that building or concurrent insertion produces, no element appears in its own neighbour list and connecting two elements never adds an element that is already listed.',
  ['inputs', 'schedules'], 'All element sets (including duplicates), build settings and interleavings.',
  'Sampled graphs of random vectors rarely offer an element itself or a duplicate as neighbour.',
  ['src/index/mod.rs'], [('id filter on the candidates; i == j check; search for an equal entry before writing', 'index_element, connect_nodes')], ['get_neighbors'])
p('C17', 'Search results are sorted, free of duplicates and truthfully scored',
  'The results of every search are in order of increasing distance, contain no id twice, are at most as many as requested, and each reported distance is the distance between the query and the element with the reported id.',
  ['inputs', 'configurations'], 'All indexes, queries and search parameters, for the immutable, builder-backed and concurrent index.',
  'Tests compare a few queries on random data with brute force.',
  ['src/index/mod.rs', 'src/index/rw/mod.rs', 'src/max_size_heap.rs'],
  [('visited set, result heap, into_sorted_vec, take', 'search_for_neighbors, search_internal, RwGranneBuilder::search')], ['Granne::search, RwGranneBuilder::search'])
p('C18', 'Searching a non-empty index never comes back empty-handed',
  'A search that asks for at least one result on an index holding at least one indexed element returns at least one result; the empty result is reserved for an empty index.',
  ['inputs', 'histories', 'schedules'], 'All indexes from one element up, however and however far they were built.',
  'The tests search either empty or well-filled indexes and do not look at the one-element result.',
  ['src/index/mod.rs', 'src/index/rw/mod.rs'], [('entry point fallback to element 0', 'find_entrypoint, index_element')], ['search'])
p('C19', 'Reordering permutes elements and every layer by the permutation it returns',
  'Reordering an index moves the elements, and the nodes and neighbour ids of every layer, by one and the same permutation, and returns that permutation: the element now at position i is the one that was at permutation[i], and neighbour ids refer to the new positions.',
  ['inputs', 'programs'], 'All indexes, element types and keys.',
  'The tests reorder three small random indexes.',
  ['src/index/reorder.rs', 'src/slice_vector/mod.rs', 'src/elements/embeddings/mod.rs', 'src/elements/dense_vector.rs'],
  [('reorder_layers and permute called with the same order', 'reorder, reorder_by_keys'), ('inverse mapping for neighbour ids', 'reorder_layer, get_reverse_mapping')], ['reorder, reorder_by_keys, get_element, get_neighbors'])
p('C20', 'Reordering validates its input first and handles any number of layers',
  'Reordering works on an index with any number of layers, including none and one, and when the elements do not match the index it panics before anything has been changed.',
  ['inputs', 'histories'], 'Indexes with zero, one or more layers; partially indexed element collections.',
  'Every test index has several layers and is fully built.',
  ['src/index/reorder.rs'], [('order computation and length checks', 'reorder, reorder_by_keys, compute_order')], ['reorder, reorder_by_keys'])
p('C21', 'The library prints nothing unless progress output was requested',
  'No library function writes to standard output or standard error, or creates a progress display, unless the caller asked for progress output.',
  ['inputs', 'configurations'], 'All calls with progress output off.',
  'Test harnesses swallow output.',
  ['src/index/mod.rs', 'src/index/reorder.rs', 'src/elements/embeddings/parsing.rs'],
  [('show_progress tests around println! and progress bars', 'everywhere')], ['stdout, stderr'])
p('C22', 'Search, save, load, parse and reorder are deterministic',
  'Searching, saving, loading, parsing and reordering depend only on their inputs: none of them uses randomness, the clock, randomised hash iteration order, directory listing order or the timing of threads, so repeating one gives the same results and the same bytes.',
  ['schedules', 'inputs'], 'All repetitions of an operation on equal inputs, any number of worker threads.',
  'A test run is one sample of thread timing, hash seeds and directory order.',
  ['src/index/mod.rs', 'src/index/reorder.rs', 'src/index/io.rs', 'src/elements/embeddings/parsing.rs', 'src/elements/embeddings/reorder.rs', 'src/elements/embeddings/mod.rs'],
  [('ordered parallel collects, sorted directory listing, hash set without iteration', 'reorder, parsing, search')], ['results and written bytes'])
p('C23', 'With the single-threaded feature, building an index uses no worker threads',
  'When the library is built with its single-threaded feature, building an index and searching it run entirely on the calling thread, so building is deterministic.',
  ['configurations', 'schedules'], 'All element sets and build settings under that feature.',
  'The tests are never built with that feature.',
  ['src/index/mod.rs'], [('sequential iterators instead of parallel ones', 'index_elements')], ['build, build_partial, search'])
p('C24', 'Elements are only ever added or permuted, never edited',
  'Building, searching, saving and inserting never change or remove an element that is already in an index or builder: elements change only by appending through push/insert and by the permutation of a reorder.',
  ['histories', 'schedules'], 'All sequences of operations.',
  'Tests look at a few elements after a few operations.',
  ['src/index/mod.rs', 'src/index/rw/mod.rs', 'src/index/reorder.rs'], [('exclusive access to the elements', 'push, insert_batch, reorder')], ['get_element'])
p('C25', 'Borrowing, sharing and sending are enforced by the types',
  'An index or collection that borrows bytes or elements cannot outlive them, searching needs only shared access, elements cannot be modified through an index, and every index, builder and collection can be shared between and sent to threads when its elements can: programs violating this do not compile, programs respecting it do.',
  ['programs'], 'All programs using the public API.',
  'Tests are single programs that compile.',
  ['src/index/mod.rs', 'src/index/rw/mod.rs', 'src/elements/dense_vector.rs', 'src/elements/embeddings/mod.rs', 'src/index/rw/rw_lock_slice_vector.rs'],
  [('lifetimes and auto traits', 'public types')], ['rustc'])
p('C26', 'All vectors of a collection have the same dimension, checked on every path',
  'Every way of creating or extending a fixed-dimension collection (from slices, vectors, bytes, files, pushing, extending) rejects data that does not match the dimension of the collection by panicking, instead of shifting the boundaries of other vectors.',
  ['inputs', 'histories'], 'All dimensions, lengths and malformed byte strings.',
  'Only matching dimensions are ever pushed in the tests.',
  ['src/slice_vector/mod.rs', 'src/elements/dense_vector.rs', 'src/elements/embeddings/mod.rs'],
  [('width checks', 'with_data, from_bytes, from_file, push, extend_from_slice_vector')], ['panic'])
p('C27', 'Building a prefix checks its bounds before touching the index',
  'Asking to index more elements than exist, or fewer (but not zero) than are already indexed, panics before the index has been changed in any way.',
  ['inputs', 'histories'], 'All requested sizes and all states of the builder.',
  'One test may check that it panics, not that nothing was changed.',
  ['src/index/mod.rs'], [('assertions at the start', 'build_partial')], ['build_partial'])
p('C28', 'Every build option and argument reaches exactly what it is named after',
  'Each option of the build configuration changes exactly the setting it is named after and leaves all others as they were, and search parameters and build options given to the concurrent index or through Python are passed on unchanged to the parameter of the same meaning.',
  ['configurations', 'inputs'], 'All option values in all combinations and orders.',
  'Tests set a few options and check only that building works.',
  ['src/index/mod.rs', 'src/index/rw/mod.rs', 'py/src/lib.rs', 'py/src/variants/index.rs', 'py/src/variants/builder.rs'],
  [('builder-style setters', 'BuildConfig'), ('argument forwarding', 'RwGranneBuilder::search, Python classes')], ['behaviour of build and search'])
p('C29', 'Python bindings operate on the element type that was asked for',
  'In the Python bindings the element type name selects the matching element representation for indexes, builders and distance computation, and an unknown element type is rejected rather than treated as another.',
  ['inputs'], 'All element type strings.',
  'There are no tests of the Python bindings in the suite.',
  ['py/src/lib.rs'], [('string dispatch', 'Granne.__new__, GranneBuilder.__new__, compute_distance')], ['Python API'])
p('C30', 'Python word list and embeddings stay in step',
  'In the Python bindings a word and its embedding are always added together: both are added, or neither is, so that the id of a word is always the position of its embedding.',
  ['histories', 'inputs'], 'All sequences of appends, including words already present and embeddings of the wrong dimension.',
  'There are no tests of the Python bindings in the suite.',
  ['py/src/embeddings.rs', 'py/src/variants/mod.rs'], [('append', 'Embeddings.append, WordDict::push')], ['Python API'])
p('C31', 'Files are only created or changed by the save functions, at the given paths',
  'Only the functions that save an index, elements or parsed data create, truncate or modify files, and they do so only at paths derived from the output path they were given; loading, building, searching and reordering never write to the file system.',
  ['programs', 'inputs'], 'All calls of all public functions.',
  'Tests do not watch the file system.',
  ['src/index/rw/mod.rs', 'src/elements/embeddings/parsing.rs', 'src/index/mod.rs', 'py/src/lib.rs', 'py/src/embeddings.rs', 'py/src/variants/index.rs'],
  [('File::create', 'save functions')], ['file system'])
p('C32', 'Shards partition the elements',
  'Saving elements in any number of shards writes every element to exactly one shard, in order, for every number of elements and shards.',
  ['inputs'], 'All numbers of elements and shards, including more shards than elements.',
  'Sharding is not tested at all.',
  ['src/elements/embeddings/parsing.rs'], [('shard ranges', 'parse_elements_and_save_shards_to_disk')], ['shard files'])
p('C33', 'Distances are never negative or NaN',
  'Every distance the library computes between two elements is a number that is at least zero, whatever the elements contain; input that would give NaN panics or is mapped to a fixed distance.',
  ['inputs'], 'All vectors, including zero vectors, denormals, infinities and rounding beyond one.',
  'Rounding just below zero or NaN needs particular inputs.',
  ['src/elements/angular.rs', 'src/elements/angular_int.rs', 'src/elements/embeddings/mod.rs', 'src/elements/mod.rs'],
  [('max with zero, checked NotNan construction', 'Dist::dist implementations')], ['dist, search distances'])
p('C34', 'Vectors made from raw components are always normalised',
  'Every conversion of raw components into an angular vector element, by conversion, by collecting, or by computing an embedding as an element, goes through normalisation.',
  ['inputs', 'programs'], 'All component lists and all conversion routes.',
  'Each route would need its own test; only some are used.',
  ['src/elements/angular.rs', 'src/elements/dense_vector.rs', 'src/elements/embeddings/mod.rs'], [('normalize in From<Vec<f32>>', 'angular::Vector')], ['components of the resulting vector'])
p('C35', 'Batch distances agree with single distances, one per id, in order',
  'Computing distances from one element to several others returns exactly one distance per requested id, in the order of the ids, each computed between the same two elements as the single-distance operation, for every element container.',
  ['inputs'], 'All id lists (with repeats, empty) and all containers.',
  'Only the default container is exercised through building.',
  ['src/elements/mod.rs', 'src/elements/dense_vector.rs', 'src/elements/embeddings/mod.rs'], [('map over ids', 'ElementContainer::dists implementations')], ['dists'])
p('C36', 'Stored neighbour sets hold only real neighbours and are sorted before coding',
  'The marker for an unused neighbour slot is never reported as a neighbour nor written to a saved index, and neighbour sets are put in ascending order before they are difference-encoded, on every path that encodes them.',
  ['inputs'], 'All neighbour lists, full, partial and empty, on save, load and reorder.',
  'Sampled round trips do not include every path.',
  ['src/index/mod.rs', 'src/index/io.rs', 'src/slice_vector/set_vector.rs', 'src/index/reorder.rs'],
  [('filter on the unused marker; sort before encode', 'Graph implementations, write_index, MultiSetVector')], ['get_neighbors of built and reloaded indexes'])

p('C37', 'Saved slice vectors are laid out exactly as loading reads them',
  'What a vector of slices writes (whole, as a range, or converted to a compressed one) is one eight-byte length field followed directly by its table of offsets, if it has one, and its data, complete and in order; the length field holds exactly the quantity from which loading computes where each part begins and ends; recorded offsets are the positions of the slices relative to the start of the data written; and every way of reading the bytes of such a vector takes the same parts.',
  ['inputs'], 'All vectors, empty or not, in memory or in a file, all ranges, all item sizes.',
  'Round trips sample a few vectors and ranges; written and read sides agree by luck on small or zero-based ones.',
  ['src/slice_vector/mod.rs', 'src/slice_vector/offsets.rs', 'src/slice_vector/set_vector.rs'],
  [('length field, offset table, data', 'write, write_range, write_as_multi_set_vector'), ('cutting the parts out', 'from_bytes, load, load_mmap')], ['bytes written', 'slices of the vector read from them'])

# not claimed by a static rule (see DESIGN.md); listed so that breadth is visible
p('N01', 'Search finds the true nearest neighbours with high recall',
  'For reasonable build and search parameters a search returns most of the true nearest neighbours, and recall grows with the search parameter.',
  ['inputs', 'configurations'], 'All data sets and parameters.', 'Statistical quality on random data is sampled by a few tests only.',
  ['src/index/mod.rs'], [('graph construction heuristic', 'select_neighbors, index_element')], ['search'])
p('N02', 'Saving and loading reproduces the index exactly',
  'An index written and loaded again has the same number of layers, the same number of nodes and the same neighbour sets in every layer.',
  ['inputs'], 'All graphs.', 'Round trips of random graphs sample a few sizes.',
  ['src/index/io.rs', 'src/slice_vector/set_vector.rs', 'src/slice_vector/offsets.rs'], [('encode/decode', 'set_encode, decode_into, Offsets')], ['get_neighbors after reload'])
p('N03', 'Vectorised and portable arithmetic agree',
  'The vectorised, portable and BLAS-backed kernels give the same results up to rounding.',
  ['inputs', 'configurations'], 'All vectors.', 'Only one kernel runs on a given machine.',
  ['src/math.rs'], [('kernels', 'math')], ['dist'])
p('N04', 'Layers grow geometrically as configured',
  'Layer sizes follow the configured multiplier and the last layer holds all elements.',
  ['inputs', 'configurations'], 'All element counts and multipliers.', 'A few values are sampled.',
  ['src/index/mod.rs'], [('compute_num_elements_in_layer', 'src/index/mod.rs')], ['layer_len'])
p('N05', 'Building terminates for every configuration',
  'Building an index terminates for every combination of build options and any finite set of elements.',
  ['configurations', 'inputs'], 'All option values.', 'Only sensible values are used.',
  ['src/index/mod.rs'], [('layer loop', 'build_partial')], ['build'])
p('N06', 'A crash while saving leaves the previous file usable',
  'If saving is interrupted, a previously saved file at the same path is still loadable.',
  ['crash_points'], 'All interruption points.', 'No crash is simulated.',
  ['src/index/rw/mod.rs', 'py/src/lib.rs'], [('File::create on the final path', 'save functions')], ['files'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
