BP = 'src/libs/blueprint/conduit_blueprint_mesh.cpp'

prop('B01', 'Blueprint verify never hides a failed check',
     'A blueprint protocol verification returns false whenever any check it made along the way failed or any error was logged in its report, '
     'whatever else the tree contains and in whatever order children are visited. The validity it records at the root of its report is the verdict it returns.',
     ['inputs'], 'all input trees, all numbers and orders of children, every protocol',
     'tests verify a handful of valid meshes and single corruptions; the conjunction has to hold for every combination of failing and passing parts',
     [BP, 'src/libs/blueprint/conduit_blueprint.cpp', 'src/libs/blueprint/conduit_blueprint_mcarray.cpp', 'src/libs/blueprint/conduit_blueprint_mlarray.hpp',
      'src/libs/blueprint/conduit_blueprint_table.cpp', 'src/libs/blueprint/conduit_blueprint_o2mrelation.cpp', 'src/libs/blueprint/conduit_blueprint_zfparray.cpp'],
     [('res &= sub-check folding in every verify routine', BP)],
     'path-sensitive abstract interpretation (sub-check failure typestate)',
     'every path of every verify routine, loops to a fixpoint, helpers inlined; sub-checks are opaque booleans. Trusts the clang front end and the interpreter.')

prop('B02', 'Blueprint verify accepts only what passed every required check',
     'For each blueprint protocol, verification returns true only if every check the protocol requires (field present, of the required kind, '
     'enumerated value, nested protocol, reference to an existing sibling, matching length or child count) was made on the node it is about and passed; for collections, on every child. '
     'A check is skipped only under the conditions the protocol names (an optional section is absent, a different variant of the protocol applies).',
     ['inputs'], 'all input trees',
     'tests hold a handful of malformed trees per protocol; a required check that is skipped for some combination of optional parts goes unnoticed',
     [BP, 'src/libs/blueprint/conduit_blueprint.cpp'],
     [('verify routines and their field helpers', BP)],
     'must-pass-through analysis against a frozen requirement table',
     'requirement table (288 entries, 62 routines) mined from the tree and confirmed by reading; decided on all accepting paths.')

prop('D01', 'Diff and equality answers never miss a difference',
     'Node::diff, Node::diff_compatible, DataArray::diff/diff_compatible, Schema::equals/compatible and DataType::equals/compatible answer "no difference" / "equal" only if '
     'types, lengths and every element or child of the operands were compared with the tolerance and options given and none differed '
     '(for the compatible variants: everything the receiver requires). Lists are paired by position, objects by name; nan differs from a number. '
     'The validity recorded in the info node is the negated answer.',
     ['inputs'], 'all pairs of trees, all leaf types, all lengths, all tolerances',
     'tests compare a few trees per type; a missed difference shows only for the particular shape that is skipped',
     ['src/libs/conduit/conduit_node.cpp', 'src/libs/conduit/conduit_data_array.cpp', 'src/libs/conduit/conduit_schema.cpp', 'src/libs/conduit/conduit_data_type.cpp'],
     [('Node::diff, Node::diff_compatible', 'src/libs/conduit/conduit_node.cpp'), ('DataArray::diff', 'src/libs/conduit/conduit_data_array.cpp')],
     'path-sensitive abstract interpretation (evidence of comparison per element on every no-difference path)',
     'every exit path of 32 routines (8 templates x 11 element types), loops to a fixpoint; what is decided is that a comparison of both operands was made and its outcome folded in, not floating-point arithmetic.')

prop('T01', 'Type descriptors and type tables are mutually consistent',
     'Every DataType id, name, default size, category predicate (is_integer, is_number, ...), native C type factory and endianness predicate agree with one another and with the C type they stand for. '
     'Constructors, factories, set, assignment and reset put every field they are given where it belongs (and defaults elsewhere).',
     ['inputs'], 'all type ids and names, all element counts, offsets, strides, element sizes and byte orders',
     'the tables are 14 entries times dozens of functions; tests sample some pairs, and never most strides/offset/endianness combinations',
     ['src/libs/conduit/conduit_data_type.cpp', 'src/libs/conduit/conduit_endianness.cpp'],
     [('DataType tables, factories, predicates', 'src/libs/conduit/conduit_data_type.cpp')],
     'path summaries per function evaluated per type id, compared against the type system',
     'all paths of 91 functions for every id/name; arguments stay symbolic. Machine byte order itself is an opaque boolean.')

prop('T02', 'Typed node and array accessors read the stored elements as their type',
     'Node::as_<type>, as_<type>_ptr, as_<type>_array, as_<type>_accessor and the Value/ConstValue conversions hand out exactly the stored data when the stored type matches '
     '(respecting offset and stride) and raise an error or a null/zero/empty result when it does not. DataArray and DataAccessor element addresses are data + offset + index*stride; constructing, copying or assigning one yields a view of the same elements.',
     ['inputs'], 'all stored types, offsets, strides and indices',
     'over a hundred near-identical accessors; a wrong type id, offset or constness variant is exposed only by the exact type and layout',
     ['src/libs/conduit/conduit_node.cpp', 'src/libs/conduit/conduit_data_array.hpp', 'src/libs/conduit/conduit_data_accessor.hpp'],
     [('Node::as_* accessors', 'src/libs/conduit/conduit_node.cpp')],
     'path summaries per accessor evaluated per stored type id',
     'every path of every accessor, for each of the stored type ids; address terms are compared as linear normal forms.')

prop('T03', 'Numeric conversions read every element as its stored type',
     'Node::to_<type>, to_<type>_array, to_data_type, DataAccessor::element/set/fill and DataArray::set/fill read each source element as its stored type, convert it once to the destination type '
     'and cover every element exactly once, whatever the types, strides and lengths. No intermediate conversion narrows the value.',
     ['inputs'], 'all pairs of source and destination types, all lengths and layouts, all values',
     'hundreds of type pairs; an intermediate signed or narrower type shows only for extreme values of one pair',
     ['src/libs/conduit/conduit_node.cpp', 'src/libs/conduit/conduit_data_array.cpp', 'src/libs/conduit/conduit_data_accessor.cpp'],
     [('Node::to_*', 'src/libs/conduit/conduit_node.cpp'), ('DataArray::set', 'src/libs/conduit/conduit_data_array.cpp'), ('DataAccessor', 'src/libs/conduit/conduit_data_accessor.cpp')],
     'path summaries per stored type plus loop-coverage analysis',
     'all type pairs; loops are recognised as counted loops covering [0,n); other loop shapes are reported as unanalysed, not as violations.')

prop('T05', 'Setters store exactly the value, array or external memory they are given',
     'Every Node setter (set, set_<type>[_ptr|_array|_vector|_initializer_list], set_path*, set_external*, set_path_external*, operator=) leaves the addressed node either holding a copy, element for element, '
     'of exactly the elements given (type, count, honouring source offset/stride and the stride of the node; a node that already holds that type with at least that many elements keeps its layout), or, for the external family, describing exactly the memory given '
     '(same pointer, type, count, offset, stride, element size, byte order) after releasing what it held. No other node is touched.',
     ['inputs'], 'all element types, counts, offsets, strides and previous contents of the node, all overloads',
     '441 overloads; tests use compact arrays on fresh nodes, so swapped layout arguments, reused destinations and strided destinations go unseen',
     ['src/libs/conduit/conduit_node.cpp'],
     [('Node::set*, Node::operator=', 'src/libs/conduit/conduit_node.cpp')],
     'effect summaries (init/release/describe/copy) of every overload by inlining, compared with the effect prescribed by name and parameter types',
     'every path of 441 overloads. init/release/allocate and the strided copy are primitives here (decided by other properties).')

prop('C01', 'The C interface does what the C++ interface does',
     'Every conduit C function calls the C++ operation it is named after on the handle it was given, passes each argument once and in order (a NULL optional argument as its default) and returns that result; '
     'C setters have exactly the effect of the C++ setters of the same name; returned strings are fresh copies the caller owns.',
     ['inputs'], 'all arguments of all ~500 C functions',
     'most of the C functions differ only in one type name; tests call a sample of them with default layouts',
     ['src/libs/conduit/c/conduit_node_c.cpp', 'src/libs/conduit/c/conduit_datatype_c.cpp', 'src/libs/blueprint/c/', 'src/libs/relay/c/'],
     [('C wrappers', 'src/libs/conduit/c/conduit_node_c.cpp')],
     'effect and forwarding summaries of every wrapper by inlining',
     'every path of every C function; what the C++ operations do is decided elsewhere.')

prop('F01', 'The Fortran interface matches the C interface',
     'Every Fortran bind(C) interface names an existing C function and agrees with it in number, order, type, width and passing mode (value or reference) of arguments and in the result; '
     'the Fortran procedures and object methods built on them forward their arguments in order to the operation of the same name, null-terminating every string; '
     'type-bound methods and generic names resolve to the procedures of that name, and enumerators hold the values of the C constants.',
     ['inputs'], 'all arguments of all Fortran procedures',
     'the Fortran layer is not compiled in most builds and the linker checks no signatures: a wrong width or missing terminator shows only at run time for particular values',
     ['src/libs/conduit/fortran/conduit_fortran.F90', 'src/libs/conduit/fortran/conduit_fortran_obj.f90', 'src/libs/blueprint/fortran/', 'src/libs/relay/fortran/'],
     [('bind(C) interfaces', 'src/libs/conduit/fortran/conduit_fortran.F90')],
     'signature comparison of parsed Fortran interfaces with the clang-resolved C prototypes, and forwarding lint',
     '162 interfaces, 155 wrapper procedures, 123 methods and generic members, the enumerators; int results declared logical(C_BOOL) count as compatible (0/1 results).')

prop('E01', 'Byte-order conversion reverses each element once, and only when needed',
     'Endianness::swap16/32/64 (in place and to a destination) write exactly the reversed bytes of the source. Node::endian_swap, for every stored type, layout (offset, stride) and pair of current and requested byte orders, '
     'reverses the bytes of every element exactly when the two orders differ on this machine (default meaning the order of the machine), touches nothing otherwise, records the requested order, and does so in every descendant of an object or list.',
     ['inputs'], 'all stored types, byte orders, machine byte orders, counts, offsets and strides',
     'tests swap compact single values; strided data, default byte orders and list children are not sampled, and no test can run on a machine of the other byte order',
     ['src/libs/conduit/conduit_endianness.cpp', 'src/libs/conduit/conduit_node.cpp'],
     [('Endianness::swap*', 'src/libs/conduit/conduit_endianness.cpp'), ('Node::endian_swap', 'src/libs/conduit/conduit_node.cpp')],
     'byte-level symbolic memory of the swap routines; path summaries of endian_swap under every (type, order, order, machine) assignment; loop coverage of elements and children',
     'every byte of the 6 routines and 250 (type, order) cases of endian_swap, loops covered for any count.')

prop('L01', 'Sizes, offsets and compaction follow the layout exactly',
     'For every data type, count (including zero), offset, stride and element size: the address of element i is offset + stride*i; strided_bytes, spanned_bytes, bytes_compact and the Schema/Node totals are exactly the extent of the elements '
     '(zero for zero elements; sum, or maximum for spans, over all children); is_compact holds exactly when they agree. Compaction and serialisation (to memory, to a stream, of schemas and of data) give every leaf the offset that follows the compact '
     'sizes of the leaves before it and copy each of its elements once, honouring strides; contiguous_with accepts a leaf only at the end of the one before it.',
     ['inputs'], 'all types, counts, offsets, strides, all trees',
     'tests serialise compact trees; a strided leaf followed by another, zero-length strided leaves and empty first children were wrong and unnoticed',
     ['src/libs/conduit/conduit_data_type.cpp', 'src/libs/conduit/conduit_schema.cpp', 'src/libs/conduit/conduit_node.cpp', 'src/libs/conduit/conduit_utils.cpp', 'src/libs/conduit/conduit_data_array.cpp'],
     [('DataType::strided_bytes', 'src/libs/conduit/conduit_data_type.cpp'), ('Schema::compact_to', 'src/libs/conduit/conduit_schema.cpp'), ('Node::serialize', 'src/libs/conduit/conduit_node.cpp'),
      ('conduit_memcpy_strided_elements', 'src/libs/conduit/conduit_utils.cpp')],
     'symbolic path summaries compared as polynomials with the layout arithmetic, induction-variable analysis of copy loops, loop coverage of children',
     'every path of the size functions for each type and count class; every path of the compaction and serialisation routines. 64-bit overflow of sizes is not considered.')

prop('N01', 'A node and its schema always describe the same tree',
     'After every Node operation (set, set_external, fetch, append, add_child, remove, reset, update, swap, move, load, parse, compaction, ...), on every path: the children of the node and the children of its schema correspond one to one and in order, '
     'every child node is linked to its own schema child and has this node as parent; children made by Node operations inherit its allocator; no child node outlives its schema. The JSON and YAML parsers, which build a node and its schema side by side, keep them in step too. In a Schema, after every operation: the list of children, the list of names and the name-to-index map '
     'describe the same children (removal shifts exactly the later indices, renaming keeps the position), every child has the schema as parent, and the storage for children matches the data type. swap exchanges every part of two nodes, including two children '
     'of the same parent, and re-parents their children.',
     ['histories', 'inputs'], 'all operations, all trees, any sequence of operations (the invariant is preserved by each)',
     'the invariant must survive any history of operations; use-after-free in add_child on a list and wrong parents after swap were unnoticed by the tests',
     ['src/libs/conduit/conduit_node.cpp', 'src/libs/conduit/conduit_schema.cpp'],
     [('Node::walk_schema', 'src/libs/conduit/conduit_node.cpp'), ('Node::swap', 'src/libs/conduit/conduit_node.cpp'), ('Schema::remove', 'src/libs/conduit/conduit_schema.cpp'), ('Schema::add_child', 'src/libs/conduit/conduit_schema.cpp')],
     'typestate analysis (children in step / released / schema replaced / child pending) over every path of every operation; effect summaries of the child tables with symbolic sizes; loop coverage',
     '138 node operations, 80 schema operations and 5 parser routines, every path. A node copied into its own descendant or ancestor is not considered.')

prop('N02', 'Lookups check first and always end',
     'Every access to a child by index, in Node and Schema, happens only after the index is known to lie inside the children (otherwise an error is raised); lookups by name raise an error for a missing name. Looking up a path makes progress on every path string, '
     'including empty ones ("", "/", "..": an error, not an endless recursion), and ".." continues at the parent. Copying a node or schema to itself leaves it unchanged. '
     'Node iterators visit child 0, 1, 2, ... once each; has_next holds exactly while a child is left; next, peek_next, previous and to_back/to_front move as documented.',
     ['inputs'], 'all indices (negative and out of range included), all names, all path strings',
     'tests sample a few valid paths; endless recursion on "/", deletion before the range check and unchecked Schema::child were unnoticed',
     ['src/libs/conduit/conduit_node.cpp', 'src/libs/conduit/conduit_schema.cpp', 'src/libs/conduit/conduit_node_iterator.cpp'],
     [('Node::child', 'src/libs/conduit/conduit_node.cpp'), ('Node::fetch_existing', 'src/libs/conduit/conduit_node.cpp'), ('Schema::child_index', 'src/libs/conduit/conduit_schema.cpp'), ('NodeIterator::next', 'src/libs/conduit/conduit_node_iterator.cpp')],
     'guard analysis: facts established on every path to each child access; argument-decrease check of recursive path lookups; path summaries of the iterators',
     '37 functions with child accesses, 12 path functions, 16 iterator methods. Accesses whose bound cannot be resolved are listed as notes.')

prop('M01', 'A node frees exactly what it owns, once, with the allocator that made it',
     'On every path of every Node operation (error paths included) a node owns at most one buffer: before it allocates, maps a file, or takes external data it has released what it owned; a pointer that came from the caller is never freed; after any operation '
     'the ownership flags tell what the data pointer is (allocated, mapped or external). release frees an allocated buffer exactly once with the allocator id under which it was allocated, deletes a mapping exactly once, and clears the flags; the allocator id of a node changes only '
     'while it owns nothing, and swap exchanges it together with the buffer. The allocator registry gives every registration its own id and uses the allocate and free function of that id. A mapping maps and unmaps the full 64-bit size, and a failed mapping leaves nothing open.',
     ['histories', 'inputs', 'faults'], 'all operations in any order, all allocators, failing opens and mappings',
     'leaks and wrong-allocator frees are invisible to value tests; every history of set, set_external, load, mmap, swap and set_allocator must keep the invariant',
     ['src/libs/conduit/conduit_node.cpp', 'src/libs/conduit/conduit_utils.cpp'],
     [('Node::release', 'src/libs/conduit/conduit_node.cpp'), ('Node::allocate', 'src/libs/conduit/conduit_node.cpp'), ('Node::set_allocator', 'src/libs/conduit/conduit_node.cpp'), ('AllocManager', 'src/libs/conduit/conduit_utils.cpp')],
     'ownership typestate (nothing owned / allocated / mapped / external) along every path of every Node operation; effect summaries of allocate, release, mmap, swap and the allocator registry',
     '154 node operations, every path, each proven to preserve the ownership invariant.')

prop('R01', 'An MPI transfer moves exactly the compact data of the node it was given',
     'For every routine of relay mpi (send, recv, isend, irecv, wait, wait_all, reduce, gather, broadcast, their all_ and _using_schema variants and communicate_using_schema), every node layout (strided, offset, scattered over several buffers, already compact) and every rank: '
     'the buffer, count and type given to MPI describe exactly the compact bytes of the node (a layout that is not compact and contiguous is compacted first; a receive buffer holds at least the bytes received); the schema sent along describes those bytes; received data is copied back to a node that could not be received into directly; '
     'the buffer of a nonblocking request lives until wait or wait_all, which copy out what was received and then release it; gathered pieces are laid out one after the other; encoding and decoding of schema messages agree; '
     'root, peer, tag, operation and communicator are passed on unchanged; the result of every MPI call is checked; all ranks issue the same sequence of collectives; the MPI type of every conduit type has its size and kind and maps back to it.',
     ['inputs', 'schedules'], 'all node layouts and types, all ranks and roots, all message sizes up to INT_MAX bytes',
     'tests send small compact nodes between two ranks; reductions, gathers and schema transfers of nodes with an offset sent wrong bytes unnoticed',
     ['src/libs/relay/conduit_relay_mpi.cpp', 'src/libs/relay/conduit_relay_mpi.hpp'],
     [('send_using_schema', 'src/libs/relay/conduit_relay_mpi.cpp'), ('irecv', 'src/libs/relay/conduit_relay_mpi.cpp'), ('all_gather_using_schema', 'src/libs/relay/conduit_relay_mpi.cpp'), ('communicate_using_schema::execute_internal', 'src/libs/relay/conduit_relay_mpi.cpp')],
     'symbolic path summaries of the transfer routines: buffer/count/type triples at every MPI call compared with the layout facts known on that path; typestate of requests and receive buffers; sequence comparison of collectives; enumeration of the type tables',
     '20 routines, every path, 165 obligations; sizes above INT_MAX (only warned about by the code) are not considered.')

prop('R02', 'All ranks take part in every collective',
     'In the parallel mesh routines (blueprint mpi: verify, generate_index, partition, partition_map_back, flatten, distribute, domain and vertex ids, adjset comparison, queries; relay mpi io: reading and writing blueprint and Silo meshes), whatever domains each rank holds (none included): '
     'a rank never skips a collective operation the others perform, nor performs one they skip, and all ranks name the same root. Every branch, loop bound and early return that decides whether a collective is reached depends only on values that are the same on all ranks (arguments and options given alike, the number of ranks, results of an earlier all-reduce, all-gather or broadcast), '
     'never on the rank, on the domains of this rank or on an error only this rank met. (A rank that leaves by raising an error is not considered.)',
     ['schedules', 'inputs'], 'all numbers of ranks, all distributions of domains over ranks, all options',
     'a hang needs a particular distribution of domains; partition, partition_map_back and overlink saves hung or failed when a rank had no domains, unnoticed by the tests',
     ['src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp', 'src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp', 'src/libs/blueprint/conduit_blueprint_mesh_partition.cpp', 'src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp',
      'src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp', 'src/libs/relay/conduit_relay_io_blueprint.cpp', 'src/libs/relay/conduit_relay_io_silo.cpp'],
     [('ParallelPartitioner::get_global_domids', 'src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp'), ('mesh::verify', 'src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp'), ('write_mesh', 'src/libs/relay/conduit_relay_io_blueprint.cpp')],
     'interprocedural data-flow (taint) analysis: the reasons for which each value can differ between ranks, with implicit flows, aliases and collective results; control dependence of every collective call',
     '61 routines that reach a collective, 142 collective call sites, every controlling condition. Point-to-point messages are not matched.')

prop('H01', 'HDF5 identifiers, failures and types in relay',
     'In the HDF5 layer of relay, for every tree, option and file: (a) on every path that ends without an error, each identifier obtained from HDF5 (file, group, dataset, object, dataspace, datatype, property list, attribute) is released exactly once, by the close call for what it is, or handed to the caller; none is used or closed again afterwards, '
     'so that a finished call leaves nothing open but what it returned, and the application\'s HDF5 error callback is put back; (b) a failed opening of a file, read, write, attribute write, resize, creation, deletion or iteration is reported as an error, and reading a group never stops before its last child; '
     '(c) data is handed to HDF5 only from memory that is compact, with the type and the number of elements of the node it is read from, and read only into compact memory of the type and byte order read; what is read reaches the node; with an offset and stride the selection is that offset and stride in every dimension, a stride of 0 is refused, the whole dataset is overwritten only when neither is asked for, and the dataset is extended to offset + (n-1)*stride + 1 unless it reaches that far; arrays that receive dimensions have room for every rank; '
     '(d) the maps between conduit and HDF5 types are inverse to each other for the ten numeric types in both byte orders, and strings map to the HDF5 string type; (e) files and groups are created with link creation order tracked and indexed, so that children come back in order; hdf5_identifier_report of an identifier lists the identifiers it counted.',
     ['inputs', 'faults'], 'all nodes, options, existing files, failing HDF5 calls',
     'leaks and ignored failures do not change what tests compare; the writer left the parent group open after every write with an offset, overran a stack array for datasets of several dimensions, and read machine order values into nodes of the other byte order',
     ['src/libs/relay/conduit_relay_io_hdf5.cpp'],
     [('write_conduit_leaf_to_hdf5_dataset', 'src/libs/relay/conduit_relay_io_hdf5.cpp'), ('read_hdf5_dataset_into_conduit_node', 'src/libs/relay/conduit_relay_io_hdf5.cpp'), ('conduit_dtype_to_hdf5_dtype', 'src/libs/relay/conduit_relay_io_hdf5.cpp')],
     'typestate of every HDF5 identifier and status over all paths with per-function summaries; buffers, types and counts of each transfer against the path conditions; type maps evaluated for every type and byte order',
     '85 functions, 192 HDF5 call sites, all paths; identifiers leaked by a raised error, and what HDF5 itself stores, are not covered.')

prop('N03', 'Names, positions and paths resolve to exactly the child they denote',
     'For every tree and every name, index and path: number_of_children, child, child_ptr, operator[], child_index, child_name, child_names, has_child, has_path, fetch, fetch_existing, fetch_ptr, add_child, name, path, parent and is_root of Node and Schema '
     'give exactly the child (or the answer) that the name, position or path denotes - the path is split at the first separator, a leading separator is ignored, ".." is the parent where supported, the rest of the path is looked up in the child found - and agree with each other; '
     'add_child and fetch create the named child only if there is none, at the end; remove and rename_child act on exactly the child named and refuse a name that does not exist (or, for rename, an existing new name). '
     'Node iterators (copies, assignments and conversions included) and the random-access child iterators step, jump, compare and dereference by position; split_string, rsplit_string, split_path and rsplit_path cut exactly at the first or last separator.',
     ['inputs', 'histories'], 'all trees, names, indices and path strings',
     'every use of conduit goes through these lookups; tests sample a few names and shallow paths',
     ['src/libs/conduit/conduit_node.cpp', 'src/libs/conduit/conduit_schema.cpp', 'src/libs/conduit/conduit_node_iterator.cpp', 'src/libs/conduit/conduit_node_iterator.hpp', 'src/libs/conduit/conduit_utils.cpp'],
     [('Schema::has_path', 'src/libs/conduit/conduit_schema.cpp'), ('Node::fetch_existing', 'src/libs/conduit/conduit_node.cpp'), ('Schema::rename_child', 'src/libs/conduit/conduit_schema.cpp'), ('NodeChildIteratorBase', 'src/libs/conduit/conduit_node_iterator.hpp'), ('rsplit_string', 'src/libs/conduit/conduit_utils.cpp')],
     'case analysis of path summaries: the symbolic summary of each function (all paths, helpers inlined) is compared, in every assignment of the abstract facts it asks about, with the specified result and effects',
     'about 110 functions and template methods, 769 obligations; what a std::map or std::string operation itself does is assumed.')

prop('P01', 'Text forms carry names, strings, numbers and layout faithfully',
     'For every tree: the JSON and YAML writers of Node, Schema, DataType, DataArray and DataAccessor write, on every path, one complete value with separators exactly between elements, every child once, in order, under its own name, every array element and every scalar as a number of its own type '
     '(int8/uint8 as numbers too; infinite and undefined values quoted in JSON), names and string values quoted and escaped in JSON and string values in YAML, an empty array as an empty list. The layout keys (dtype, number_of_elements, offset, stride, element_bytes, endianness) carry their own field when written, '
     'and are read back into that field, with the documented defaults, by the conduit_json and conduit_yaml readers. escape_special_chars turns each character into text that a JSON or YAML reader decodes to the same character, unescape_special_chars inverts it and leaves unknown escapes alone; '
     'json_sanitize leaves quoted strings unchanged; parsed strings are stored unaltered; inline numbers are stored as the declared type at full width, numbers of no declared type as a type that holds them (int64, else uint64, else float64). The base64 form holds the compact data and the schema of that data, and is decoded over its whole length. Each protocol name selects the writer or reader of that name (conduit_json, json, conduit_base64_json, yaml, conduit_yaml, external forms; save and load too), unknown names are refused, '
     'and indent, depth, pad and end-of-element parameters reach the writer in their places.',
     ['inputs'], 'all trees, names, strings, numbers, layouts and protocol names',
     'tests write a few trees; names with quotes, control characters, backslashes, int8 accessors, values above 2^63 and zero-length YAML leaves were wrong and unnoticed',
     ['src/libs/conduit/conduit_node.cpp', 'src/libs/conduit/conduit_schema.cpp', 'src/libs/conduit/conduit_data_type.cpp', 'src/libs/conduit/conduit_data_array.cpp', 'src/libs/conduit/conduit_data_accessor.cpp', 'src/libs/conduit/conduit_generator.cpp', 'src/libs/conduit/conduit_utils.cpp'],
     [('Node::to_json_generic', 'src/libs/conduit/conduit_node.cpp'), ('Schema::to_json_stream', 'src/libs/conduit/conduit_schema.cpp'), ('DataArray::to_json_stream', 'src/libs/conduit/conduit_data_array.cpp'), ('parse_leaf_dtype', 'src/libs/conduit/conduit_generator.cpp'), ('escape_special_chars', 'src/libs/conduit/conduit_utils.cpp'), ('json_sanitize', 'src/libs/conduit/conduit_utils.cpp')],
     'typestate of the output stream against the JSON grammar over all paths and loop trips; symbolic evaluation of the escape functions for every character; product of the json_sanitize scanner (as a finite automaton over character classes) with a JSON string automaton; evaluation of the protocol dispatch for every name',
     '67 writers, 19 dispatchers, 2 leaf readers, 1358 obligations; decimal conversion itself and the third-party parsers are assumed, YAML names are not escaped by the format.')

prop('U01', 'Copying, merging and mirroring reach every child and pair them correctly',
     'For every pair of trees: set(node) replaces the contents by a copy of every child of the source, in order and under its name; update merges every child of the source into the child of the same name (or, in lists, position), adding those that are missing, and keeps the others; '
     'update_compatible changes only children that exist and leaves that have the type and room; update_external does what update does but shares the leaves; set_external(node) mirrors every child and its data pointer. '
     'Leaves are copied element by element with the address, count and stride of the two leaves, only if type and count fit, and replaced otherwise. move leaves the source empty. list_of and list_of_external make one entry per requested entry, entry i described compactly at i times the compact size of an entry. '
     'The Node constructors store what they are given as the setters of the same arguments do.',
     ['inputs', 'histories'], 'all pairs of trees, all leaf layouts, all numbers of entries',
     'tests merge a few small trees with compact leaves; strided destinations, lists longer on one side and nested objects on both sides are rarely combined',
     ['src/libs/conduit/conduit_node.cpp'],
     [('Node::set_node', 'src/libs/conduit/conduit_node.cpp'), ('Node::update', 'src/libs/conduit/conduit_node.cpp'), ('Node::update_compatible', 'src/libs/conduit/conduit_node.cpp'), ('Node::mirror_node', 'src/libs/conduit/conduit_node.cpp'), ('Node::list_of_external', 'src/libs/conduit/conduit_node.cpp')],
     'typestate of the current source child along every path (taken up by the loop, then copied to its counterpart), loop coverage of the children of the source, comparison of the arguments of each leaf copy with the two layouts',
     'every path of the 5 tree routines, 7 constructors and the list builders. Leaves of different byte order, and a tree merged into a part of itself, are not considered.')

prop('V01', 'Element shapes, extents and offsets mean the same everywhere',
     'For every Blueprint shape (point, line, tri, quad, tet, hex, wedge, pyramid, polygonal, polyhedral, mixed): the per-shape tables have an entry for it and agree on its dimension, number of points and bounding shape; its embedding lists exactly its sides '
     '(every face of the documented numbering once, quads whole or as two triangles), and ShapeType reports these (is_poly*, num_faces, get_face with all faces turned outwards; the shape of a topology by name or by dimension). '
     'For every grid and unstructured topology: the extent along an axis is taken from that axis (points, or elements = points - 1), coordset and topology lengths are the products of the extents, uniform coordinates convert to origin + index * spacing of the same axis with defaults 0 and 1, '
     'and generate_offsets gives each element the running sum of the sizes before it (points per shape for fixed and streamed shapes). '
     'In a one-to-many relation, item m of one o is entry indices[offsets[o] + m], by index and by iterator alike, and o has sizes[o] items; an absent array means its default (offsets[o] = o, identity, one item).',
     ['inputs'], 'all shapes, all topologies and coordsets',
     'tests use a few meshes with mostly quads, hexes and tets; other rows of the tables, streamed shapes and coordsets without origin or spacing are rarely combined',
     ['src/libs/blueprint/conduit_blueprint_mesh_utils.hpp', 'src/libs/blueprint/conduit_blueprint_mesh_utils.cpp', 'src/libs/blueprint/conduit_blueprint_mesh.cpp'],
     [('TOPO_SHAPE tables', 'src/libs/blueprint/conduit_blueprint_mesh_utils.hpp'), ('ShapeType', 'src/libs/blueprint/conduit_blueprint_mesh_utils.cpp'), ('topology::logical_dims', 'src/libs/blueprint/conduit_blueprint_mesh_utils.cpp'), ('topology::unstructured::generate_offsets', 'src/libs/blueprint/conduit_blueprint_mesh_utils.cpp'), ('convert_coordset_to_explicit', 'src/libs/blueprint/conduit_blueprint_mesh.cpp')],
     'constant tables read from the syntax tree; path summaries of the functions answering from them, evaluated for every shape and compared with the boundary of the shape; axis provenance and linear normal forms of extents, coordinates and running offsets',
     'all 11 shapes, every path of the shape, extent, length, offset and uniform coordinate functions. Contents of the generated faces, lines, corners and sides of a mesh, and unstructured connectivity of grids, are not considered.')

prop('Q01', 'Array reductions take every element into account',
     'For every array of every element type and any layout: DataArray and DataAccessor min, max, sum, mean and count visit every index below the number of elements exactly once; min and max start from a value no element can be beyond and take exactly the elements that improve the result; '
     'sum and mean add every element, the mean as double and divided by the number of elements; count counts exactly the elements equal to the value asked for. The same holds for the minimum and maximum of coordinate arrays behind coordset extents.',
     ['inputs'], 'all arrays, element types and values',
     'tests reduce a few short arrays of positive numbers; neutral values and last elements matter only for others (all negative, extreme element at the end)',
     ['src/libs/conduit/conduit_data_array.cpp', 'src/libs/conduit/conduit_data_accessor.cpp', 'src/libs/blueprint/conduit_blueprint_mesh_utils.cpp'],
     [('DataArray::min, max, sum, mean, count', 'src/libs/conduit/conduit_data_array.cpp'), ('DataAccessor::min, max, sum, mean, count', 'src/libs/conduit/conduit_data_accessor.cpp')],
     'loop-carried value analysis of the accumulator (initial values, updates and the conditions under which they happen) and loop coverage of the index, per template instantiation',
     '150 instantiated reductions, every path. Rounding and overflow of the sums themselves are not considered.')

# ---- not applicable
prop('X01', 'Text formats round-trip values', 'Writing any node as JSON or YAML and parsing it back gives the same tree with the same values (strings with any bytes, integers exactly, floating point to the printed precision).',
     ['inputs'], 'all trees and values', 'tests sample a few trees', ['src/libs/conduit/conduit_node.cpp', 'src/libs/conduit/conduit_generator.cpp'], [('Generator', 'src/libs/conduit/conduit_generator.cpp')],
     na='equality of the values after formatting and parsing is a statement about the decimal conversion routines and the third-party parsers over all runtime values; no static argument in reach bounds it (names, strings, structure, layout keys and number types on the conduit side are decided by P01, the structure of the parsed tree by N01)')
prop('X02', 'Partitioning and flattening lose and duplicate nothing', 'partition, combine, flatten and partition_map_back keep every selected element, vertex and field value exactly once, with the fields of each element.',
     ['inputs'], 'all meshes and selections', 'tests sample small meshes', ['src/libs/blueprint/conduit_blueprint_mesh_partition.cpp', 'src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp'], [('Partitioner::execute', 'src/libs/blueprint/conduit_blueprint_mesh_partition.cpp')],
     na='the correspondence goes through run-time maps, hashes and point coordinates; a static decision would need the contents of these containers')
prop('X03', 'Material set conversions conserve volume', 'Conversions between the full, sparse by element and sparse by material forms keep every nonzero volume fraction and matset value, and to_silo the same.',
     ['inputs'], 'all material sets', 'tests sample small material sets', ['src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp'], [('to_sparse_by_material', 'src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp')],
     na='conservation quantifies over run-time values and data-dependent sizes (epsilon tests, element lists); not bounded by a static argument')
prop('X04', 'Stored files give the data back', 'Saving a node with any protocol and loading it gives the same tree and values; appending or overwriting keeps the rest of the file.',
     ['inputs', 'faults'], 'all trees, protocols and existing files', 'tests sample a few trees', ['src/libs/relay/conduit_relay_io_hdf5.cpp', 'src/libs/relay/conduit_relay_io.cpp'], [('hdf5_write', 'src/libs/relay/conduit_relay_io_hdf5.cpp')],
     na='what the HDF5 and Silo libraries store at run time cannot be decided from this source; the type maps, handles and error checks on the conduit side are covered separately')
prop('X05', 'Topology transforms describe the same mesh', 'Conversions between topology kinds and generated points, lines, faces, sides and corners describe the same geometry with consistent maps between them.',
     ['inputs'], 'all meshes', 'tests sample the examples', ['src/libs/blueprint/conduit_blueprint_mesh.cpp', 'src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp'], [('TopologyMetadata', 'src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp')],
     na='needs the connectivity contents at run time; only the constant shape tables can be decided statically')
prop('X06', 'Messages between ranks match', 'Every point-to-point message in the parallel mesh routines is received by the rank it is meant for, in the order it is sent, for every schedule.',
     ['schedules'], 'all numbers of ranks and distributions', 'tests run two to four ranks on one machine', ['src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp', 'src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp'], [('ParallelPartitioner::communicate_chunks', 'src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp')],
     na='peers and tags are computed from run-time domain maps; matching them needs the values (collectives are covered by R02, the transfer layer by R01)')

