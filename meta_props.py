# executed by meta.py
prop(
    "C01", "A range denotes exactly the values its bounds describe",
    "For every totally ordered element type, a range built by any factory contains a value exactly when the value lies between the described bounds (inclusive or exclusive as named, unbounded where none is given), and a factory rejects, with a ValueError, exactly the bound pairs that describe no valid range (upper below lower, or both ends open on the same value). Bound accessors report the bounds as given, a range is empty exactly when its bounds coincide, and equality and hashing of ranges are equality of the described bounds.",
    ["inputs"], "all element types with a consistent total order, all values, all bound kinds on both sides",
    "tests sample a few integer endpoints; the statement quantifies over every endpoint, value and element type",
    [R], [("Range factories and __contains__", R + ":Range"), ("cut comparison", R + ":_Cut and subclasses")],
    observe=["Range.open/closed/..., in, has_lower_bound, lower_endpoint, upper_bound_type, is_empty, ==, hash"],
)
prop(
    "C02", "Range relations and operations obey interval algebra",
    "For all ranges, enclosure, connectedness, intersection test, intersection and span agree with the bounds: a range encloses another exactly when its bounds do, two ranges are connected exactly when some (possibly empty) range is enclosed by both, the intersection is the largest range enclosed by both and is refused with a ValueError exactly for unconnected ranges, and the span (of two ranges, or of any nonempty collection of ranges) is the smallest range enclosing them. These operations are symmetric, associative and idempotent where mathematics says so, with the unbounded range as top element.",
    ["inputs"], "all pairs and triples of ranges over any ordered element type; collections of any size for the spanning range",
    "tests check a handful of integer ranges; algebraic laws quantify over all bound combinations",
    [R], [("encloses, is_connected, intersects, intersection, span, create_spanning", R + ":Range")],
    observe=["Range methods' results"],
)
prop(
    "C03", "A range set denotes the union of the ranges added, in canonical form",
    "After any history of additions and clears, a range set contains a value exactly when some range added since the last clear contains it, and it stores pairwise unconnected, nonempty ranges in ascending order, so that touching or overlapping additions are merged and empty ranges leave no trace. An immutable copy or built set taken along the way is never changed by what is done later to its source or builder.",
    ["histories", "inputs"], "all histories of add, add_all, clear and copying; all ranges over any ordered element type",
    "tests run a few fixed addition sequences; the representation invariant must survive every history",
    [R], [("add with coalescing", R + ":_MutableSortedDictRangeSet.add"), ("immutable copies and builders", R + ":ImmutableRangeSet, _ImmutableSortedDictRangeSet")],
    state=[("stored ranges", "lower bound -> range, ascending, pairwise unconnected", R + ":_SortedDictRangeSet")],
    observe=["as_ranges, in, len"],
)
prop(
    "C04", "Range-set queries agree with direct evaluation over the stored ranges",
    "For every range set, value and query range: membership, the range containing a value, enclosure tests and the enclosing range, the intersection test, the ranges overlapping (connected with) or enclosed by a range, the leftmost range ending at or after and the rightmost range beginning at or before a value, emptiness, length and overall span all give what direct evaluation over the stored ranges gives. Queries change nothing.",
    ["inputs"], "all range sets of any size over any ordered element type, all query values and ranges (including empty and unbounded ones)",
    "tests query small fixed sets at a few points; off-by-one boundary choices show only at specific bound-kind combinations",
    [R], [("binary-search queries", R + ":_SortedDictRangeSet")],
    observe=["results of the RangeSet query methods"],
)
prop(
    "C05", "Range sets and range maps are values",
    "Range sets are equal exactly when they store the same ranges, equal sets contain the same values and hash equally, and no set equals an object of another type; range maps are equal exactly when they map the same ranges to the same values. Ranges, immutable range sets and range maps survive pickling under every protocol and copying or deep-copying with equality, hash, order and every answer intact, and nothing in their public interface changes them.",
    ["inputs", "histories"], "all sets and maps over hashable ordered elements; all pickle protocols",
    "tests compare a few instances; equality and hash must agree on all pairs and round trips must hold for all contents including the empty set",
    [R], [("__eq__, __hash__, pickling support", R + ":_SortedDictRangeSet, _ImmutableSortedDictRangeSet, ImmutableRangeMap, _BelowAll, _AboveAll")],
    observe=["==, hash, pickle.loads(pickle.dumps(x)), copy, deepcopy"],
)
prop(
    "C06", "A range map answers every lookup from the entry that decides it",
    "A range map is accepted exactly when its key ranges are nonempty and pairwise unconnected, and is otherwise refused with a ValueError; what is accepted is held unchanged. Lookup of a value gives the value of the one key range containing it or none, lookup at or below (above) gives the value of the rightmost range beginning at or before (leftmost ending at or after) the key, and lookup by enclosure gives exactly the values of the key ranges enclosed by the query.",
    ["inputs"], "all range maps of any size over any ordered element type, all keys and query ranges",
    "tests query a few fixed maps",
    [R], [("ImmutableRangeMap", R + ":ImmutableRangeMap"), ("builder", R + ":ImmutableRangeMap.Builder")],
    observe=["map[x], in, get_from_*, get_enclosed_by, construction"],
)
prop(
    "C07", "Span algebra on integer offsets is exact",
    "A span holds exactly the offsets from its start up to but excluding its end, and is refused with a ValueError unless it holds at least one. For all spans, containment, overlap, precedence, intersection and clipping, shifting, conversion to a range, ordering key and the minimal enclosing span of any nonempty collection (given as sequence or iterator) agree with the sets of offsets held; any two spans either overlap or one precedes the other.",
    ["inputs"], "all integer offsets and shifts; collections of any size for the minimal enclosing span",
    "tests sample a few offsets; boundary conditions (touching, nested, identical spans) quantify over all pairs",
    [S], [("Span methods", S + ":Span")],
    observe=["Span methods' results"],
)
prop(
    "C08", "Span indexes return exactly the items whose spans satisfy the query",
    "For every collection of items with spans and every query span, an index returns exactly the items whose span equals, overlaps, is contained in, or contains the query, each once; a disjoint index gives the one such item or none where at most one can exist. A disjoint index is refused with a ValueError exactly when the spans of two different items share an offset, and items are found whatever their own notion of equality and whether they were given as a sequence or an iterator.",
    ["inputs"], "all finite collections of spans (overlapping, nested, touching, shared) and all query spans",
    "tests use one small fixed collection per index kind",
    [S, R], [("overlapping index", S + ":_OverLappingHasSpanIndex"), ("disjoint index", S + ":_DisjointHasSpanIndex, _build_range_to_item_index")],
    observe=["HasSpanIndex.index/index_disjoint and the four lookups"],
)
prop(
    "C09", "Markup wraps exactly the annotated text and changes nothing else",
    "For every nonempty text and every collection of annotations with spans, the marked-up text without its tags is exactly the text; each annotation which reaches into the text is opened and closed once, at its offsets (clipped to the text and shifted by the text's own offset), with its attributes in a fixed order; annotations which do not cross one another are marked up without crossing tags, including annotations of the same span. Text offsets of another length than the text are refused with a ValueError.",
    ["inputs"], "all texts, all finite collections of annotations (nested, touching, identical, crossing, reaching outside the text), all text offsets",
    "tests mark up one or two fixed sentences; nesting must come out right for every arrangement of spans",
    ["vistautils/annotated_text_utils.py"], [("HTMLStyleAnnotationFormatter.annotated_text", "vistautils/annotated_text_utils.py:HTMLStyleAnnotationFormatter")],
    observe=["the string annotated_text returns"],
    level="proof", note="clipping, the order of tags (by place, closing before opening, never crossing) and the copied text proved for all texts and annotations; the spelling of tags with attributes and the refusals are bounded only",
)
prop(
    "C10", "Iteration helpers select exactly the elements they promise, from any iterable, lazily",
    "For every finite input, given as a list, tuple, iterator, generator or other iterable: `only` and `get_only` return the one element or raise a ValueError, whatever the elements' own notion of equality; `drop` leaves out exactly the first n; `windowed` yields, for each starting position, the tuple of the elements from there on (with or without partial windows); `non_none` keeps exactly what is not None; pair tiling, flattening and limited display agree with this. Drop, windows and non_none read no further than needed, so they work on endless iterators, and an iterable (rather than an iterator) may be iterated again.",
    ["inputs"], "all finite (for the lazy helpers: also endless) iterables of arbitrary elements, all window sizes and counts",
    "tests use short lists of integers; off-by-one windows, consumption of iterators, and elements with unusual equality need quantification over inputs",
    ["vistautils/iter_utils.py", "vistautils/iterutils.py", "vistautils/collection_utils.py", "vistautils/misc_utils.py"],
    [("only, drop, windowed, non_none", "vistautils/iter_utils.py"), ("get_only", "vistautils/collection_utils.py:get_only"), ("tile_with_pairs", "vistautils/iterutils.py:tile_with_pairs"), ("flatten_once_to_list, str_list_limited", "vistautils/misc_utils.py")],
    observe=["values returned and yielded, in order; exceptions"],
    level="proof", note="laziness on endless iterators (C10.lazy) is a bounded stand-in",
)
P = "vistautils/parameters.py"
prop(
    "C11", "Looking up a parameter follows its dotted path, checks its type and honours its default",
    "For all nested parameters and dotted names, a lookup yields exactly the value its path leads to, unchanged. An accessor for a type, range, list of options or enumeration returns a value only if it satisfies the restriction and otherwise raises a ParameterError; for an absent parameter it yields the default if one is given (falsy or not, subject to the same restriction where documented), None if it is optional, and a ParameterError otherwise. A name is `in` the parameters exactly when its path leads to a non-null value; namespaces found by any route hold exactly the nested content and know their path (parameters built from nested mappings); the exactly-one check accepts exactly one present name.",
    ["inputs"], "all nested mappings, all dotted names, all values of the parameter types, all defaults",
    "tests look up fixed names in fixed files; the interplay of absent, null, falsy, mistyped and nested values quantifies over all of them",
    [P], [("get, get_optional, typed accessors, namespaces", P + ":Parameters")],
    observe=["results and exceptions of the accessors, in, has_namespace, namespace_prefix"],
    level="proof", note="arithmetic/boolean/mapping conversions of arbitrary nested values, error texts and the sequence accessors are bounded stand-ins (C11 bounded contracts)",
)
prop(
    "C12", "Unification merges parameters key by key, the new side overriding, and never mixes leaf and namespace",
    "For all pairs of parameters, the unification holds exactly the keys of both sides at every level; where both sides hold a leaf the new one's is taken (null and falsy values included), where both hold a namespace these are unified, and where one holds a leaf and the other a namespace an IOError is raised. Neither argument changes, a mapping may be given in place of Parameters, unification with itself or with nothing changes nothing, it is associative where no conflict arises, and every namespace of the result knows its path.",
    ["inputs"], "all pairs and triples of nested parameters",
    "tests unify a few fixed pairs",
    [P], [("Parameters.unify", P + ":Parameters.unify")],
    observe=["as_nested_dicts of the result, exceptions"],
    level="proof", note="one level proved with the recursive call by contract (induction over depth); associativity and paths of one-sided namespaces are bounded stand-ins",
)
prop(
    "C13", "Parameters convert to and from dictionaries and key-value pairs without loss",
    "For all nested mappings with admissible keys, Parameters.from_mapping followed by as_nested_dicts gives back the same nested plain dictionaries, in order and with the same value types, independent of later changes to either dictionary; namespaced_items lists exactly the leaves with their qualified names and from_key_value_pairs restores the parameters from them (up to empty namespaces), for any separator; a repeated name takes its last value. Keys containing the separator are refused at any level, an empty name and a non-mapping are refused.",
    ["inputs"], "all nested mappings; all sequences of key-value pairs in which no name is a namespace of another",
    "tests convert one or two fixed dictionaries",
    [P], [("from_mapping, as_nested_dicts, from_key_value_pairs, namespaced_items", P + ":Parameters")],
    observe=["as_nested_dicts, namespaced_items, ==, hash, exceptions"],
    level="proof", note="from_mapping and as_nested_dicts proved level by level (induction over depth); from_key_value_pairs and namespaced_items are bounded stand-ins",
)
prop(
    "C14", "Topological sorting orders every node after its predecessors, or reports a cycle",
    "For every directed graph given by nodes and edges, sorting yields each node exactly once (isolated nodes included) with every edge leading forward, and raises a ParameterInterpolationError exactly when the graph has a cycle (self-loops included). A graph is refused with a RuntimeError exactly when an edge has a node which is not among the nodes; repeated nodes and edges make no difference.",
    ["inputs"], "all finite directed graphs over strings",
    "tests sort one or two fixed graphs; correctness must hold for every shape and every order in which nodes and edges are given",
    ["vistautils/_graph.py"], [("Digraph.topological_sort, validate_edges", "vistautils/_graph.py:Digraph")],
    observe=["order yielded, exceptions"],
    level="proof", note="order, completeness and the cycle report proved for graphs of any size (loop invariants of topological_sort over the number of predecessors not yet given); that a finite set of nodes each having a predecessor in it contains a cycle, and termination, are argued on paper; repeating a sort and the exact refusal of edges are bounded as well",
)
prop(
    "C15", "Loading YAML parameters interpolates, includes and validates as documented",
    "For every YAML document, context of earlier parameters and environment: each %name% in a string value is replaced by the fully interpolated value of that parameter -- looked up in the document first, then in the context, then (unless switched off) in the environment -- through any number of references in any order; a value which is nothing but a placeholder takes the referenced value with its type, falsy or not. Included files are loaded in order, relative to the including file, each seeing what was loaded before, later ones overriding earlier ones and the including file all of them; the environment never appears in the result. A missing name, a cycle, a non-string inside a string, a conflict of parameter and namespace, a document that is no mapping, a key that is no string (at any level) and a missing included file are IOErrors.",
    ["inputs"], "all documents of nested mappings with string values containing placeholders, all contexts and environments, all trees of included files",
    "tests load a handful of fixed files; reference chains, shadowing between document, context and environment, and include orders combine without limit",
    [P, "vistautils/_graph.py"], [("interpolation", P + ":YAMLParametersLoader._interpolate"), ("includes and validation", P + ":YAMLParametersLoader._inner_load_from_string")],
    observe=["as_nested_dicts of the loaded parameters, exceptions"],
    level="proof", note="loading with any list of included files and any environment, validation level by level, and the replacement of names in the order of sorting proved over the contracts of YAML, files, unification, the sort and the pattern of placeholders; what counts as a placeholder, the references handed to the sort, and looking up in nested mappings are bounded only",
)
KV = "vistautils/key_value.py"
prop(
    "C16", "A zip-backed store gives back exactly what was put into it, through every history of sinks",
    "For every history of sink sessions on a file (overwriting or appending, entering a sink again, leaving the block by an exception) and every sequence of puts, a source on the file afterwards has exactly the keys put successfully since the last overwriting session, each with its value, through indexing, get with default, items and filtered items; a key put twice is refused with a ValueError also across appending sessions, a refused put leaves no trace, absent keys are KeyErrors or defaults, and use outside the context (before entering or after leaving) is an AssertionError. An exception in the block is passed on, and nothing left holds a file open. This holds for keys that are not empty, hold no line break and are not stored under the name of the key list; for character and bytes stores, any injective filename function, and custom ways of recording keys.",
    ["histories", "inputs"], "all histories of sessions and puts; keys that are legal zip member names without newline; all values",
    "tests write and read one small store; appends, refused puts and reuse interact across sessions",
    [KV], [("sink", KV + ":_ZipKeyValueSink"), ("source", KV + ":_ZipFileKeyValueSource"), ("key list", KV + ":_read_keys_from_keys_file, _write_keys_to_keys_file")],
    state=[("recorded keys", "the keys written to __keys at exit", KV + ":_ZipKeyValueSink._keys")],
    observe=["keys, [], get, items of a source; exceptions of sink and source"],
    level="proof", note="one step of any history (arbitrary store and set of keys, enter, put, leave, read back) and items proved over the contract of zipfile; whole histories on real files bounded",
)
prop(
    "C17", "Every other key-value source gives the mapping behind it",
    "For every mapping, a source made from paths, from a docID-to-file map (given as path, string or source, blank lines allowed), from a tar archive (with any name filter and key function) or by interpreting another source gives exactly the keys and (interpreted) values of that mapping through indexing, get with default, items and filtered items; entering and leaving an interpreted source enters and leaves the source beneath and passes on its treatment of exceptions. Leaving a source by an exception passes it on and releases its files. Sinks and sources described by parameters (zip, file-map, directory, or an expression, evaluated in the context given, which is not changed) read back what was written.",
    ["inputs"], "all finite mappings from strings to texts or bytes, all filters and interpretation functions",
    "tests use one small fixed archive or mapping for each kind of source",
    [KV], [("path sources", KV + ":_PathMappingCharKeyValueSource, _PathMappingBytesKeyValueSource"), ("tar source", KV + ":TarGzipBytesLinearKeyValueSource"), ("interpretation", KV + ":_InterpretedKeyValueSource, InterpretedLinearKeyValueSource"), ("construction from parameters", KV + ":char_key_value_source_from_params and siblings")],
    observe=["keys, [], get, items; exceptions"],
    level="proof", note="interpretation, path mappings, file maps and archives proved for mappings of any size over the contracts of the sources beneath, of files and of tarfile; real files, archives and construction from parameters bounded",
)
SCR = "vistautils/scripts/"
prop(
    "C18", "The store-manipulating programs keep every key with its value",
    "For every store: splitting into n slices puts each key with its value into exactly one slice, with sizes differing by at most one, the same way each time, whatever the order in which the store lists its keys, and names the slices in _slices.txt; joining them restores the store; joining stores with a common key is a RuntimeError; an explicit split gives each part exactly its listed keys, a RuntimeError for an unknown key and, unless must_be_exhaustive is false, for a key left out; downsampling keeps min(n, size) keys with their values, the same each time for the same seed; copying a directory stores each file under its name (or its stem), refusing clashes; converting a tar archive gives a zip, named after it, of exactly its regular files (but for large ones, on request); text at offsets counts code points.",
    ["inputs"], "all stores, numbers of slices and samples, partitions of keys, flat directories and archives",
    "tests run each program once on a fixed store",
    [SCR + x for x in ("split_key_value_store.py", "join_key_value_stores.py", "downsample_key_value_store.py", "directory_to_key_value_store.py", "tar_gz_to_zip.py", "text_at_offsets.py")],
    [("programs", SCR)],
    observe=["content of the output stores and files, exceptions, output"],
    level="proof", note="even and explicit splits, joining, sampling, copying directories, converting archives and text at offsets proved over the contracts of stores, archives and files, for any size; whole programs on real files bounded",
)
IOU = "vistautils/io_utils.py"
prop(
    "C19", "Sources and sinks transfer text and bytes unchanged",
    "For every text, a character source on a string, file, gzipped file, member of a tar or zip archive or byte source gives exactly that text (in the encoding named), whole, by lines, or piecewise, repeatedly, and is empty exactly when the text is, whatever the encoding of the locale, and closing an opened source releases its file; for every sequence of writes, a sink to a file, string, buffer or zip member holds exactly what was written last and a sink to nowhere leaves nothing. Byte sources and sinks do the same for bytes. Line sets hold the non-blank lines in order, and docID-to-file maps survive writing and reading, with malformed lines refused by an IOError.",
    ["inputs"], "all texts without carriage returns (which Python's text files translate), all byte strings, all sequences of writes",
    "tests use one or two fixed texts per kind of source; empty, multi-line, non-ASCII and unterminated texts quantify over all of them",
    [IOU], [("sources", IOU + ":CharSource, ByteSource"), ("sinks", IOU + ":CharSink, ByteSink"), ("lists and maps", IOU + ":file_lines_to_set, read_doc_id_to_file_map, write_doc_id_to_file_map")],
    observe=["read_all, readlines, is_empty, read, content of files written"],
    level="proof", note="sources, sinks, line sets, docID maps and their round trip proved over the contract of the platform's files; real files (and piecewise reading) bounded",
)
prop(
    "C20", "Precondition checks and small value classes accept exactly what they promise",
    "For every argument: each precondition check accepts it (returning it where it returns anything) exactly when its condition holds and otherwise raises its documented exception with the message given, whatever the argument's truth value or own equality; memory amounts are parsed exactly from a positive integer, an optional space, a unit letter in either case and an optional b; identified and scored items hold exactly legal components and cannot be changed; stripping an extension, path conversion, evaluation in a context and qualified names do exactly what they say and leave the context unchanged.",
    ["inputs"], "all arguments, types, messages and texts",
    "tests pick a few arguments per check; falsy values, tuples of types and odd texts need quantification",
    ["vistautils/preconditions.py", "vistautils/memory_amount.py", "vistautils/misc_utils.py", "vistautils/class_utils.py"],
    [("checks", "vistautils/preconditions.py"), ("MemoryAmount.parse", "vistautils/memory_amount.py:MemoryAmount"), ("WithId, Scored, strip_extension, eval_in_context_of_modules", "vistautils/misc_utils.py"), ("qualified names", "vistautils/class_utils.py")],
    observe=["values returned, exceptions and their messages"],
    level="proof", note="precondition checks and value classes proved; memory amounts, name helpers and evaluation are bounded stand-ins",
)
prop(
    "C21", "File parameters and checkpoints agree with the file system and touch nothing else",
    "For every parameter value and state of the file system, an accessor for an existing or creatable file or directory returns the resolved path exactly when the target is of the right kind, creates exactly the directories promised, empties a directory only when told to delete and then only its content, and otherwise refuses (leaving everything as it was), optional accessors giving None when absent; lists and maps of paths hold exactly the paths listed. After any history of setting, resetting and reopening, a checkpoint is there exactly when it was set since the last reset.",
    ["inputs", "histories"], "all parameter values and target states; all histories of checkpoint operations",
    "tests use one fresh directory per accessor; deletion and refusal depend on what is there",
    [P, "vistautils/checkpoints.py"], [("accessors", P + ":Parameters.creatable_directory ... optional_existing_directory"), ("lists", P + ":Parameters.path_list_from_file, path_map_from_file"), ("checkpoints", "vistautils/checkpoints.py:_CheckPointDirectory")],
    observe=["paths returned, exceptions, content of the directory tree before and after, in"],
    level="proof", note="accessors on any target, lists and maps of paths of any size, and checkpoints in any state proved over the contract of the file system; real directories, links and pickles bounded",
)
prop(
    "C22", "Objects described by parameters are built from the value, factory or default that applies",
    "For every combination of value, factory, special name and default: a string parameter is a special value, a special factory, or evaluated (importing what its qualified name needs); a namespace is evaluated by exactly one of its value and factory, with its imports, and a factory (class with from_parameters, class without, or function) receives the namespace with its content and path; an absent parameter takes the default value (falsy or not) or the default factory; neither, both, a non-factory, a failing expression, or a result of another type is refused, with a ParameterError where documented. The evaluation context is not changed.",
    ["inputs"], "all combinations of forms, expressions, contexts and expected types",
    "tests cover a few combinations; precedence between the sources of an object needs all of them",
    [P], [("object_from_parameters, evaluate, optional_evaluate", P + ":Parameters")],
    observe=["object built, parameters passed to factories, exceptions"],
    level="proof", note="values, factories, special names, defaults, types and refusals proved over the contracts of lookup and evaluation, for any parameters; the expressions themselves, imports and qualified names bounded",
)
prop(
    "C23", "Parameters written as YAML are loaded back as they were",
    "For all parameters whose values are strings without placeholders, numbers, booleans, nulls, paths, and sequences or namespaces of these, writing them to a sink, file or file name and loading the result gives the same keys, order and values (paths as strings, sequences as lists), and writing changes nothing; values of other kinds are refused with a RuntimeError at any depth.",
    ["inputs"], "all nested parameters over YAML values",
    "tests write one fixed set of parameters; strings that look like other YAML values and nested containers need quantification",
    [P], [("YAMLParametersWriter", P + ":YAMLParametersWriter")],
    observe=["as_nested_dicts of the parameters loaded back, exceptions"],
    level="proof", note="preparation of values and writing proved, for parameters of any size and depth, over the contract of PyYAML; round trips through real files bounded",
)
prop(
    "C24", "A program with a parameter file runs once with the file's parameters overridden by the command line",
    "For every parameter file (or parameters given by the caller) and sequence of -p options, the program's main function is called exactly once with the parameters unified with the options, in which dotted names address namespaces; a missing file or an option that conflicts with the structure of the parameters is an error before the program runs, and failures of the program are passed on. The root logging level is the one the parameters name (INFO by default), unknown levels are refused with a ParameterError, and a logging configuration file takes precedence; without one, messages of that level and above are shown on standard output, and the parameters are logged before the program runs.",
    ["inputs"], "all parameters and sequences of options, all levels",
    "tests run one program with one override",
    ["vistautils/parameters_only_entrypoint.py", "vistautils/logging_utils.py"],
    [("entry point", "vistautils/parameters_only_entrypoint.py:parameters_only_entry_point"), ("logging", "vistautils/logging_utils.py:configure_logging_from")],
    observe=["calls of main and their argument, exceptions, root logging level"],
    level="proof", note="order of the steps, arguments, failures and the configuration of logging proved over the contracts of the argument parser, loading and unification, for any parameters and options; whole programs with real files and command lines bounded",
)
