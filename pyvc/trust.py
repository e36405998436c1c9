"""What the checks assume without proving it (copied into every evidence file)."""

BASE = [
    "CPython 3.12 executes the repository's functions: the semantics of the language is the interpreter itself, not a model",
    "pyvc engine (/verif/pyvc): path exploration, symbolic proxies, loop and comprehension summaries, lazy instantiation of quantified hypotheses",
    "pyvc loader: mechanical AST rewriting at import of /repo's current source (boolean operators, `is`, chained comparisons, for-loops and comprehensions dispatch to the engine only when a symbolic proxy is involved); nothing is dropped from the source",
    "z3 4.x (Python API), with cvc5 and z3-new as fall-back back ends; thorough runs re-check a sample of the discharged obligations with cvc5",
]
LEVEL = {}
RANGES = [
    "elements of ranges form a total order with consistent <, == and hash (documented requirement of Range); encoded as integers, which is exact for quantifier-free order formulas",
    "attrs-generated __init__/__eq__/__hash__ run for real; hash of an opaque element is an uninterpreted function of the element",
    "text of error messages and of repr is not modelled in proofs (bounded runs execute it)",
]
SDICT = [
    "sortedcontainers.SortedDict is replaced in proofs by its documented contract (strictly increasing keys; bisect, irange, views, insertion, deletion, copy), of any size",
    "immutablecollections.immutableset / ImmutableSet.builder are replaced in proofs by their documented contract",
]
OPAQUE = [
    "elements are opaque objects: their own __eq__, __hash__, __bool__ are unknown pure functions; an input is never a bare object() which the code keeps to itself (a sentinel)",
    "text is modelled as a concatenation of literals, decimal integers, joined sequences and uninterpreted repr/str of opaque objects",
]
ITER = ["itertools.islice, itertools.chain.from_iterable and collections.deque are replaced in proofs by their documented contracts, for iterables of any length"]
PARAMS = [
    "Parameters objects are models: an unknown mapping from non-null strings and an unknown path; no object is both a Parameters and a Mapping; leaves are any objects",
    "mappings have any number of keys, enumerated in an arbitrary fixed order; str keys only; immutabledict is replaced by its documented contract; str.split, `in` and the predicates of str are uninterpreted functions with the axioms of their documentation",
    "str() and repr() of parameter values do not raise",
]
EXTRA = {
    "C09": OPAQUE + ["sorted() is a stable permutation by key, io.StringIO and itertools.chain as documented", "texts, labels and markers are opaque values compared by identity of their parts; slicing and concatenation of text as documented", "annotated_text is proved against the contracts of _clip and _tag_sequence, which C09.clip and C09.order prove", "the loop invariant of annotated_text names the local variable last_uncopied_offset; a renamed one leaves the proof undecided, not refuted"],
    "C11": OPAQUE + PARAMS + ["an enumeration is an unknown mapping from names to members (its documented contract)", "the typed accessors are proved against the contract of _private_get, which C11.lookup proves"],
    "C12": OPAQUE + PARAMS + ["the recursive call of unify is answered by the contract being proved (induction on the depth of nesting)"],
    "C13": OPAQUE + PARAMS + ["the recursive calls of from_mapping and dictify are answered by the contracts being proved (induction on the depth of nesting)"],
    "C14": [
        "nodes are strings, opaque values compared by ==; any number of nodes and edges",
        "immutablecollections.immutableset and ImmutableSetMultiDict (and its inverse) are replaced in proofs by their documented contracts: a set in order of first appearance, a relation with distinct values per key",
        "set.pop / list.pop take any member: proofs hold whichever node is taken first",
        "the number of predecessors not yet given is an integer per node, changed by one exactly when a predecessor is given (lemma C14.counting, proved by induction); termination of the sort is not proved",
        "the loop invariants name the local variables indegree_map, zero_indegree and node of topological_sort; when these cannot be found, the proof is reported undecided and the bounded contracts decide",
    ],
    "C15": OPAQUE + PARAMS + [
        "yaml.safe_load, pathlib, os.path.isabs, os.environ, re and files are answered in proofs by their documented contracts; bounded runs load real documents and files",
        "loading an included file is answered by the contract being proved (induction on the depth of inclusion; endless inclusion is not excluded); unify, from_mapping, lookup and the sort by those of C12, C13, C11, C14",
        "setting the value of a name in the nested mappings changes what that name leads to and no other name among those sorted; the references gathered are those of the document (both covered by bounded runs)",
        "the loop invariants name the variable previously_loaded; a renamed one leaves the proof undecided, not refuted",
    ],
    "C16": OPAQUE + [
        "zipfile.ZipFile is answered in proofs by its documented contract (named members; append, read, KeyError); bounded runs write and read real files",
        "an arbitrary state within a history is the state after entering with an arbitrary set of keys put in place of the one set the sink holds; the files there are those of its keys (the invariant which the proof preserves)",
        "keys are not empty and hold no line break, the filename function is injective and never gives the name of the key list; values survive encoding and decoding as UTF-8",
        "sep.join(xs).split(sep) is xs if xs is not empty and no element contains sep; iterating over a set of strings gives each once, in an arbitrary order",
    ],
    "C17": OPAQUE + [
        "tarfile, CharSource.from_file, ByteSource.from_file and read_doc_id_to_file_map are answered in proofs by their documented contracts; bounded runs read real files and archives",
        "a source beneath an interpretation is any object which keeps the contract of KeyValueSource for a mapping of any size",
        "the construction of sources from parameters and zip files is covered by bounded runs only",
    ],
    "C18": OPAQUE + [
        "the accessors of Parameters, key-value sources and sinks, random, argparse, tarfile, zipfile, os and pathlib are answered in proofs by their contracts (those of the library itself are properties C11, C16, C17, C21); bounded runs execute the programs whole, on real files",
        "shuffling is a permutation determined by the state of the generator and the length of the list; sorted() puts the keys in the order of strings",
        "sizes of slices: each slice in turn gets a key, so sizes differ by one at most (arithmetic of remainders, not proved by the solver); other ways of dealing out keys are left undecided by the proof",
        "the least position with a key is introduced as a ghost function by its definition (FIRST), for joining and explicit splits; loop invariants find the list and the set of keys by their type",
        "the key function of directories is taken from pathlib (name, stem); clashes are refused by the sink (property C16)",
    ],
    "C19": OPAQUE + [
        "open, gzip.open, tarfile, zipfile, io.StringIO/BytesIO/TextIOWrapper, os.path.getsize and pathlib.Path are answered in proofs by their documented contracts (a file holds bytes, text is those bytes decoded, a handle left is closed, opening for writing starts afresh); bounded runs use real files, under an ASCII locale",
        "text has no carriage returns; the encodings used give empty text exactly for no bytes (so no byte order mark alone)",
        "a path which is given is not also a ZipFile; str(path) read back gives an equal path",
        "docID maps: IDs and absolute paths without tabs, line breaks and outer white space survive the round trip; sorted() is a stable permutation in order",
    ],
    "C20": OPAQUE,
    "C21": OPAQUE + PARAMS + [
        "pathlib, shutil.rmtree and open are answered in proofs by their documented contracts on a disk of which the target and the directory above it are in any state (nothing, file, empty directory, directory with content, something else); bounded runs use real directories and symbolic links",
        "checkpoints: different names are different files of the directory (names which are legal file names), which nothing else changes; a history is any sequence of the operations proved from any state",
        "reading lines and unpickling are executed by bounded runs; ImmutableDict.builder is answered by its contract",
    ],
    "C22": OPAQUE + PARAMS + [
        "lookups are answered by the contract of _private_get, which C11.lookup proves; eval_in_context_of_modules, evaluate (for objects) and the splitting of qualified names are answered in proofs by their contracts; bounded runs evaluate real expressions",
        "factories are a class with from_parameters, a class without, a function, or none of these; what they make is any object; a Parameters object is truthy",
    ],
    "C23": OPAQUE + PARAMS + [
        "PyYAML's dump, given plain dictionaries, lists, strings, numbers, booleans and null, writes what its loader reads back as it was (its documented contract; bounded runs write and load real files, with texts that YAML would take for something else)",
        "CharSink.open is answered in proofs by its contract (property C19); recursive calls of the preparation are answered by the contract being proved (induction on the depth of nesting)",
    ],
    "C24": OPAQUE + PARAMS + [
        "argparse.ArgumentParser, YAMLParametersLoader.load, unify, from_key_value_pairs and existing_file are answered in proofs by their contracts (those of the library itself are properties C15, C12, C13, C21); the program is any function",
        "logging is answered in proofs by its documented contract (root logger, stream handlers, fileConfig); what is shown on standard output is executed by bounded runs",
    ],
    "C01": RANGES,
    "C02": RANGES,
    "C03": RANGES + SDICT,
    "C04": RANGES + SDICT,
    "C06": RANGES + SDICT + ["immutablecollections.immutabledict is replaced in proofs by a mapping of any size whose keys are the ranges of the map (construction from pairs is executed by bounded runs)"],
    "C08": SDICT + ["immutablecollections.ImmutableSetMultiDict is replaced in proofs by its documented contract: distinct keys, each with a nonempty set of items", "construction of an index from items is covered by bounded runs only (C08.build)"],
    "C10": OPAQUE + ITER + ["laziness on endless iterators is covered by bounded runs only (C10.lazy)"],
    "C05": RANGES + SDICT + ["hash of a tuple is an uninterpreted function of its elements"],
}


def assumptions(prop):
    return BASE + EXTRA.get(prop, []) + ASSUME.get(prop, [])


ASSUME = {
    "C07": ["span offsets are mathematical integers (Python ints)"],
}
