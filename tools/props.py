ENUM = "bounded exhaustive state enumeration of the real code against a reference model"
TECHNIQUE = {
    "": ENUM,
    "P18": "exhaustive enumeration of reader schedules (fragmentation, interruption, error at every read) on the real code",
    "P19": "exhaustive enumeration of server fault sequences on the real code",
    "P20": "exhaustive enumeration of crash points (every prefix of the file) on the real code",
    "P21": "exhaustive enumeration of byte corruptions within bounds on the real code",
    "P22": "exhaustive enumeration of sink faults (every byte position, every short-write schedule) on the real code",
}
NOT_APPLICABLE = []
NOTES = ("One engine (harness/) enumerates finite spaces of inputs, operation words and environment answers completely and runs "
         "every one of them on the real library and command line tool built from /repo's working tree; DESIGN.md gives space, "
         "oracle and bounds per property, known_findings.json the defects recorded and repaired.")
TRUST = " Assumes nothing beyond the reference model and cjseq's types; sizes and values outside the stated bounds are not covered."

prop("P01", "Geometry boundaries survive writing and reading exactly",
     "Every valid geometry of every CityJSON type, with its boundary nesting, vertex indices, level of detail and position in its object's geometry list, "
     "is read back from a written file exactly as it was given. This includes empty boundaries, single-part solids and multi-solids, inner rings and shells, "
     "and any number of geometries per object and objects per feature.",
     ["inputs"], "all boundary nestings of all eight geometry types up to a bounded number of leaves and every arrangement of types in a geometry list",
     "Unit tests round-trip a handful of fixed geometries; the nesting of parts, surfaces and rings is a product space in which single-child levels collapse silently.",
     ["writer/geom_encoder.rs", "reader/geom_decoder.rs", "writer/serializer.rs", "reader/deserializer.rs"],
     [("flattening of nested boundaries into counts", "writer/geom_encoder.rs encode"), ("rebuilding nested boundaries from counts", "reader/geom_decoder.rs decode")],
     "Every nesting shape within the bounds, on the real writer and reader; equality of the whole feature." + TRUST)

prop("P02", "Semantic surfaces survive writing and reading exactly",
     "Semantic surfaces of a geometry - their types including extension types, their order, their parent and children links and their own attributes - "
     "and the assignment of every surface (or none) are read back exactly as given.",
     ["inputs"], "all assignments of surfaces to semantics (including none) for all geometry types, all parent/child link structures over a few surfaces, all surface types",
     "Tests cover one or two semantic layouts; null assignments, repeated use and link structures multiply.",
     ["writer/geom_encoder.rs", "reader/geom_decoder.rs", "writer/serializer.rs", "reader/deserializer.rs"],
     [("semantic value flattening", "writer/geom_encoder.rs encode_semantics"), ("semantic value rebuilding", "reader/geom_decoder.rs decode_semantics")],
     "Every assignment and link structure within the bounds, on the real writer and reader." + TRUST)

prop("P03", "Materials and textures survive writing and reading exactly",
     "Material and texture themes of a geometry (single values, per-surface values with null entries, texture indices per ring) and the feature's own appearance definitions "
     "(materials, textures, texture vertices, default themes) are read back exactly as given, for every geometry type that can carry them.",
     ["inputs"], "all value assignments including null for every geometry type up to a bounded number of surfaces and rings, several themes at once, all subsets of optional members of the definitions",
     "Tests use one theme on one geometry; null entries, several themes and shallow solids are where nesting is lost.",
     ["writer/geom_encoder.rs", "reader/geom_decoder.rs", "writer/serializer.rs", "reader/deserializer.rs"],
     [("material and texture encoding", "writer/geom_encoder.rs encode_material/encode_texture"), ("material and texture decoding", "reader/geom_decoder.rs decode_materials/decode_textures")],
     "Every assignment within the bounds, on the real writer and reader." + TRUST)

prop("P04", "Attribute values survive writing and reading exactly",
     "Every attribute of a city object or semantic surface is read back under its name with the value it had, whatever the column types derived or declared, whatever the order of attributes, "
     "and whichever other objects have or lack the attribute; null attributes may be dropped, and no attribute appears that was not given.",
     ["inputs", "configurations"], "all combinations of up to several values over an alphabet of every JSON type and every numeric boundary, over several objects, with derived and with declared schemas of every column type",
     "Tests encode fixed attribute sets; the column type is decided by the first value seen, so the order in which kinds of values appear is decisive.",
     ["writer/attribute.rs", "reader/deserializer.rs", "writer/serializer.rs"],
     [("column type guess", "writer/attribute.rs guess_type/add_attributes"), ("attribute encoding", "writer/attribute.rs encode_attributes_with_schema"), ("attribute decoding", "reader/deserializer.rs decode_attributes")],
     "Every combination within the bounds; recorded findings cover 64-bit integers mixed with other numbers in semantic attributes and semantic attributes a declared schema cannot hold." + TRUST)

prop("P05", "City objects, hierarchy, instances and vertices survive exactly",
     "Every city object keeps its identifier, type (including extension types), extent, parents, children and children roles, its geometry instances with template, transformation and reference point, "
     "and its feature keeps its vertices, on reading back a written file. A vertex the format cannot store is reported as an error, not altered.",
     ["inputs"], "all subsets of optional members, all types, all link structures over a few objects, all boundary vertex coordinates",
     "Tests use a few real files that do not exercise absent, empty and extreme members.",
     ["writer/serializer.rs", "reader/deserializer.rs", "writer/feature_writer.rs"],
     [("city object encoding", "writer/serializer.rs to_city_object"), ("city object decoding", "reader/deserializer.rs to_cj_feature")],
     "Every member subset and value within the bounds; a recorded finding covers members of an object the format has no place for." + TRUST)

prop("P06", "Dataset metadata survives writing and reading exactly",
     "The dataset's version, transform, metadata (identifier, dates, title, extent, contact, address), reference system, extensions, geometry templates and appearance are read back as given, "
     "every optional member present if and only if it was present. The summary of the file tells its columns, their types, which of them can be queried, and the number of features.",
     ["inputs", "configurations"], "all subsets of optional members, all pairs of column types with every choice of indices, all reference systems of a grammar, transforms and extents over boundary numbers, templates of every type",
     "Tests check one metadata block; presence and absence of optional members is a power set.",
     ["writer/serializer.rs", "writer/header_writer.rs", "reader/deserializer.rs", "reader/meta.rs", "cj_utils.rs"],
     [("header encoding", "writer/serializer.rs to_fcb_header"), ("header decoding", "reader/deserializer.rs to_cj_metadata")],
     "Every subset and value within the bounds; recorded findings cover reference systems with another base URL or a non-integer version and further root members." + TRUST)

prop("P07", "A full read returns every feature once, in the written order",
     "Reading all features of a file returns each written feature exactly once, complete and unmixed: in insertion order when the file has no spatial index, and in one order shared by all readers otherwise. "
     "The number of features the header states is the number added, whatever the caller announced.",
     ["inputs", "configurations"], "all feature counts over tree-level boundaries, all small words of feature kinds, all index configurations, announced counts and reading modes",
     "Tests read one or two files with fixed counts and options.",
     ["writer/mod.rs", "writer/feature_writer.rs", "reader/mod.rs", "http_reader/mod.rs", "packed_rtree/mod.rs"],
     [("writing of features in index order", "writer/mod.rs write"), ("sequential delivery", "reader/mod.rs FeatureIter"), ("remote delivery", "http_reader/mod.rs AsyncFeatureIter")],
     "Every configuration and count within the bounds, in all three reading modes." + TRUST)

prop("P08", "A file is laid out as documented and written deterministically",
     "A written file consists of the documented magic bytes, a header, the spatial index, the attribute indices and the features, with exactly the sizes the header implies and nothing in between or after, "
     "and every offset an index holds is the start of the feature it stands for. Writing the same dataset twice gives the same bytes.",
     ["inputs", "configurations"], "all combinations of index options, branching factors and feature counts across tree-level boundaries",
     "Tests read files back with the same library, so writer and reader can agree on a wrong layout.",
     ["writer/mod.rs", "writer/header_writer.rs", "writer/attr_index.rs", "packed_rtree/mod.rs", "static_btree/stree.rs", "const_vars.rs", "lib.rs"],
     [("section order and sizes", "writer/mod.rs write"), ("tree size", "packed_rtree/mod.rs index_size"), ("attribute index size", "static_btree/stree.rs")],
     "An independent parser of the layout checks every file of the enumerated configurations." + TRUST)

prop("P09", "A box or point query returns exactly the features that intersect",
     "For every dataset with a spatial index and every query box or point, a spatial query returns exactly the features whose bounding rectangle intersects it, borders included, each once, in file order, "
     "and reports that number; the result is the same from a seekable file, a stream and a remote file.",
     ["inputs"], "all pairs of boxes over a grid, all words of feature kinds, feature counts over tree-level boundaries, and all query boxes and points on grid and half-grid lines",
     "Tests check a few boxes on one file; borders, empty features and node boundaries are combinations.",
     ["packed_rtree/mod.rs", "writer/feature_writer.rs", "writer/mod.rs", "reader/mod.rs", "http_reader/mod.rs"],
     [("bounding rectangles of features", "writer/feature_writer.rs"), ("search", "packed_rtree/mod.rs search/stream_search/http_stream_search")],
     "Brute-force intersection over the features themselves, every dataset and query within the bounds, in three modes." + TRUST)

prop("P10", "A nearest-point query returns one nearest feature",
     "For every non-empty dataset with a spatial index and every query point, a nearest query returns exactly one feature, whose bounding rectangle's centre is at minimal distance from the point, "
     "from a seekable file, a stream and a remote file.",
     ["inputs"], "all words of feature rectangles, feature counts over tree-level boundaries and arrangements, all query points of a grid",
     "Tests check one or two points on one file; pruning errors need a particular arrangement of nodes.",
     ["packed_rtree/mod.rs", "reader/mod.rs", "http_reader/mod.rs"],
     [("branch and bound search", "packed_rtree/mod.rs PointNearest")],
     "Brute-force minimum over all features, every dataset and point within the bounds, in three modes." + TRUST)

prop("P11", "The packed R-tree is a correct search structure on its own",
     "For every set of rectangles and every node size, the built tree answers every query with exactly the items that intersect it, from memory, from its serialized bytes, through a seekable stream and remotely; "
     "its serialized size is the size it states, and ordering items along the space-filling curve only permutes them.",
     ["inputs", "configurations"], "all small sets of rectangles, item counts across level boundaries for several node sizes, all queries of a grid, all extents",
     "Tests sample random rectangles with one node size.",
     ["packed_rtree/mod.rs"],
     [("level bounds", "packed_rtree/mod.rs generate_level_bounds"), ("search variants", "packed_rtree/mod.rs search/stream_search/http_stream_search"), ("space-filling order", "packed_rtree/mod.rs hilbert")],
     "Brute force over the items, every set, node size and query within the bounds, in every form of the tree." + TRUST)

prop("P12", "The attribute index answers lookups like a sorted list in every form",
     "For every multiset of keys of every key type and every branching factor, an attribute index answers exact lookups, ranges, all six comparison operators and conjunctions of conditions exactly as a sorted list would, "
     "equally from memory, through a seekable stream and over range requests, with every stored offset found exactly once.",
     ["inputs", "configurations"], "all numbers of distinct keys across tree-level boundaries, multiplicities, branching factors and key types; all bounds, present and absent; all pairs of conditions",
     "Tests use a few key sets and branching factors; node boundaries, duplicates and absent bounds combine.",
     ["static_btree/stree.rs", "static_btree/entry.rs", "static_btree/payload.rs", "static_btree/query/memory.rs", "static_btree/query/stream.rs", "static_btree/query/http.rs"],
     [("lookup and range descent", "static_btree/stree.rs find_exact/find_range"), ("duplicates", "static_btree/payload.rs"), ("operators and conjunctions", "static_btree/query")],
     "A sorted list is the model; every index and condition within the bounds in every form. A recorded finding covers the legacy in-memory closed range, which existing unit tests pin." + TRUST)

prop("P13", "Index keys keep their value and order through storage",
     "Every key of every key type is read back from its stored form as the same key, stored forms have the fixed size of their type, and comparing keys orders them as their values are ordered - "
     "numbers including infinities and NaN as a total order, booleans, dates across all years, and strings by their bytes.",
     ["inputs"], "every value of the 8-bit and 16-bit types, boundary values of wider ones, dates over all eras and resolutions, all short strings over a small alphabet around the padding length; all pairs of them",
     "Tests check one or two values per type.",
     ["static_btree/key.rs", "static_btree/entry.rs"],
     [("serialization", "static_btree/key.rs write_to/read_from/from_bytes"), ("order", "static_btree/key.rs Ord")],
     "All values of the small types and all pairs of a boundary alphabet for the others." + TRUST)

prop("P14", "An attribute query returns exactly the features that satisfy its condition",
     "For every column type, operator and query value, a query on an indexed attribute returns exactly the features that have an object whose value satisfies the condition, each once, in file order, and reports that number. "
     "Objects that lack the attribute or hold null never match, and an attribute that is not indexed is refused with an error.",
     ["inputs", "configurations"], "all words of attribute values (including absent, null and misfitting) over features and objects, for every column type, all operators and query values, all branching factors",
     "Tests query a few values on one file.",
     ["writer/attr_index.rs", "writer/attribute.rs", "writer/mod.rs", "reader/attr_query.rs", "http_reader/mod.rs", "static_btree/query/memory.rs", "static_btree/query/stream.rs", "static_btree/query/http.rs"],
     [("index building", "writer/attr_index.rs build_attribute_index_for_attr"), ("query", "reader/attr_query.rs select_attr_query/_seq"), ("remote query", "http_reader/mod.rs select_attr_query")],
     "Brute force over the features as they were given; every word, operator and value within the bounds, in three modes." + TRUST)

prop("P15", "Several conditions select exactly the features that satisfy all of them",
     "A query with several conditions, on the same or different attributes, returns exactly the features that satisfy every condition, whatever the order of the conditions and however many objects of a feature match, "
     "each feature once and in file order. A query with a condition that cannot be answered (no such attribute, no index, a value of another type) is refused wherever that condition stands.",
     ["inputs"], "all ordered pairs and triples of conditions over a small alphabet, over datasets in which features hold several objects",
     "Tests query two conditions on one file.",
     ["reader/attr_query.rs", "http_reader/mod.rs", "static_btree/query/memory.rs", "static_btree/query/stream.rs", "static_btree/query/http.rs"],
     [("intersection of results", "static_btree/query/*.rs query")],
     "Brute-force intersection; every ordered tuple of conditions within the bounds, in three modes." + TRUST)

prop("P16", "All ways of reading a dataset give the same answer wherever it lies",
     "A seekable file, a forward-only stream and a remote file give the same features in the same order with the same count for every selection, whatever sections the file has, in whatever order its attributes are declared and indexed, "
     "and also when the seekable dataset does not start at the beginning of its stream or other data follows.",
     ["inputs", "configurations"], "all combinations of indices (order, number, column order), selections, preceding and following bytes",
     "Tests exercise one reader at a time on files starting at zero.",
     ["reader/mod.rs", "reader/attr_query.rs", "http_reader/mod.rs", "static_btree/query/stream.rs"],
     [("section offsets", "reader/mod.rs rtree_index_size/attr_index_size"), ("attribute index offsets", "reader/attr_query.rs")],
     "Differential over the reading modes and against the given features, every configuration within the bounds." + TRUST)

prop("P17", "Remote reading asks for what it needs and copes with any delivery",
     "A remote reader returns the same features whatever the server's timing and whatever ranges get combined, never starts a request beyond the end of the file, never asks for a feature's bytes twice, "
     "and reads at most a bounded amount beyond the sections and features a selection needs.",
     ["inputs", "configurations", "schedules"], "all selections over files with gaps below and above the merging thresholds, all pending patterns of the answers",
     "Network tests are not run; a mock with one file cannot show which ranges are requested.",
     ["http_reader/mod.rs", "packed_rtree/mod.rs", "static_btree/query/http.rs", "static_btree/stree.rs"],
     [("batching of feature ranges", "http_reader/mod.rs FeatureBatch"), ("merging of node ranges", "packed_rtree/mod.rs http_stream_search")],
     "Every request is recorded by an in-memory server and compared with the layout; every configuration within the bounds." + TRUST)

prop("P18", "Delivery of the bytes never changes what is read, and read errors surface",
     "A reader that delivers its bytes in any fragments, or is interrupted, yields exactly the features it yields when delivering everything at once. "
     "An input error at any point surfaces as an error of the running call: never as an early end, an altered feature or a panic.",
     ["schedules", "fault_sequences"], "every position of a short read, interruption or error in the reader's call sequence, every fixed fragment size, all selections and modes",
     "Tests read from buffered files that never deliver short or fail.",
     ["reader/mod.rs", "reader/attr_query.rs", "packed_rtree/mod.rs", "static_btree/query/stream.rs", "static_btree/stree.rs"],
     [("reading loops", "reader/mod.rs read_feature/read_feature_size"), ("skipping", "reader/mod.rs advance_seq")],
     "A scripted reader deviates at every call in turn, and at every pair of calls for small files; every outcome compared with the undisturbed one." + TRUST)

prop("P19", "Remote failures surface and never garble or lose features",
     "A failing or truncated answer to any request makes the running call fail; features delivered before are right, and no call returns a wrong feature, skips one or ends early because of the failure. "
     "Repeating a failed step when the server works again delivers the feature that had failed, and then the rest.",
     ["fault_sequences"], "every request of every selection failing by status, transport or truncation at boundary lengths, once, permanently, and with retry",
     "Network failures cannot be provoked in the existing tests.",
     ["http_reader/mod.rs", "packed_rtree/mod.rs", "static_btree/query/http.rs", "static_btree/stree.rs"],
     [("batch state", "http_reader/mod.rs FeatureBatch/SelectAttr/SelectAll next"), ("exact responses", "http_reader/mod.rs get_exact")],
     "Every request index times every fault, on the real client over an in-memory server." + TRUST)

prop("P20", "A truncated file is never taken for a complete one",
     "Whatever prefix of a file remains, opening and reading it - all features or any query - either fails with an error or, when everything the call needs is there, gives the complete right answer; "
     "features delivered before the error are right. It never panics and never silently ends early.",
     ["crash_points"], "every proper prefix of files with every combination of sections, for every selection and reading mode",
     "No test truncates a file.",
     ["reader/mod.rs", "reader/attr_query.rs", "http_reader/mod.rs", "packed_rtree/mod.rs", "static_btree/query/stream.rs", "static_btree/query/memory.rs"],
     [("end detection", "reader/mod.rs read_feature_size"), ("section reading", "packed_rtree/mod.rs from_buf")],
     "Every prefix of every file within the bounds, in three modes." + TRUST)

prop("P21", "Corrupt input is refused or read, but never crashes",
     "Whatever bytes a file holds - any magic, sizes, header, index or feature content - opening, querying and decoding it with verification ends in a result or an error: no panic, no endless loop and no unbounded memory. "
     "Wrong magic bytes and impossible header sizes are always refused.",
     ["inputs"], "every single-byte, 4-byte and 8-byte change by a set of values at every position of small files with every section, pairs of header words over boundary values, every selection in three modes, and the command line tool on the changed files",
     "No test corrupts a file.",
     ["reader/mod.rs", "reader/deserializer.rs", "reader/geom_decoder.rs", "reader/attr_query.rs", "http_reader/mod.rs", "packed_rtree/mod.rs", "static_btree/stree.rs", "static_btree/payload.rs", "static_btree/key.rs"],
     [("verification", "reader/mod.rs read_header/read_feature"), ("decoding", "reader/deserializer.rs, reader/geom_decoder.rs")],
     "Every enumerated corruption on the real readers, in three modes." + TRUST)

prop("P22", "A failing or slow output never yields a file taken for complete",
     "When the output refuses bytes at any point, writing reports an error; when it accepts them in any fragments or with interruptions, the file is byte for byte the same. "
     "Failing to add a feature leaves the writer able to write the features accepted before.",
     ["fault_sequences", "schedules"], "an error at every byte of the output, every fixed fragment size, interruptions and zero-length writes at every call, rejected features at every position",
     "Tests write to memory, which never fails.",
     ["writer/mod.rs", "writer/header_writer.rs", "writer/attr_index.rs", "packed_rtree/mod.rs", "static_btree/stree.rs", "static_btree/key.rs"],
     [("section writing", "writer/mod.rs write"), ("tree writing", "packed_rtree/mod.rs stream_write")],
     "Every fault position of the enumerated files on the real writer." + TRUST)

prop("P23", "Iterators follow one protocol in every mode",
     "Advancing an iterator moves through the selected features one by one, the current feature stays the same until the next advance however often it is looked at, the end is reported again and again once reached, "
     "and the reported total is the number of features the iteration delivers, before, during and after it.",
     ["histories"], "every word of advance, look and count operations up to a length, for every selection size and reading mode",
     "Tests only loop to the end once.",
     ["reader/mod.rs", "http_reader/mod.rs", "reader/city_buffer.rs"],
     [("iteration state", "reader/mod.rs FeatureIter advance/get"), ("remote iteration state", "http_reader/mod.rs AsyncFeatureIter next")],
     "Every operation word up to the bound against a list with a cursor, in three modes." + TRUST,
     state=[("state", "where the iteration stands", CORE + "reader/mod.rs State")])

prop("P24", "The command line tool converts to FlatCityBuf and back without loss",
     "Serializing a CityJSON text sequence with the command line tool and deserializing the result gives the same metadata and the same features, through files and through standard streams, with any combination of options; "
     "output on standard output holds the result and nothing else.",
     ["inputs", "configurations"], "all combinations of options and of input and output channels over several small datasets",
     "The command line tool has no tests.",
     ["src/rust/cli/src/main.rs"], [("serialize", "cli/src/main.rs serialize"), ("deserialize", "cli/src/main.rs deserialize")],
     "The real binary built from the working tree is run for every combination." + TRUST)

prop("P25", "Command line options select what they say, and failures are reported",
     "With a bounding box the tool keeps every feature that has a vertex in it and none whose bounding rectangle misses it, with attribute options the named attributes can be queried, and the summary it prints is that of the file. "
     "Unreadable, malformed or truncated input and unwritable output end with a failure status and a message, never with success or a crash.",
     ["inputs", "configurations", "fault_sequences"], "all boxes of a grid, all attribute options, malformed lines at every position, every prefix of a file",
     "The command line tool has no tests.",
     ["src/rust/cli/src/main.rs"], [("options", "cli/src/main.rs"), ("selection", "cli/src/main.rs serialize")],
     "The real binary built from the working tree is run for every combination." + TRUST)

prop("P26", "CityJSON text input is read the same however it is laid out and delivered",
     "A CityJSON text sequence is read as its metadata and its features in order, whatever blank lines, line endings and final newline it has and in whatever fragments it arrives; "
     "a line that is not what it should be is reported as an error and never skipped (a blank line is either ignored or reported, and alters nothing else).",
     ["inputs", "schedules"], "all words of line kinds up to a length, all line endings, all fragment sizes",
     "Tests read two well-formed files.",
     ["cj_utils.rs", "cjerror.rs"], [("line reading", "cj_utils.rs read_cityjson_from_reader")],
     "Every word of lines up to the bound under every fragmentation, against a reference classifier." + TRUST)

prop("P27", "With the spatial index, features are stored along a space-filling curve",
     "A file written with the spatial index stores its features along a Hilbert curve over the centres of their bounding boxes, whatever order they were given in, however large the boxes are and whatever the transform: "
     "on a full grid each feature is stored next to a neighbour and each quarter of the grid is stored as one piece, at every level, and any set of features that spans the same extent keeps that order. Without the index the features stay in the order given.",
     ["inputs", "configurations"], "full grids of several sizes, several orders of insertion, transforms and box sizes; all sets of cells that span a grid",
     "No test looks at where a feature is stored; a broken curve still answers every query, only slower over the network.",
     ["packed_rtree/mod.rs", "writer/mod.rs"],
     [("space-filling order", "packed_rtree/mod.rs hilbert/hilbert_sort"), ("order of the features in the file", "writer/mod.rs")],
     "Every grid, order and set within the bounds: adjacency and quarter-by-quarter filling of the order really stored." + TRUST)

prop("P28", "The reader for browsers delivers what the library does",
     "The reader offered to JavaScript delivers the same metadata, features, order and counts as the library: for a whole file, for boxes, points and nearest searches, and for attribute queries, "
     "each of which is answered as it says - whatever JavaScript value it compares with - or refused. Failed and short responses surface as errors and a retry delivers the rest; "
     "truncated and damaged files end in an error or a result, never a panic; and the conversions to CityJSON and OBJ keep every object.",
     ["inputs", "fault_sequences", "histories"], "sizes over tree levels x selections; 45 JavaScript values x operators x column types; every failing request and every set of the first requests; every prefix and blocks of damage; words of features to merge",
     "The browser crate is not even built by the tests.",
     ["src/rust/wasm/src/lib.rs", "src/rust/wasm/src/gloo_client.rs"],
     [("opening, selecting and iterating", "wasm/src/lib.rs HttpFcbReader, AsyncFeatureIter"), ("requests", "wasm/src/gloo_client.rs"), ("conversion of queries", "wasm/src/lib.rs js_to_query")],
     "The real sources of the reader run natively with stand-ins for the JavaScript side, against the library and brute force." + TRUST)

prop("P29", "Ill-formed features are refused or written, and never harm the others",
     "A feature or metadata that can be parsed but is not what CityJSON asks for (boundaries of the wrong depth, vertices without three coordinates, instances without template or matrix, "
     "attributes or semantics of unexpected shape, links to nothing, and the like) is either refused with an error or written; writing it never panics, and a file that was written can be read to its end. "
     "Every well-formed feature next to it is read back complete and is found by the queries that should find it, and the command line tool ends with a status and a message.",
     ["inputs"], "all nestings of arrays as boundaries, semantics and appearance values of every geometry type up to a bounded number of nodes, every kind of JSON value in every place, next to well-formed features",
     "Tests only write well-formed features; real files contain the others, and one of them must not cost the rest.",
     ["writer/mod.rs", "writer/serializer.rs", "writer/geom_encoder.rs", "writer/attribute.rs", "reader/deserializer.rs", "reader/geom_decoder.rs", "cli/src/main.rs"],
     [("accepting or refusing features", "writer/mod.rs FcbWriter::add_feature, write"), ("encoding of unexpected nesting", "writer/geom_encoder.rs encode"), ("columns of unexpected attributes", "writer/attribute.rs add_attributes")],
     "Every ill-formed value within the bounds, on the real writer, reader and tool, judged by the well-formed neighbours and the absence of panics." + TRUST)

prop("P30", "Files are in the published format, and every file in it is read",
     "What the writer produces is a file of the published format that says what the input says: other programs, following the schemas and the documented layout, read the same metadata, features, attributes and indices from it. "
     "And a file of that content written by another program in any way the format allows (order of members and of tables, shared or separate vtables, default values written or left out, members of a later version of the schema, columns per object) is read, in every mode, as the same content, and answers queries the same.",
     ["inputs", "configurations"], "every file of the explorations of P01-P07, P09 and P14-P16; 256 ways of writing",
     "Tests write and read with the same code, so that a change made to both sides goes unnoticed, though it makes the files unreadable for every other program and every file written before.",
     ["fb/header_generated.rs", "fb/feature_generated.rs", "fb/geometry_generated.rs", "writer/mod.rs", "writer/serializer.rs", "writer/attribute.rs", "reader/deserializer.rs", "static_btree/stree.rs", "packed_rtree/mod.rs", "const_vars.rs"],
     [("members and values of the schema", "fb/*_generated.rs"), ("layout of the file", "writer/mod.rs FcbWriter::write"), ("encoding of attributes", "writer/attribute.rs encode_attributes_with_schema"), ("encoding of the attribute index", "static_btree/stree.rs, key.rs")],
     "Every file explored is decoded by an independent implementation of the schemas and layout and compared with its input; the same content, written by that implementation, is then read and queried by the library." + TRUST)

prop("P31", "Local reading touches only what it needs and holds only what it is at",
     "Opening a local file reads its header and no more. Selecting features of a seekable source reads, of the indices, only the nodes on the way to the answer - "
     "the groups of the spatial index whose parent meets the query, the ways down to the ends of a range of an attribute and what lies in between - and reads no features; "
     "each feature delivered is then read once, and no other. A source that can only be read forward is read once from front to back and never past the last feature delivered. "
     "The memory held while reading does not grow with the number of features beyond the indices and results.",
     ["inputs", "configurations"], "all file sizes over the levels of both indices x feature sizes x key distributions x every kind of selection, every read of the source watched",
     "Tests look at what is delivered; a query that reads the whole index or file delivers the same, though the format exists to avoid it.",
     ["packed_rtree/mod.rs", "static_btree/stree.rs", "reader/mod.rs", "reader/attr_query.rs"],
     [("search of the spatial index", "packed_rtree/mod.rs stream_search"), ("search of an attribute index", "static_btree/stree.rs stream_find_exact/stream_find_range"), ("seeking to selected features", "reader/mod.rs FeatureIter")],
     "Every read of every selection within the bounds, compared with the nodes the answer needs by an independent walk of the index." + TRUST)
