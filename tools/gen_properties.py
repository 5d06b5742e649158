#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
S = "src/geoarrow/"

prop("C01", "Readers deliver one well-nested feature per element, whatever the source",
 "Whenever a reader (WKT text, WKB bytes, any native array, any element range of it) reports success, the visitor saw exactly one feature per requested element in order: feature start, then either one null marker (exactly for null elements) or one geometry, then feature end. "
 "Within a geometry every start has its matching end, rings occur only directly inside polygons, children of a multi-geometry are the parts its source announces, coordinates occur only inside points, linestrings and rings, and every coordinate batch has exactly as many ordinates as the dimensions announced for the enclosing geometry. "
 "If the visitor or the input makes a reader stop early, what was delivered is a prefix of such a stream and the reader returns that same non-zero code.",
 ["inputs", "histories"], "for every source encoding, every geometry and array (including empties, nulls, slices, malformed input) and every point at which a visitor aborts",
 "tests compare the events of a few dozen literals; they never vary chunk boundaries, slices x nesting x nulls, or abort at every callback",
 [S+"wkt_reader.c", S+"wkb_reader.c", S+"geometry.c", S+"array_view.c", S+"array_reader.c"],
 [("event emission per native type", "array_view.c: GeoArrowArrayViewVisitNative"), ("node walk", "geometry.c: GeoArrowGeometryViewVisit"), ("recursive descent", "wkt_reader.c: ReadTaggedGeometry")],
 observe=["a recording visitor"])

prop("C02", "WKB output is exactly the ISO encoding of every feature delivered",
 "For every sequence of features given to the WKB writer (as events with any chunking and any memory layout of the coordinates, as whole-geometry views, or as nulls), element i of the finished array is byte for byte the ISO WKB of feature i: nested headers with the right type/dimension code, child and coordinate counts equal to what was delivered, empty points as NaN. "
 "Null features are null, occupy no bytes, and the reported null count, offsets and length are consistent.",
 ["inputs", "histories"], "for every geometry tree, nesting depth up to the supported maximum, chunking of coordinates, coordinate stride, and position of nulls",
 "tests check single literals mostly with one coords() call; counts are patched after the fact and depend on the whole history of nested starts and ends",
 [S+"wkb_writer.c", S+"geoarrow_type_inline.h"],
 [("count back-patching by level", "wkb_writer.c: geom_end_wkb/ring_end_wkb"), ("sequence write with endian/stride", "geoarrow_type_inline.h: GeoArrowGeometryNodeWriteSequence"), ("lazy validity bitmap", "wkb_writer.c: feat_end_wkb")])

prop("C03", "WKT output is the canonical text of every feature delivered",
 "For every sequence of features given to the WKT writer, with any chunking of coordinates, element i of the finished array is the canonical WKT of feature i: type word, dimension word, EMPTY for anything with no parts, one parenthesis level per nesting level, ', ' separators, flat or nested multipoints as requested. "
 "Null features are null, zero-length elements and neighbouring elements are unaffected.",
 ["inputs", "histories"], "for every geometry tree, dimension, chunking, writer option and null position",
 "tests cover one literal per type; separators and EMPTY depend on per-level counters across chunked calls and mixed empty/non-empty parts",
 [S+"wkt_writer.c"],
 [("per-level part counters", "wkt_writer.c: geom_start_wkt/coords_wkt/ring_end_wkt"), ("flat multipoint", "wkt_writer.c: coords_wkt/geom_end_wkt")])

prop("C04", "Native arrays hold exactly the coordinates and part structure delivered",
 "For every native type and every sequence of representable features written to it, the finished array is valid Arrow data (offsets start at 0, never decrease, end at the child length; buffers large enough; null count and bitmap agree) and reading it back yields the same coordinates in the same order with the same part boundaries. "
 "A simple geometry written to the corresponding multi type becomes a one-part multi, a one-part multi written to the simple type becomes that part, empty points become NaN coordinates, and nulls stay null.",
 ["inputs", "histories"], "for every native type (geometry kind x dimensions x interleaved/separated), feature sequence, chunking and null placement",
 "tests write a handful of features per type; offsets are produced by four state machines whose state survives across features",
 [S+"native_writer.c", S+"builder.c"],
 [("visitor state machines", "native_writer.c: *_point/_multipoint/_multilinestring/_multipolygon handlers"), ("geometry append", "native_writer.c: GeoArrowNativeWriterAppend"), ("length inference", "builder.c: GeoArrowBuilderFinish")])

prop("C05", "WKT input accepts exactly well-formed text and decodes it faithfully",
 "Text is accepted exactly when it is well-formed WKT (type word, optional Z/M/ZM, EMPTY or parenthesised content matching the type, every coordinate with the announced number of well-formed numbers, nothing but whitespace after), up to the supported nesting depth; any other text is refused with an error. "
 "For accepted text the visitor receives precisely the numbers written, in order, independent of the amount and kind of whitespace, of flat or nested multipoint form, and of how many coordinates a sequence has.",
 ["inputs"], "for every token sequence, whitespace placement, coordinate count (around the internal batch size) and input length",
 "tests check some accepted literals and some rejected ones; a grammar has unboundedly many near-misses, and batching only shows beyond 64 coordinates",
 [S+"wkt_reader.c", S+"double_parse_fast_float.cc", S+"double_parse_std.c"],
 [("recursive descent parser", "wkt_reader.c"), ("coordinate batch flush", "wkt_reader.c: ReadCoordinate/FlushCoordCache"), ("number parsing", "GeoArrowFromChars")])

prop("C06", "All WKB dialects of a geometry decode to the same geometry",
 "Any WKB encoding of a geometry - either byte order, chosen independently for every nested part, ISO or EWKB dimension flags, with or without SRID - is read as the same geometry: same types, dimensions, part counts and bit-identical coordinates, both when visited and when read as a geometry view that is then visited, copied or re-encoded.",
 ["inputs"], "for every geometry tree and every assignment of byte order / dialect / SRID to its parts, at every coordinate count around internal chunk sizes",
 "tests read a few little/big-endian literals; swapping is applied per sequence, chunk and consumer, so the combinations grow exponentially",
 [S+"wkb_reader.c", S+"geometry.c", S+"geoarrow_type_inline.h"],
 [("header decode", "wkb_reader.c: WKBReaderReadNodeGeometry"), ("byte swap at consumption", "geometry.c: GeoArrowGeometryVisitSequence, geoarrow_type_inline.h"), ("chunking", "geometry.c")])

prop("C07", "Damaged WKB is refused without touching memory outside the input",
 "Every strict prefix of a WKB value, and every value whose counts promise more data than is present, whose byte-order or type code is invalid, or whose nesting exceeds the supported depth, is refused with an error, and no byte outside the supplied buffer is read. "
 "After a refusal the same reader decodes the next value as if the refused one had never been seen.",
 ["inputs", "fault_sequences"], "for every truncation point and every header/count corruption of every geometry tree, and every interleaving with good values",
 "tests try a few truncations of single-part values, never with an exact-size heap buffer under a sanitizer",
 [S+"wkb_reader.c", S+"hpp/wkb_util.hpp"],
 [("remaining-bytes checks", "wkb_reader.c: WKBReaderReadEndian/ReadUInt32/ReadNodeCoordinates"), ("depth limit", "wkb_reader.c")])

prop("C08", "Conversion between any two encodings preserves geometry",
 "Reading an array of one encoding (WKT, WKB, any native type) and writing it to any other encoding that can represent its geometries gives an array of the same length whose every element is null exactly where the input was and otherwise the same geometry; converting back, or along any longer chain of such encodings, gives the original again up to the documented normalisations (empty parts dropped or NaN points in native types, simple/one-part-multi promotion).",
 ["inputs", "histories"], "for every chain of encodings and every array representable along it",
 "tests convert file fixtures WKT<->WKB; the pairwise combinations of reader x writer x dimension x nulls are not enumerated",
 [S+"array_reader.c", S+"array_writer.c", S+"wkt_reader.c", S+"wkb_reader.c", S+"native_writer.c", S+"wkt_writer.c", S+"wkb_writer.c"],
 [("reader dispatch", "array_reader.c: GeoArrowArrayReaderVisit"), ("writer dispatch", "array_writer.c: GeoArrowArrayWriterInitVisitor")])

prop("C09", "A slice is the same as the elements it covers",
 "Viewing an array through an offset and length (on the top-level array, on nested children, or as an element range passed when visiting, in any combination, also when buffers are shared with other slices) yields exactly the features a compact array holding only those elements would yield, including nulls; ranges outside the array are never read.",
 ["inputs", "histories"], "for every array type, every offset/length window, every child offset, and every sub-range visited",
 "tests slice one offset per type; offsets are applied at up to four nested levels plus the validity bitmap",
 [S+"array_view.c", S+"array_reader.c", S+"hpp/array_reader.hpp"],
 [("offset bookkeeping", "array_view.c: GeoArrowArrayViewSetArray*"), ("visitation windows", "array_view.c: GeoArrowArrayViewVisitNative*"), ("serialized slices", "array_reader.c")])

prop("C10", "Finishing a writer starts a fresh, independent batch",
 "After finishing, a writer (WKT, WKB, native, dispatching writer, raw builder) behaves as if newly created with the same options: each finished array contains exactly the features appended since the previous finish, nothing from an earlier batch changes or reappears, and earlier arrays stay valid and unchanged after the writer continues or is destroyed. "
 "Splitting a feature sequence into batches at any positions and concatenating the results equals writing it as one batch.",
 ["histories"], "for every feature sequence (with nulls) and every placement of finish calls, including empty batches",
 "tests finish a writer once or twice in a fixed pattern; leftovers (bitmap, offsets, counters) only show in particular sequences",
 [S+"wkt_writer.c", S+"wkb_writer.c", S+"native_writer.c", S+"builder.c", S+"array_writer.c"],
 [("state reset at finish", "*Finish"), ("buffer hand-over", "ArrowArraySetBuffer / builder.c")])

prop("C11", "Geometry objects replay and copy exactly what they were built from",
 "A geometry built from visitor events, copied deeply or shallowly any number of times into fresh or previously used objects, yields on visiting exactly the original geometry, including empty parts at any level, all dimensions, byte-swapped or strided coordinates, and more than one chunk of coordinates. "
 "A deep copy is independent of its source; a sequence of nodes whose sizes promise more or fewer nodes than are present is refused without reading outside it.",
 ["inputs", "histories"], "for every geometry tree, layout, copy chain and reuse of the destination",
 "tests build and copy a couple of geometries; node sizes and coordinate pointers are filled in after the fact and depend on the whole tree",
 [S+"geometry.c", S+"geoarrow_type_inline.h"],
 [("node and coordinate back-patching", "geometry.c: feat_end_geometry"), ("deep copy", "geometry.c: GeoArrowGeometryDeepCopy"), ("node walk", "geometry.c: GeoArrowGeometryVisitNode")])

prop("C12", "A refused element leaves the other elements untouched",
 "When writing an element is refused (wrong type or dimension kind for the target, nesting too deep, part after a finished simple geometry, unreadable text or bytes), the call reports an error; a refused whole-geometry append changes nothing that can be observed in the finished array, and features completed before the refused one are still exactly as written. "
 "Features written after a refused one are stored exactly, each at its own position.",
 ["histories", "fault_sequences"], "for every sequence mixing acceptable and refused features, by either append interface, for every writer",
 "tests check the error code of single refused features and then discard the writer",
 [S+"native_writer.c", S+"wkb_writer.c", S+"wkt_writer.c"],
 [("type checks before mutation", "native_writer.c: GeoArrowNativeWriterAppend"), ("feature rollback at feat_start/feat_end", "native_writer.c")])

prop("C13", "Visitor calls in an unexpected order are survivable",
 "Whatever order the callbacks of a writer or geometry-building visitor are called in - missing starts or ends, ends without starts, rings outside polygons, coordinates at top level, nesting beyond the limit, calls after an error - no call crashes or touches memory it does not own, and the writer can still be finished into a structurally valid array or destroyed.",
 ["histories"], "for every sequence of visitor callbacks",
 "tests call a few callbacks out of order; the writers keep level-indexed tables addressed by a counter that such sequences drive out of range",
 [S+"wkb_writer.c", S+"wkt_writer.c", S+"native_writer.c", S+"geometry.c", S+"kernel.c"],
 [("level checks", "WKTWriterCheckLevel / WKBWriterCheckLevel / geometry.c")])

prop("C14", "Dimension changes drop or NaN-fill ordinates by meaning",
 "When coordinates of one dimension kind are written to, or mapped onto, another, X and Y are always kept, a Z or M present in both is carried to the slot with the same meaning, ordinates absent from the target are dropped, and those absent from the source become NaN - never a Z taken for an M or the reverse - in every writing path.",
 ["inputs"], "for all 16 source/target dimension pairs in every path that accepts them, for every coordinate count",
 "tests try a few pairs per path; each path has its own mapping code",
 [S+"native_writer.c", S+"geoarrow_type_inline.h", S+"geoarrow.h", S+"builder.c"],
 [("coordinate mapping", "geoarrow_type_inline.h: GeoArrowMapDimensions, GeoArrowCoordsMap..."), ("native append", "native_writer.c / builder append helpers")])

prop("C15", "Bounded WKT elements are exact prefixes of the unbounded text",
 "With a maximum element size set, every element of WKT output is the longest prefix of the unbounded text not exceeding that size - regardless of neighbouring nulls, of batches, of how many parts or chunks it has - and with no limit it is complete. "
 "Formatting stops asking the source for more of a feature soon after the limit is reached, and the next feature is formatted in full as usual.",
 ["inputs", "histories"], "for every limit, feature sequence, chunking and null placement",
 "tests use one or two limits on a short feature; the limit interacts with early termination and the null bitmap",
 [S+"wkt_writer.c", S+"kernel.c"],
 [("early stop", "wkt_writer.c: coords_wkt"), ("truncation", "wkt_writer.c: feat_end_wkt"), ("per-feature visiting", "kernel.c")])

prop("C16", "Scalar kernels map each input row to exactly one output row",
 "A scalar kernel's output for a batch has exactly the batch's length, is null exactly for null inputs, and its row i depends only on input row i and the options: it does not change when the input is batched differently, sliced, or preceded by other batches. "
 "The declared output type matches the arrays produced and carries the input's extension metadata where geometry is preserved.",
 ["inputs", "histories", "fault_sequences"], "for every kernel, option set, input encoding, batch partition and failing batch",
 "tests push one or two batches; state carried between batches and after failures is not exercised",
 [S+"kernel.c", S+"scalar_udf.c"],
 [("batch visiting", "kernel.c: kernel_push_batch*"), ("finish_push_batch", "kernel.c")])

prop("C17", "Aggregate kernels summarise all rows independent of batching and order",
 "The bounding box is the exact minimum and maximum of all X and Y ordinates, not-a-number excepted, of all non-null features (an input without any gives an inverted infinite box), the set of geometry types is exactly the set of type/dimension pairs of the features that have coordinates, and neither changes under any re-ordering or re-batching of the input, slicing, or change of encoding; per-row boxes equal the box of the row alone.",
 ["inputs", "histories"], "for every row sequence, partition into batches, permutation and encoding",
 "tests aggregate a few fixed rows; order- and batch-independence is universally quantified",
 [S+"kernel.c"],
 [("box accumulation", "kernel.c: coords_box_accumulate"), ("type bit set", "kernel.c: geom_start_unique...")])

prop("C18", "The type algebra is consistent for every type identifier",
 "For every type identifier and every geometry type, dimension and coordinate layout: composing an identifier from its components and decomposing it are inverse, changing one component changes only that component and is the identity when it already has that value, and layout facts reported for the type (number of dimensions, buffers, nesting levels, names) agree with the arrays and schemas actually produced. "
 "Unsupported combinations are reported as uninitialised, never as some other valid type.",
 ["inputs"], "for all type identifiers and component values, including out-of-range ones",
 "tests spot-check some of the identifiers per function",
 [S+"geoarrow_type_inline.h", S+"geoarrow_type.h"],
 [("arithmetic on the enumeration", "geoarrow_type_inline.h: GeoArrowMakeType, GeoArrowGeometryTypeFromType, ...")])

prop("C19", "Schemas and type identifiers determine each other",
 "The schema produced for any type identifier is recognised as that same identifier with the same extension name and metadata, and from its storage plus extension name alone; conversely any schema whose format, child names, child count, nesting or extension name does not match a supported layout is refused rather than misinterpreted. "
 "A refused lookup leaves its output argument unmodified.",
 ["inputs"], "for every type identifier and every single or double mutation of the schema tree (format, name, child count, list size, extension name)",
 "tests check a list of valid layouts and about a dozen bad ones",
 [S+"schema.c", S+"schema_view.c"],
 [("schema construction", "schema.c: GeoArrowSchemaInitExtension"), ("schema recognition", "schema_view.c: ParseNestedSchema, GeoArrowSchemaViewInit*")])

prop("C20", "Extension metadata survives serialisation and parsing",
 "Metadata written for any combination of edge type, CRS type and CRS text (including text needing escapes, and JSON object CRS) parses back to the same values; the reported size is exactly the number of bytes written; unescaping recovers the original CRS text; unknown keys (holding a string, list, object or null) are ignored. "
 "Malformed metadata is refused without reading outside the supplied bytes and without modifying the output.",
 ["inputs"], "for every edge type, CRS type, CRS string over an alphabet with quotes, backslashes, braces and escapes, key order and whitespace, and every truncation",
 "tests round-trip a few literals; escaping and nesting rules are quantified over strings",
 [S+"metadata.c", S+"schema.c"],
 [("JSON-subset scanner", "metadata.c: ParseJSONMetadata, FindString/FindObject"), ("serialiser", "metadata.c: GeoArrowMetadataSerialize"), ("unescape", "metadata.c: GeoArrowUnescapeCrs")])

prop("C21", "Every buffer and object is released exactly once on every path",
 "Whatever sequence of create, append, hand-over of caller-owned buffers, finish, failed operation, reset and release is performed, every owned buffer's deallocator runs exactly once, never before its last reader is released, nothing leaks, and a released array, schema, function object or kernel is marked released. "
 "Finished arrays own what they were given and stay usable after the object that produced them is gone.",
 ["histories", "fault_sequences"], "for every history of builder/writer/reader/kernel/function lifecycle operations, including error exits",
 "tests check one successful custom-deallocator path and do not run error exits under a leak checker",
 [S+"builder.c", S+"kernel.c", S+"scalar_udf.c", S+"array_writer.c", S+"array_reader.c", S+"hpp/array_writer.hpp", S+"hpp/array_reader.hpp"],
 [("owned buffers", "builder.c: GeoArrowBuilderSetOwnedBuffer"), ("release callbacks", "kernel.c, scalar_udf.c")])

prop("C22", "C++ array views agree with the C visitor",
 "Iterating an array through the C++ view types (points, boxes, linestrings, polygons and multi types, any dimension, slices, nulls; by index, iterator, strided/reverse access, or whole-array coordinate and edge visitation) yields exactly the elements, parts and ordinates that visiting the same array through the C interface yields, and random access agrees with sequential access.",
 ["inputs", "histories"], "for every native type, array, slice and access path",
 "tests iterate one small array per type by one path",
 [S+"hpp/array_util.hpp", S+"hpp/array_reader.hpp", S+"hpp/geometry_type_traits.hpp"],
 [("list/struct views with offsets", "hpp/array_util.hpp: internal::ListSequence, CoordSequence, Array::Init*"), ("random access iterators", "hpp/array_util.hpp")])

prop("C23", "The C++ WKB parser agrees with the C WKB reader",
 "The C++ WKB parser accepts a byte string exactly when the C reader does and nothing trails the geometry (up to the C reader's nesting limit; trailing bytes are reported as such), yields the same geometry structure and coordinates for any byte order and dialect, reports a distinct non-OK status otherwise, never reads outside the buffer, and is reusable after a failure.",
 ["inputs", "fault_sequences"], "for every geometry, dialect, truncation and header corruption",
 "tests parse a few literals and a few truncations",
 [S+"hpp/wkb_util.hpp", S+"wkb_reader.c"],
 [("cursor checks", "hpp/wkb_util.hpp: WKBParser::CheckRemaining/ReadUInt32")])

prop("C24", "C++ data types compose, compare and convert consistently",
 "For every geometry data type, changing one aspect (geometry type, dimensions, coordinate layout, CRS, edges) through the C++ interface yields a type that differs in that aspect only, is the identity when nothing changes, keeps its metadata, and round-trips through its schema and its C type identifier; impossible requests raise an error and leave the original unchanged.",
 ["inputs", "histories"], "for every type identifier, aspect, value and chain of changes",
 "tests apply a few changes to a few types",
 [S+"hpp/geometry_data_type.hpp", S+"hpp/arrow_extension_type.hpp"],
 [("with-modifiers", "hpp/geometry_data_type.hpp: GeometryDataType::With*"), ("schema conversion", "hpp/geometry_data_type.hpp: InitSchema/Make")])

prop("C25", "The Python bindings expose exactly what the C library computes",
 "For every type, array, slice, option and kernel call, the Python interface returns the same types, buffers (number, length and contents of the coordinate, offset and byte buffers of the rows of the array; the validity bitmap is not exposed), results and errors as the C interface; it keeps the memory behind exported buffers alive as long as any Python object refers to it, and the memory given to a CBuilder as long as what it built; objects that were never initialised or were already released are refused with an exception, as is every failure of the C library, and no partial result is returned. (Python code that changes in place the memory it has lent to the library is outside this property.)",
 ["inputs", "histories", "programs"], "for every type identifier, array window, builder program and kernel call made from Python",
 "Python tests touch a few types per call and hold all references alive",
 ["python/geoarrow-c/src/geoarrow/c/_lib.pyx", "python/geoarrow-c/src/geoarrow/c/lib.py"],
 [("wrappers", "_lib.pyx: CVectorType, CArrayView, CBuilder, CKernel")])

prop("C26", "Decimal text and binary numbers correspond as specified",
 "A number is printed as the decimal nearest to it with at most the requested number of digits after the point (exactly so for numbers whose exact expansion has at most 15 significant digits; beyond that to within the precision of a double), without trailing zeros or a trailing point (integers print as integers at every precision), and text read from any well-formed decimal ([-]digits with an optional point and exponent, fewer than 64 characters) yields the nearest double; what is printed at full precision reads back as the same value for ordinary coordinates, and very large magnitudes print in scientific form that reads back exactly. "
 "Text that is not entirely a number is refused, and both number back ends agree.",
 ["inputs"], "for every decimal of bounded length, sign, exponent and precision, in both build configurations",
 "tests print and parse about a dozen numbers in one configuration each",
 [S+"double_print.c", S+"double_parse_fast_float.cc", S+"double_parse_std.c"],
 [("printing", "double_print.c: GeoArrowPrintDouble"), ("parsing", "GeoArrowFromChars")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
