#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; edit here, then run."""
import json, os
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    anchors = {"files": files, "mechanism": [{"name": m, "where": files[0]} if isinstance(m, str) else m for m in mechanism], "observe_at": observe, "hook_needed": hook}
    if state:
        anchors["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

prop("C01", "Compression with the sampling compressor is lossless",
     "Compressing an array, whatever its type, nulls, values, length, chunking and physical encoding, and whichever set of encodings the compressor may choose from, gives an array of the same logical type and length that holds exactly the same values and nulls; floating point values keep every bit. Compressing again with a previous result as a hint changes nothing about this, and compression never aborts on valid data.",
     ["inputs", "configurations"],
     "Every array of a supported logical type (null, bool, all integers and floats, utf8, binary, struct, temporal), every validity, every subset of the available compressors, every sampling configuration, with and without a like-tree.",
     "The unit tests compress a handful of synthetic columns; which encoding a column gets depends on its values, so almost all (value distribution, encoding cascade) pairs are never exercised.",
     ["vortex-sampling-compressor/src/sampling_compressor.rs", "vortex-sampling-compressor/src/compressors/", "vortex-array/src/compress.rs", "encodings/"],
     ["recursive sampling of candidate encodings", "per-encoding compressors", "like-tree reuse"],
     ["SamplingCompressor::compress then every read path of the result"])
prop("C02", "Every encoding represents exactly the array it was built from",
     "Encoding an array with any encoding that accepts it (bit-packing at any width, frame of reference, delta, dictionary, run-end, ALP, ALP-RD, zigzag, FSST, roaring, byte-bool, datetime-parts, sparse, constant, chunked) and decoding it gives the same logical type, length, nulls and values, bit for bit. An encoder may refuse an input with an error, but it never silently changes a value or aborts on valid input.",
     ["inputs", "configurations"],
     "Every input array and parameter that an encoder accepts, including nested encodings, all-null, empty, single-element, extreme-valued and block-boundary-sized arrays.",
     "The tests of each encoding round-trip a few small arrays; boundary lengths (1023-1025, 2048), extremes, NaN payloads, negative zero, garbage under nulls and nested encodings are not sampled.",
     ["encodings/", "vortex-array/src/array/"],
     ["encode/decode of each encoding crate", "patches and exceptions", "into_canonical"],
     ["encode, into_canonical, scalar_at"])
prop("C03", "Slice, take and filter select exactly the requested rows",
     "On every array in every encoding, slicing a range, taking a list of row indices and filtering by a boolean mask give an array of the same logical type containing exactly the selected rows in order, nulls included, and any composition of them equals the composition on the plain values. Indices may repeat and come in any order, ranges and masks may be empty or full, and an out-of-range slice is refused with an error, as are masks and indices of a wrong type or length; no selection goes on forever.",
     ["inputs", "programs"],
     "Every array in every encoding and nesting (including already sliced and chunked ones) and every sequence of slice, take and filter operations.",
     "Each encoding implements its own pushdown with offset arithmetic; the tests cover one or two hand-picked selections for some encodings and almost no compositions.",
     ["vortex-array/src/compute/slice.rs", "vortex-array/src/compute/take.rs", "vortex-array/src/compute/filter.rs", "vortex-array/src/array/", "encodings/"],
     ["SliceFn/TakeFn/FilterFn of every encoding", "offset and run bookkeeping"],
     ["slice(), take(), filter() then decode"])
prop("C04", "All ways of reading an array agree",
     "For every array in every encoding, reading single elements, asking whether an element is null, the logical validity, the iterators and the decoded canonical form all report the same values, and the declared logical type, nullability and length describe them. Reading an element out of bounds is refused.",
     ["inputs", "programs"],
     "Every array in every encoding, every position, after any chain of selections.",
     "scalar_at, validity, iterators and canonicalization are separately implemented per encoding and the tests compare them only on small examples.",
     ["vortex-array/src/compute/unary/scalar_at.rs", "vortex-array/src/canonical.rs", "vortex-array/src/validity.rs", "vortex-array/src/iter/", "vortex-array/src/array/", "encodings/"],
     ["ScalarAtFn", "ArrayValidity", "IntoCanonical", "ArrayAccessor and array iterators"],
     ["scalar_at, is_valid, logical_validity, into_canonical, iterators"])
prop("C05", "Comparisons and boolean operators are right for every row, null in giving null",
     "Comparing two arrays, or an array and a constant, with =, !=, <, <=, >, >= gives for every row the comparison of the two values, and null exactly when either side is null; and/or of boolean arrays give the row-wise result, and null exactly when either side is null (Arrow's `and`/`or`, not SQL's three-valued ones). The answer does not depend on how either operand is encoded or sliced. Sides of different lengths or types are refused.",
     ["inputs", "configurations"],
     "All pairs of equally long arrays of one type in any encodings, all six operators, constants on either side.",
     "Compressed encodings push comparisons into their encoded domain; the tests cover a few operators and encodings with few values.",
     ["vortex-array/src/compute/compare.rs", "vortex-array/src/compute/boolean.rs", "vortex-array/src/array/", "encodings/"],
     ["CompareFn/MaybeCompareFn per encoding", "AndFn/OrFn", "arrow fallback"],
     ["compare(), and(), or()"])
prop("C06", "Searching a sorted array finds the correct position",
     "Searching a sorted array for a value returns found exactly when the value is present, at a position that lies at the left or right end of its run of equal values according to the requested side; otherwise it returns the one position where inserting the value keeps the array sorted. This holds for every encoding that supports search and agrees with searching the decoded values, in single and bulk form.",
     ["inputs", "configurations"],
     "Every sorted array (duplicates, sorted-last nulls where supported) in any encoding, any slice of it, every probe value inside and outside its range, both sides.",
     "Encoded searches use encoded comparisons, patches and offsets; the tests probe a few values on a few arrays.",
     ["vortex-array/src/compute/search_sorted.rs", "vortex-array/src/array/primitive/compute/search_sorted.rs", "encodings/fastlanes/src/bitpacking/compute/search_sorted.rs", "encodings/fastlanes/src/for/compute.rs", "encodings/runend/src/"],
     ["binary search with side resolution", "SearchSortedFn per encoding"],
     ["search_sorted and its bulk variants"])
prop("C07", "Casts, null filling and scalar arithmetic compute the right values",
     "Casting an array to another type gives every value unchanged in the new type with the same nulls, or an error when some value does not fit; filling nulls forward replaces each null with the last preceding value and leaves other rows alone; subtracting a scalar subtracts it from every non-null row and keeps nulls. Element-wise functions see every row exactly once with its value and nullness.",
     ["inputs", "configurations"],
     "Every array in every encoding, every target primitive type and nullability, every scalar.",
     "The tests cast a few arrays between a few types; null placement, garbage under nulls, extremes and encodings are not covered.",
     ["vortex-array/src/compute/unary/", "vortex-array/src/array/primitive/compute/", "vortex-array/src/elementwise.rs", "vortex-array/src/iter/"],
     ["CastFn, FillForwardFn, SubtractScalarFn", "VectorizedArrayIter"],
     ["try_cast, fill_forward, subtract_scalar, unary/binary elementwise"])
prop("C08", "Statistics never contradict the data",
     "Whatever statistic an array reports (minimum, maximum, null count, true count, run count, constancy, sortedness, strict sortedness, bit-width and trailing-zero histograms) is true of the values the array holds. This is so however the statistic came about: computed on any encoding, merged over chunks, carried through slicing, taking, filtering, compression or serialization, or recorded in a file.",
     ["inputs", "histories"],
     "Every array in every encoding and every history of statistic queries, selections, compressions and serializations before the query.",
     "Statistics are cached, merged and inherited; the tests compute them once on a few arrays and rarely after a transformation.",
     ["vortex-array/src/stats/", "vortex-array/src/array/", "encodings/", "vortex-array/src/data.rs"],
     ["ArrayStatisticsCompute per encoding", "StatsSet merge rules", "stats inheritance in encoders"],
     ["statistics().get / compute / to_set"], [{"name": "StatsSet", "meaning": "cached statistics attached to an array"}])
prop("C09", "Conversion to and from Apache Arrow preserves data",
     "Any array converted to Arrow, and any supported Arrow array (sliced, nullable, view or offset string types, temporal, struct) or record batch converted from Arrow, holds the same values and nulls, and converting back gives an equal array; schemas map to types that agree with the converted data.",
     ["inputs"],
     "Every supported Arrow array and schema, with arbitrary offsets and null buffers, and every Vortex array in every encoding.",
     "The tests convert a few small arrays; sliced buffers, nested nullability, every temporal unit and encoded inputs are not covered.",
     ["vortex-array/src/arrow/", "vortex-array/src/canonical.rs", "vortex-dtype/src/", "vortex-datetime-dtype/src/arrow.rs", "vortex-schema/src/"],
     ["FromArrowArray", "Canonical::into_arrow", "infer_schema / infer_data_type"],
     ["from_arrow, into_arrow, RecordBatch conversions"])
prop("C10", "Array construction refuses inconsistent parts",
     "Building an array from parts (values, validity, offsets, codes, run ends, indices, children, patches) by the public constructor of its encoding: consistent parts yield exactly the values they stand for by every way of reading. Parts whose lengths, types, nullability, ordering or sizes contradict each other are refused at construction. Where single data values point nowhere (an offset, code, index or view outside its target), construction or the read of that row fails; no such row ever reads as if it held data, and the process is never brought down.",
     ["inputs"],
     "All combinations of child arrays, lengths, types and validities handed to the public constructors.",
     "Tests exercise constructors only with consistent parts.",
     ["vortex-array/src/array/", "encodings/", "vortex-array/src/implementation.rs"],
     ["try_new checks of each encoding"],
     ["try_new of every encoding, then reads"])
prop("C11", "Streams of arrays survive serialization unchanged",
     "An array (of any encoding, any nesting, any chunking) written to a stream and read back gives the same type, the same chunk lengths in the same order and the same values, nulls and truthful statistics; several arrays written to one stream are read back one after another.",
     ["inputs", "histories"],
     "Every array in every encoding and every sequence of messages.",
     "The stream tests write a few primitive or chunked arrays; other encodings, empty chunks, nested structs, buffers with padding and repeated writes are not covered.",
     ["vortex-serde/src/stream_writer/", "vortex-serde/src/stream_reader/", "vortex-serde/src/messages/", "vortex-array/src/view.rs", "vortex-array/src/data.rs"],
     ["message framing and buffer alignment", "ArrayView over flatbuffer metadata"],
     ["StreamArrayWriter / StreamArrayReader"])
prop("C12", "Random access reads from a stored array return exactly the asked rows",
     "Taking rows by sorted index from an array stored in chunks returns exactly those rows in order, for every set of indices and every chunk layout, and equals taking them from the array in memory; an index beyond the end is refused. Reading all the chunks gives every row in order; byte and row offsets that do not belong together are refused.",
     ["inputs"],
     "Every chunk layout (including empty and single-row chunks) and every sorted index list.",
     "The tests take a few indices from one layout.",
     ["vortex-serde/src/chunked_reader/"],
     ["row offset search", "per-chunk range coalescing"],
     ["ChunkedArrayReader::take_rows"])
prop("C13", "Files give back what was written",
     "A table written to a file, in any number of batches and encodings, reads back with the same schema, row order, values and nulls; selecting a subset of columns returns exactly these columns, and the batch size affects only how rows are grouped. The row count reported for the file is the number of rows written. A batch of another type than the file's first is refused, as is selecting a column that is not there.",
     ["inputs", "configurations"],
     "Every table, batch partition, encoding, projection and batch size.",
     "The file tests use one or two tiny tables with few chunks; column/chunk boundary alignment against batch size is a combinatorial space.",
     ["vortex-serde/src/layouts/"],
     ["layout writer and footer", "column and chunk layouts", "batch reader"],
     ["LayoutWriter, LayoutReaderBuilder, LayoutBatchStream"])
prop("C14", "Filtered file scans return exactly the matching rows",
     "Reading a file with a row filter returns, in order, exactly the rows for which the filter is true (rows where it is null are dropped), with the projected columns only, for every filter over the file's columns. The result equals filtering the whole table in memory, whatever the chunking, batch size, encoding and projection.",
     ["inputs", "configurations"],
     "Every table, chunking, batch size, projection and filter expression of comparisons joined by and/or.",
     "The tests run two filters over one tiny file; selections that empty out whole batches, filters on unprojected columns and several conjuncts are not covered.",
     ["vortex-serde/src/layouts/read/", "vortex-expr/src/"],
     ["filter reader and projection reader run in lock-step", "mask propagation across batches"],
     ["LayoutReaderBuilder::with_row_filter, with_projection, with_batch_size"])
prop("C15", "Damaged or truncated files and streams are never read as good data",
     "If a file or stream was cut short at any point, does not start or end as the format requires, or the storage reports an error at any operation, then reading reports an error or has delivered only a prefix of the rows actually written; it never aborts, hangs or returns invented rows.",
     ["crash_points", "fault_sequences"],
     "Every truncation length, every failing I/O operation of a read or a write, every damaged magic, version or length field.",
     "No existing test truncates a file or injects an I/O error.",
     ["vortex-serde/src/layouts/read/", "vortex-serde/src/messages/reader.rs", "vortex-serde/src/io/", "vortex-serde/src/stream_reader/"],
     ["footer and postscript parsing", "message length handling", "error propagation from I/O"],
     ["readers over truncated and failing sources"])
prop("C16", "Results do not depend on how the storage delivers bytes",
     "Reading and writing files and streams gives the same rows and the same bytes whether the storage answers immediately or later, in small or large pieces, in any completion order, and on whichever supported executor or adapter (memory, file, object store, tokio, futures).",
     ["schedules", "configurations"],
     "Every partition of reads and writes into short operations, every pattern of pending results, every completion order of concurrent reads, every adapter.",
     "Tests use in-memory buffers that complete at once.",
     ["vortex-serde/src/io/", "vortex-serde/src/layouts/read/stream.rs", "vortex-serde/src/messages/"],
     ["VortexRead/VortexReadAt/VortexWrite adapters", "LayoutBatchStream state machine"],
     ["readers and writers over adversarial I/O"])
prop("C17", "Scalar values keep their value through casts, comparison and encoding",
     "A scalar cast to another type denotes the same value (numerically: the value itself where the type has it, without its fraction for an integer type, the neighbouring float for a float type), or the cast is refused, as it is for a number out of range and for a null cast to a type without nulls; reading a scalar as a type it does not have is refused, never an abort; comparison of scalars of one type is a total order that agrees with the order of their values, with equality consistent with it; writing a scalar in any supported serialized form and reading it back gives an equal scalar of the same type.",
     ["inputs"],
     "All scalar values of all types and all pairs of source and target types.",
     "Tests cover a few conversions.",
     ["vortex-scalar/src/"],
     ["PValue/ScalarValue conversions", "Scalar::cast", "serde, flatbuffers and protobuf forms"],
     ["Scalar::cast, partial_cmp, try_from, serialization"])
prop("C18", "Types and schemas survive serialization and projection",
     "Every logical type, with its nullability, field names in order and extension metadata, is equal to itself after being written and read in each supported form; projecting fields by position or name selects exactly those fields, and asking for a missing field is refused rather than answered wrongly.",
     ["inputs"],
     "All types of any nesting, all field names and all projections.",
     "Tests cover a few flat types.",
     ["vortex-dtype/src/", "vortex-schema/src/", "vortex-datetime-dtype/src/"],
     ["flatbuffers, protobuf and serde forms of DType", "StructDType lookup and projection"],
     ["serialization round trip, Schema/StructDType::project, find_name, field_info"])
prop("C19", "Expressions evaluate to the row-wise meaning of their text",
     "Evaluating an expression over a batch (column references, literals, comparisons, and, or, column selection) gives for every row what evaluating it on that row's values gives, independent of how the columns are encoded; splitting a filter into conjuncts keeps its meaning, the columns a filter reports needing are sufficient to evaluate it, and two expressions are equal only when they are built alike.",
     ["inputs", "programs"],
     "All expression trees over a batch's columns, all batches and encodings.",
     "Tests evaluate a handful of expressions on one batch.",
     ["vortex-expr/src/", "vortex-serde/src/layouts/read/filtering.rs"],
     ["VortexExpr::evaluate", "split_conjunction", "references"],
     ["evaluate, split_conjunction, references, reorder_conjuncts"])
prop("C20", "Dates and times keep their instant, unit and time zone",
     "Date, time and timestamp arrays of every unit, with or without a time zone, keep every value, null, unit and zone through splitting into date/time parts and back, through selection, comparison, compression, Arrow conversion and serialization; values before the epoch and at the limits of the representation are included.",
     ["inputs"],
     "All temporal types and units, all values including negative and extreme ones, all nulls.",
     "Tests use a few positive timestamps.",
     ["encodings/datetime-parts/src/", "vortex-datetime-dtype/src/", "vortex-array/src/array/datetime/", "vortex-sampling-compressor/src/compressors/date_time_parts.rs"],
     ["split into days/seconds/subseconds and recombination", "temporal extension metadata"],
     ["split_temporal, DateTimePartsArray, TemporalArray, Arrow conversion"])
prop("C21", "SQL queries give the same answer over Vortex data as over Arrow data",
     "A query run by DataFusion over a Vortex table, in memory or in files, with or without filter pushdown, returns the same rows as the same query over the original data held as Arrow.",
     ["inputs", "programs", "configurations"],
     "All tables, encodings, file splits, projections, filters, limits and aggregations in the supported SQL subset.",
     "The tests run very few queries over very small tables.",
     ["vortex-datafusion/src/", "vortex-expr/src/datafusion.rs"],
     ["filter pushdown and expression conversion", "scan execution plans", "persistent file opener and partitioning"],
     ["SessionContext query results"])
prop("C22", "The Python interface returns the data it was given",
     "Data passed to Vortex from Python (from Arrow arrays, tables or Python lists), and encoded, compressed, compared, filtered, sliced, taken, or written to disk and read back with any projection, row filter and batch size, comes back to Python with the same values, nulls and types that the same operation gives in Arrow.",
     ["inputs", "programs"],
     "All supported Arrow tables and all operations of the Python module.",
     "The doc-tests and pytest cases show one example each.",
     ["pyvortex/src/", "pyvortex/python/vortex/"],
     ["PyArray methods", "dataset and file readers", "expression conversion"],
     ["vortex.array, encode, compress, io.read_path / write_path, dataset"])
prop("C23", "Safe use never breaks memory safety",
     "No sequence of calls to the public safe interface on valid data, including reading serialized arrays and files and scanning with filters, reads or writes memory outside live objects or executes other undefined behaviour.",
     ["inputs", "programs"],
     "All workloads of the other properties, on data of any encoding.",
     "Out-of-bounds reads usually go unnoticed in ordinary tests.",
     ["vortex-array/src/array/", "encodings/fastlanes/src/", "encodings/fsst/src/", "vortex-buffer/src/", "vortex-serde/src/io/"],
     ["unchecked indexing and transmutes", "unchecked utf8", "buffer reinterpretation"],
     ["the workloads of the other checks in an AddressSanitizer build with debug assertions"])
prop("C24", "Arrays can be shared between threads",
     "Threads that read the same array at the same time (elements, decoding, selections, statistics, compression, serialization) all obtain the results a single thread obtains; statistics computed concurrently are never wrong, and no combination of concurrent calls blocks forever or races on memory.",
     ["schedules"],
     "All interleavings of concurrent read operations on one shared array tree.",
     "No existing test shares an array between threads.",
     ["vortex-array/src/data.rs", "vortex-array/src/stats/", "vortex-array/src/array/chunked/", "vortex-serde/src/layouts/read/"],
     ["statistics cache behind a lock", "shared buffers", "shared layout message cache"],
     ["concurrent calls on clones of one Array", "ThreadSanitizer build"])
prop("C25", "Typed views of an array agree with its rows",
     "The fields and projections of a struct array, the set positions, runs and inverse of a boolean array, the storage of an extension array, the accessors and batch iterators of primitive arrays and the logical validity are, for an array in any encoding (chunked, constant, sparse, compressed, sliced), what the rows of the array imply: same values, nulls, lengths and types.",
     ["inputs", "programs"],
     "All arrays of all types in all encodings, before and after selections, read through each typed interface.",
     "The existing tests read these views of one or two encodings only.",
     ["vortex-array/src/variants.rs", "vortex-array/src/array/*/variants.rs", "vortex-array/src/iter/", "vortex-array/src/accessor.rs", "vortex-array/src/validity.rs", "encodings/*/src/"],
     ["per-encoding implementations of the variant traits", "batch iterator", "true counts and logical validity"],
     ["StructArrayTrait, BoolArrayTrait, PrimitiveArrayTrait, ExtensionArrayTrait, ArrayAccessor, VectorizedArrayIter, LogicalValidity"])
prop("C26", "Arrays built from plain values hold exactly those values",
     "An array made from plain Rust values by any of its constructors, builders, conversions or collecting iterators, from the chunks of an iterator or stream, by regrouping the chunks of another, or by patching, reinterpreting or reading back plain values, has the type asked for and exactly those values and nulls; input that does not describe an array of that type is refused.",
     ["inputs", "programs"],
     "All lists of values of all types and lengths, all ways of building from them, in all chunkings.",
     "The existing tests build a handful of small fixed arrays.",
     ["vortex-array/src/array/varbin/", "vortex-array/src/array/varbinview/", "vortex-array/src/array/bool/", "vortex-array/src/array/primitive/", "vortex-array/src/array/chunked/mod.rs", "vortex-array/src/array/struct_/", "vortex-array/src/iter/", "vortex-array/src/stream/"],
     ["builders and From/FromIterator conversions", "binary views", "rechunking", "stream and iterator adapters"],
     ["constructors and builders of vortex::array", "ArrayIteratorExt, ArrayStreamExt", "ChunkedArray::rechunk"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
