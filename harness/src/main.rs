use vharness::run::*;
use vharness::*;

macro_rules! prop {
    ($id:literal, $case:path, $q:expr, $t:expr, $rule:expr) => {
        Prop {
            id: $id,
            level: "exploration",
            rule: $rule,
            case: $case,
            quick_cases: $q,
            thorough_cases: $t,
            max_len: 80_000,
            threads: 8,
            assumptions: &[],
        }
    };
}

static PROPS: &[Prop] = &[
    prop!("C01", props_array::c01, 90_000, 2_000_000, "random typed arrays with nulls, value patterns and physical forms, compressed by random compressor subsets, optionally re-compressed like an earlier result; distinct = distinct (input, encoding tree) descriptions of non-empty inputs"),
    prop!("C02", props_array::c02, 180_000, 4_000_000, "each encoder applied to random valid inputs with randomly encoded children, read back by every route; distinct = distinct (input, encoding tree) descriptions, non-empty"),
    prop!("C03", props_array::c03, 180_000, 4_000_000, "random arrays in random physical forms, chains of 1-4 slice/take/filter steps mirrored on plain values; distinct = distinct (array, operation chain) descriptions, non-empty"),
    prop!("C04", props_array::c04, 180_000, 4_000_000, "random arrays in random forms after random selections, read by every route; distinct = distinct descriptions, non-empty"),
    prop!("C05", props_array::c05, 180_000, 4_000_000, "pairs of arrays or array and constant in random forms under six operators and and/or against three-valued logic; distinct = distinct descriptions, non-empty"),
    prop!("C06", props_array::c06, 180_000, 4_000_000, "sorted arrays in random forms and slices, probed inside, between and outside their values on both sides, single and bulk; distinct = distinct descriptions, non-empty"),
    prop!("C07", props_array::c07, 180_000, 4_000_000, "casts, fill_forward, scalar subtraction and elementwise functions on random arrays in random forms; distinct = distinct descriptions, non-empty"),
    prop!("C08", props_stats::c08, 120_000, 3_000_000, "random arrays in random forms, histories of statistic queries, selections, compression, stream round trips and re-chunking; every statistic present or computed on any node of the tree judged against the node's values; distinct = distinct histories, non-empty"),
    prop!("C09", props_arrow::c09, 90_000, 2_000_000, "Arrow arrays and record batches of every supported type at offsets, with and without null buffers, converted, selected, compressed and converted back; vortex arrays of any form, scalars, schemas and buffers converted; distinct = distinct descriptions, non-empty"),
    prop!("C10", props_build::c10, 900_000, 4_000_000, "parts written by hand for every constructor, whole or with one aspect spoilt (length, type, nullability, range of a value), built and read by every route; distinct = distinct (constructor, spoilt aspect, length, values) descriptions"),
    prop!("C11", props_serde::c11, 60_000, 1_000_000, "streams of 1-3 random arrays (any dtype, any physical form, chunked or not, statistics computed or not) and pages, read whole and by the recorded byte ranges; distinct = distinct descriptions, non-empty"),
    prop!("C12", props_serde::c12, 60_000, 1_000_000, "random arrays written as chunks, rows taken by sorted distinct indices of any unsigned or signed type and physical form from storage answering late and in pieces; distinct = distinct (array, indices) descriptions, non-empty"),
    prop!("C13", props_serde::c13, 45_000, 1_000_000, "random tables in random batches and physical forms written three ways, read whole and by random projections and batch sizes; distinct = distinct descriptions, non-empty"),
    prop!("C14", props_serde::c14, 45_000, 1_000_000, "random tables written as files, scanned under random filters, projections and batch sizes; distinct = distinct descriptions, non-empty"),
    prop!("C15", props_serde::c15, 24_000, 500_000, "files and streams cut at random places, with stale sizes, changed end markers, and storage errors at each operation while reading or writing; distinct = distinct descriptions"),
    prop!("C16", props_serde::c16, 18_000, 400_000, "the same streams and files through adapters and executors with late answers, short pieces and wake-ups from other threads; distinct = distinct descriptions"),
    prop!("C17", props_scalar::c17, 600_000, 4_000_000, "random scalars of every type through accessors, casts, comparison and serialization; distinct = distinct (scalar, operation) descriptions"),
    prop!("C18", props_scalar::c18, 300_000, 2_000_000, "random dtypes, their mutants, serializations and projections; distinct = distinct descriptions"),
    prop!("C19", props_expr::c19, 90_000, 2_000_000, "random expressions over random tables in random physical forms, evaluated whole, conjunct by conjunct and over only the columns they report needing; distinct = distinct descriptions, non-empty"),
    prop!("C25", props_view::c25, 180_000, 4_000_000, "typed views (fields, projections, set positions, inversion, storage, accessors, batch iterators, validity operations) of random arrays in random physical forms, sometimes after a selection, against the rows; distinct = distinct (view, array) descriptions, non-empty"),
    prop!("C26", props_make::c26, 180_000, 4_000_000, "random values of every type made into arrays by every constructor, builder, conversion and collecting iterator, chunks regrouped and sent through iterators and streams, plain values patched, reinterpreted and read back, validities combined, impossible input refused; distinct = distinct (way of building, type, length) descriptions, non-empty"),
    prop!("C23", props_mem::c23, 12_000, 2_000_000, "cases of the other workloads (compression, encoders, selections, reading by every route, comparison, search, casts, statistics, Arrow, parts, streams, files, scans, damage, storage, scalars, expressions, calendar) on arrays whose buffers are allocations of exactly their size; distinct = distinct descriptions, non-empty"),
    prop!("C24", props_mem::c24, 3_000, 500_000, "arrays, files and expressions shared by 2-5 threads performing random operations at the same time, each result compared with the one obtained alone; distinct = distinct (array, plan, interleaving of operation starts and ends), non-empty"),
    prop!("C20", props_time::c20, 120_000, 3_000_000, "timestamps split into parts and rebuilt from parts of any width and encoding, journeys of every temporal type through selection, compression, streams, Arrow, chunking and encodings, metadata round trips and refusals, calendar text against own arithmetic, comparisons across units and zones by instant; distinct = distinct descriptions, non-empty"),
];

fn main() {
    cli::cli(PROPS);
}
