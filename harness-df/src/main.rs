//! C21: SQL queries over Vortex tables against the same queries over Arrow tables.
mod queries;
use vharness::run::Prop;

static PROPS: &[Prop] = &[Prop {
    id: "C21",
    level: "exploration",
    rule: "random tables in random batches, files and physical forms, queried with random filters, projections, aggregations, orders and limits through DataFusion with and without pushdown and from files; distinct = distinct (table, query) descriptions, non-empty",
    case: queries::c21,
    quick_cases: 10_000,
    thorough_cases: 400_000,
    max_len: 10_000,
    threads: 8,
    assumptions: &["DataFusion answers correctly over its own in-memory Arrow tables"],
}];

fn main() {
    vharness::cli::cli(PROPS);
}
