use std::sync::Arc;

use arrow_array::{Array as _, RecordBatch, RecordBatchOptions};
use arrow_schema::{DataType, Field as AField, Schema, SchemaRef};
use datafusion::datasource::MemTable;
use datafusion::prelude::{DataFrame, SessionConfig, SessionContext};
use datafusion_common::{Column, ScalarValue};
use datafusion_execution::object_store::ObjectStoreUrl;
use futures::FutureExt;
use datafusion_expr::{and, binary_expr, lit, not, or, Expr, Operator};
use object_store::memory::InMemory;
use object_store::path::Path;
use object_store::{ObjectStore, PutPayload};
use rand::seq::SliceRandom;
use rand::Rng;
use vharness::gen::{self, TyOpts, R};
use vharness::model::*;
use vharness::observe::*;
use vharness::phys;
use vharness::props_array::Res;
use vharness::props_expr::{batch, gen_table, Table};
use vharness::props_serde::{gen_batches, gen_how, write_file};
use vharness::run::{panic_fail, Ctx, Fail};
use vortex::array::ChunkedArray;
use vortex::arrow::{infer_schema, FromArrowType};
use vortex::stats::ArrayStatistics;
use vortex::{IntoArray, IntoCanonical};
use vortex_datafusion::memory::VortexMemTableOptions;
use vortex_datafusion::persistent::config::{VortexFile, VortexTableOptions};
use vortex_datafusion::SessionContextExt;
use vortex_dtype::DType;

fn fail(what: &str, e: impl std::fmt::Display) -> Fail {
    let e = e.to_string().replace("External error: ", "").replace("Arrow error: ", "");
    Fail::new(format!("{what} {}", gist(&e)), format!("{what}: {e}"))
}

/// The table as Arrow, checked value by value against the table.
fn arrow_batch(r: &mut R, schema: &SchemaRef, t: &Table) -> Result<RecordBatch, Fail> {
    let mut cols = vec![];
    for (c, f) in t.cols.iter().zip(schema.fields()) {
        let a = gen::build(r, &c.dt, &c.vals)
            .into_canonical()
            .and_then(|a| a.into_arrow())
            .map_err(|e| fail("to arrow", e))?;
        let back = read_arrow(&a, &c.dt).map_err(|e| fail("read arrow", e))?;
        diff("arrow", &back, &c.vals)?;
        if a.data_type() != f.data_type() {
            return Err(fail("arrow type", format!("{} schema {}", a.data_type(), f.data_type())));
        }
        cols.push(a);
    }
    RecordBatch::try_new_with_options(schema.clone(), cols, &RecordBatchOptions::new().with_row_count(Some(t.n))).map_err(|e| fail("batch", e))
}

fn c(name: &str) -> Expr {
    Expr::Column(Column::from_name(name))
}

/// A literal of (about) the column's type.
fn literal(r: &mut R, dt: &DType, at: &DataType, near: &[V]) -> Expr {
    let nn: Vec<&V> = near.iter().filter(|v| !v.is_null()).collect();
    let v = match r.gen_range(0..12) {
        0 => V::Null,
        1..=8 if !nn.is_empty() => (*nn.choose(r).unwrap()).clone(),
        9 => phys::default_nn(&nonnull(dt)),
        _ => gen::gen_vals(r, &nonnull(dt), 2).pop().unwrap(),
    };
    // Arrow cannot print dates chrono has no room for
    let v = match (&v, at) {
        (V::Int(i), DataType::Date32) if i.abs() > 90_000_000 => V::Int(i % 90_000_000),
        (V::Int(i), DataType::Date64) if i.abs() > 8_000_000_000_000_000 => V::Int(i % 8_000_000_000_000_000),
        _ => v,
    };
    // the way SQL text would give it
    match &v {
        V::Int(i) if matches!(dt, DType::Primitive(..)) && r.gen_bool(0.5) => {
            if let Ok(x) = i64::try_from(*i) {
                return lit(x);
            }
        }
        V::F32(b) if r.gen_bool(0.5) => return lit(f32::from_bits(*b) as f64),
        V::Bytes(b) if matches!(dt, DType::Utf8(_)) => return lit(String::from_utf8_lossy(b).to_string()),
        V::Bytes(b) if matches!(dt, DType::Binary(_)) && r.gen_bool(0.5) => return lit(ScalarValue::Binary(Some(b.clone()))),
        V::Null if r.gen_bool(0.4) => return lit(ScalarValue::Null),
        _ => {}
    }
    Expr::Literal(scalar(&v, dt, at))
}

fn scalar(v: &V, dt: &DType, at: &DataType) -> ScalarValue {
    let mut r = <R as rand::SeedableRng>::seed_from_u64(0);
    let a = gen::build(&mut r, &dt.as_nullable(), std::slice::from_ref(v)).into_canonical().unwrap().into_arrow().unwrap();
    assert_eq!(a.data_type(), at);
    ScalarValue::try_from_array(&a, 0).unwrap()
}

const CMPS: [Operator; 8] = [
    Operator::Eq,
    Operator::NotEq,
    Operator::Gt,
    Operator::GtEq,
    Operator::Lt,
    Operator::LtEq,
    Operator::IsDistinctFrom,
    Operator::IsNotDistinctFrom,
];

fn scalar_type(dt: &DType) -> bool {
    !matches!(dt, DType::Struct(..) | DType::List(..))
}

/// A predicate over the table.
fn predicate(r: &mut R, t: &Table, schema: &Schema, depth: usize) -> Expr {
    if depth > 0 && r.gen_bool(0.6) {
        let a = predicate(r, t, schema, depth - 1);
        let b = predicate(r, t, schema, depth - 1);
        return match r.gen_range(0..10) {
            0..=4 => and(a, b),
            5..=8 => or(a, b),
            _ => not(a),
        };
    }
    let cs: Vec<usize> = (0..t.cols.len()).filter(|&i| scalar_type(&t.cols[i].dt)).collect();
    if cs.is_empty() {
        return lit(r.gen_bool(0.7));
    }
    let i = *cs.choose(r).unwrap();
    let (x, at) = (&t.cols[i], schema.field(i).data_type());
    let e = c(&x.name);
    let pick = r.gen_range(0..26);
    match pick {
        0 => e.is_null(),
        1 => e.is_not_null(),
        2 if *at == DataType::Boolean => e,
        3 if *at == DataType::Boolean => not(e),
        4 => {
            let k = r.gen_range(1..5);
            let l = (0..k).map(|_| literal(r, &x.dt, at, &x.vals)).collect();
            e.in_list(l, r.gen_bool(0.3))
        }
        5 => {
            let (a, b) = (literal(r, &x.dt, at, &x.vals), literal(r, &x.dt, at, &x.vals));
            if r.gen_bool(0.8) {
                e.between(a, b)
            } else {
                e.not_between(a, b)
            }
        }
        // (not LIKE: Arrow evaluates it on whatever lies below the nulls of a string view)
        6 if matches!(x.dt, DType::Utf8(_)) => binary_expr(binary_expr(e, Operator::StringConcat, lit("a")), Operator::Lt, lit("vortexa")),
        7 if matches!(x.dt, DType::Primitive(p, _) if p.is_int()) => binary_expr(binary_expr(e, Operator::Modulo, lit(3i64)), Operator::Eq, lit(1i64)),
        8 => lit([ScalarValue::Boolean(Some(true)), ScalarValue::Boolean(Some(false)), ScalarValue::Boolean(None)].choose(r).cloned().unwrap_or(ScalarValue::Null)),
        _ => {
            let same: Vec<usize> = cs.iter().copied().filter(|&j| nonnull(&t.cols[j].dt) == nonnull(&x.dt)).collect();
            let o = if pick < 13 && same.len() > 1 {
                c(&t.cols[*same.choose(r).unwrap()].name)
            } else if pick == 13 && cs.len() > 1 {
                c(&t.cols[*cs.choose(r).unwrap()].name)
            } else {
                literal(r, &x.dt, at, &x.vals)
            };
            let op = *CMPS[..if r.gen_bool(0.9) { 6 } else { 8 }].choose(r).unwrap();
            if r.gen_bool(0.25) {
                binary_expr(o, op, e)
            } else {
                binary_expr(e, op, o)
            }
        }
    }
}

#[derive(Clone, Debug)]
enum Step {
    Filter(Expr),
    Select(Vec<Expr>),
    Aggregate(Vec<Expr>, Vec<Expr>),
    Distinct,
    SortLimit(Vec<(String, bool, bool)>, usize, usize),
    Limit(usize, usize),
    /// the same table again
    UnionSelf,
    JoinSelf(String),
    Count,
}

/// Steps that can be applied to the table, all well typed for it.
fn query(r: &mut R, t: &Table, schema: &Schema) -> Vec<Step> {
    use datafusion::functions_aggregate::expr_fn::{count, max, min, sum};
    let mut q = vec![];
    let nf = *[0usize, 1, 1, 1, 2].choose(r).unwrap();
    for _ in 0..nf {
        let d = r.gen_range(0..3);
        q.push(Step::Filter(predicate(r, t, schema, d)));
    }
    if r.gen_bool(0.1) {
        q.push(Step::UnionSelf);
    }
    let names: Vec<String> = t.cols.iter().map(|c| c.name.clone()).collect();
    let flat: Vec<usize> = (0..t.cols.len()).filter(|&i| scalar_type(&t.cols[i].dt)).collect();
    let all_flat = flat.len() == t.cols.len();
    match r.gen_range(0..12) {
        0..=3 => {
            let mut p: Vec<usize> = (0..t.cols.len()).collect();
            p.shuffle(r);
            p.truncate(r.gen_range(1..=p.len()));
            q.push(Step::Select(p.into_iter().map(|i| c(&names[i])).collect()));
        }
        4..=6 => {
            let mut g: Vec<usize> = if r.gen_bool(0.5) { vec![] } else { flat.clone() };
            g.shuffle(r);
            g.truncate(r.gen_range(0..2));
            let mut aggs = vec![];
            for k in 0..r.gen_range(1..4) {
                // The least of 0 and -0, or of numbers and NaN, depends on the order DataFusion's partitions finish in
                let unordered = |i: usize| {
                    t.cols[i].vals.iter().any(|v| match v {
                        V::F16(b) => b & 0x7fff == 0 || b & 0x7fff > 0x7c00,
                        V::F32(b) => f32::from_bits(*b) == 0.0 || f32::from_bits(*b).is_nan(),
                        V::F64(b) => f64::from_bits(*b) == 0.0 || f64::from_bits(*b).is_nan(),
                        _ => false,
                    })
                };
                let e = match (r.gen_range(0..5), flat.choose(r)) {
                    // (DataFusion counts the rows of a column of type null as not null)
                    (0, Some(&i)) if t.cols[i].dt != DType::Null => count(c(&names[i])),
                    (1 | 2, Some(&i)) if t.cols[i].dt != DType::Null && !unordered(i) => min(c(&names[i])),
                    (3, Some(&i)) if t.cols[i].dt != DType::Null && !unordered(i) => max(c(&names[i])),
                    (4, Some(&i)) if matches!(t.cols[i].dt, DType::Primitive(p, _) if p.is_int() && p.byte_width() < 4) => sum(c(&names[i])),
                    _ => count(lit(1i64)),
                };
                aggs.push(e.alias(format!("agg{k}")));
            }
            q.push(Step::Aggregate(g.into_iter().map(|i| c(&names[i])).collect(), aggs));
        }
        7 if all_flat => q.push(Step::Distinct),
        8 if all_flat => {
            let mut p = flat.clone();
            p.shuffle(r);
            q.push(Step::SortLimit(
                p.into_iter().map(|i| (names[i].clone(), r.gen(), r.gen())).collect(),
                r.gen_range(0..5),
                r.gen_range(0..20),
            ));
        }
        9 => q.push(Step::Limit(if r.gen_bool(0.3) { r.gen_range(0..t.n + 2) } else { 0 }, r.gen_range(0..t.n + 2))),
        10 if !flat.is_empty() && t.n < 200 => q.push(Step::JoinSelf(names[*flat.choose(r).unwrap()].clone())),
        11 => q.push(Step::Count),
        _ => {}
    }
    q
}

fn list(e: &[Expr]) -> String {
    e.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(", ")
}

fn show(q: &[Step]) -> String {
    q.iter()
        .map(|s| {
            let s = match s {
                Step::Filter(e) => format!("filter {e}"),
                Step::Select(e) => format!("select {}", list(e)),
                Step::Aggregate(g, a) => format!("group by [{}] {}", list(g), list(a)),
                s => format!("{s:?}"),
            };
            s.chars().take(900).collect::<String>()
        })
        .collect::<Vec<_>>()
        .join(" . ")
}

async fn apply(ctx: &SessionContext, name: &str, q: &[Step]) -> datafusion_common::Result<DataFrame> {
    let mut df = ctx.table(name).await?;
    for s in q {
        df = match s {
            Step::Filter(e) => df.filter(e.clone())?,
            Step::Select(e) => df.select(e.clone())?,
            Step::Aggregate(g, a) => df.aggregate(g.clone(), a.clone())?,
            Step::Distinct => df.distinct()?,
            Step::SortLimit(k, skip, n) => df
                .sort(k.iter().map(|(n, asc, nf)| c(n).sort(*asc, *nf)).collect())?
                .limit(*skip, Some(*n))?,
            Step::Limit(skip, n) => df.limit(*skip, Some(*n))?,
            Step::UnionSelf => {
                let o = ctx.table(name).await?;
                df.union(o)?
            }
            Step::JoinSelf(k) => {
                let o = ctx.table(name).await?.select(vec![c(k).alias("other")])?;
                df.join(o, datafusion::logical_expr::JoinType::Inner, &[quoted(k).as_str()], &["other"], None)?
            }
            Step::Count => df.aggregate(vec![], vec![datafusion::functions_aggregate::expr_fn::count(lit(1i64)).alias("n")])?,
        };
    }
    Ok(df)
}

fn quoted(s: &str) -> String {
    format!("\"{}\"", s.replace('"', "\"\""))
}

/// Rows of the answer, sorted, with the types of its columns.
fn rows(batches: &[RecordBatch], schema: &Schema) -> Result<Vec<Vec<V>>, String> {
    let dts: Vec<DType> = schema.fields().iter().map(|f| DType::from_arrow(f.as_ref()).as_nullable()).collect();
    let mut out = vec![];
    for b in batches {
        if b.num_columns() != dts.len() {
            return Err(format!("batch of {} columns, answer of {}", b.num_columns(), dts.len()));
        }
        let mut cols = vec![];
        for (i, dt) in dts.iter().enumerate() {
            if b.column(i).data_type() != schema.field(i).data_type() {
                return Err(format!("column of type {} where the answer says {}", b.column(i).data_type(), schema.field(i).data_type()));
            }
            cols.push(read_arrow(b.column(i), dt)?);
        }
        for k in 0..b.num_rows() {
            out.push(cols.iter().map(|c| c[k].clone()).collect::<Vec<V>>());
        }
    }
    Ok(out)
}

fn multiset(rows: &[Vec<V>]) -> Vec<String> {
    let mut v: Vec<String> = rows.iter().map(|r| format!("{r:?}")).collect();
    v.sort_unstable();
    v
}

fn types(s: &Schema) -> Vec<(String, DataType)> {
    s.fields().iter().map(|f: &Arc<AField>| (f.name().clone(), f.data_type().clone())).collect()
}

struct Answer {
    types: Vec<(String, DataType)>,
    rows: Vec<Vec<V>>,
}

async fn answer(ctx: &SessionContext, name: &str, q: &[Step]) -> Result<Answer, String> {
    let df = apply(ctx, name, q).await.map_err(|e| format!("plan: {e}"))?;
    let schema: Schema = df.schema().as_arrow().clone();
    if std::env::var("VH_EXPLAIN").is_ok() {
        if let Ok(p) = df.clone().create_physical_plan().await {
            println!("{name}: {}", datafusion::physical_plan::displayable(p.as_ref()).indent(true));
        }
    }
    let b = df.collect().await.map_err(|e| format!("run: {e}"))?;
    Ok(Answer {
        types: types(&schema),
        rows: rows(&b, &schema).map_err(|e| format!("read: {e}"))?,
    })
}

/// The rows a limit may choose from.
fn unlimited(q: &[Step]) -> Option<(Vec<Step>, usize, usize)> {
    match q.last() {
        Some(Step::Limit(skip, n)) => Some((q[..q.len() - 1].to_vec(), *skip, *n)),
        _ => None,
    }
}

fn is_subset(a: &[String], b: &[String]) -> bool {
    let mut i = 0;
    for x in a {
        while i < b.len() && b[i] < *x {
            i += 1;
        }
        if i >= b.len() || b[i] != *x {
            return false;
        }
        i += 1;
    }
    true
}

pub fn c21(r: &mut R, ctx: &mut Ctx) -> Res {
    thread_local! {
        static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    }
    RT.with(|rt| rt.block_on(case(r, ctx)))
}

/// Arrow's own filter loses the length of structs without fields.
fn empty_struct(dt: &DType) -> bool {
    match dt {
        DType::Struct(s, _) => s.dtypes().is_empty() || s.dtypes().iter().any(empty_struct),
        _ => false,
    }
}

async fn case(r: &mut R, ctx: &mut Ctx) -> Res {
    let n = gen::gen_len(r, ctx.max_len.min(if ctx.thorough { 3000 } else { 600 }));
    let opts = if r.gen_bool(0.85) { TyOpts { strct: false, ..TyOpts::ALL } } else { TyOpts::ALL };
    let mut t = gen_table(r, ctx, opts, n, 1);
    while t.cols.iter().any(|c| empty_struct(&c.dt)) {
        t = gen_table(r, ctx, opts, n, 1);
    }
    // names are compared without case folding here, but must differ
    for (i, c) in t.cols.iter_mut().enumerate() {
        if c.name.contains('.') {
            c.name = format!("c{i}");
        }
    }
    ctx.trivial = n == 0;
    let dt = t.dtype();
    let schema: SchemaRef = Arc::new(infer_schema(&dt).map_err(|e| fail("schema", e))?);
    let cfg = SessionConfig::new().with_target_partitions(r.gen_range(1..4)).with_batch_size(*[3usize, 64, 8192].choose(r).unwrap());
    let sctx = SessionContext::new_with_config(cfg);

    // the reference
    let cs = phys::cuts(r, n, 3);
    let mut parts = vec![];
    for (s, e) in phys::ranges(&cs, n) {
        parts.push(arrow_batch(r, &schema, &t.rows(s, e))?);
    }
    if parts.is_empty() {
        parts.push(RecordBatch::new_empty(schema.clone()));
    }
    let mem = MemTable::try_new(schema.clone(), vec![parts]).map_err(|e| fail("memtable", e))?;
    sctx.register_table("arrow", Arc::new(mem)).map_err(|e| fail("register", e))?;

    // the Vortex tables
    let mut names = vec![];
    ctx.label("register");
    let batches = gen_batches(r, ctx, &t)?;
    let array = if batches.len() == 1 && r.gen_bool(0.5) {
        batches[0].clone()
    } else {
        ChunkedArray::try_new(batches.clone(), dt.clone()).map_err(|e| fail("chunked", e))?.into_array()
    };
    if r.gen_bool(0.3) {
        // statistics may feed the planner
        array.with_dyn(|a| {
            if let Some(s) = a.as_struct_array() {
                for i in 0..t.cols.len() {
                    if let Some(f) = s.field(i) {
                        for st in [vortex::stats::Stat::Min, vortex::stats::Stat::Max, vortex::stats::Stat::NullCount] {
                            f.statistics().compute(st);
                        }
                    }
                }
            }
        });
        ctx.key("stats");
    }
    for (nm, push) in [("mem_push", true), ("mem_plain", false)] {
        sctx.register_mem_vortex_opts(nm, array.clone(), VortexMemTableOptions::default().with_pushdown(push))
            .map_err(|e| fail("register", e))?;
        names.push(nm);
    }
    // files
    let store = Arc::new(InMemory::new());
    let url = url::Url::parse("mem://files").unwrap();
    sctx.runtime_env().register_object_store(&url, store.clone());
    let nfiles = r.gen_range(1..4usize);
    let mut files = vec![];
    let fc = phys::cuts(r, n, nfiles);
    for (k, (s, e)) in phys::ranges(&fc, n).into_iter().enumerate() {
        let part = t.rows(s, e);
        let bs = if part.n == 0 { vec![batch(r, ctx, &part)?] } else { gen_batches(r, ctx, &part)? };
        let bytes = write_file(vec![], gen_how(r), &dt, &bs).await.map_err(|e| fail("write", e))?;
        let path = format!("part{k}.vtx");
        let size = bytes.len() as u64;
        store.put(&Path::from(path.as_str()), PutPayload::from(bytes)).await.map_err(|e| fail("put", e))?;
        files.push(VortexFile::new(path, size));
    }
    ctx.key(format!("files:{}", files.len()));
    sctx.register_disk_vortex_opts("disk", ObjectStoreUrl::parse("mem://files").unwrap(), VortexTableOptions::new(schema.clone(), files, vharness::ipc::ctx()))
        .map_err(|e| fail("register disk", e))?;
    names.push("disk");

    for _ in 0..4 {
        let q = query(r, &t, &schema);
        ctx.step(format!("query {}", show(&q)));
        let lim = unlimited(&q);
        // Arrow's own kernels may panic, for instance on timestamps too large for a finer unit
        let want = std::panic::AssertUnwindSafe(answer(&sctx, "arrow", lim.as_ref().map_or(&q, |l| &l.0))).catch_unwind().await;
        let want = match want.unwrap_or_else(|_| Err("panic".into())) {
            Ok(a) => a,
            Err(e) => {
                ctx.key(format!("reference refuses:{}", gist(&e)));
                ctx.refused += 1;
                continue;
            }
        };
        for s in &q {
            ctx.key(format!("step:{}", format!("{s:?}").split('(').next().unwrap_or("")));
        }
        let w = multiset(&want.rows);
        for nm in &names {
            ctx.label(format!("{nm}{}", if q.iter().any(|s| matches!(s, Step::Filter(_))) { " filtered" } else { "" }));
            let got = match std::panic::AssertUnwindSafe(answer(&sctx, nm, &q)).catch_unwind().await {
                Ok(got) => got.map_err(|e| fail("query", e))?,
                Err(_) => {
                    let f = panic_fail();
                    // on these rows Arrow's kernel has no answer, whichever table asks it
                    if f.class.contains("arrow-cast") && f.class.contains("overflow") {
                        ctx.refused += 1;
                        continue;
                    }
                    return Err(f);
                }
            };
            if got.types != want.types {
                return Err(Fail::new("types", format!("{:?} expected {:?}", got.types, want.types)));
            }
            let g = multiset(&got.rows);
            match &lim {
                Some((_, skip, k)) => {
                    let expect = w.len().saturating_sub(*skip).min(*k);
                    if g.len() != expect || !is_subset(&g, &w) {
                        return Err(Fail::new("limited rows", format!("{} rows, expected {expect} of the {} rows; all of them there: {}", g.len(), w.len(), is_subset(&g, &w))));
                    }
                }
                None => {
                    if g != w {
                        let extra = g.iter().find(|x| !w.contains(x));
                        let missing = w.iter().find(|x| !g.contains(x));
                        return Err(Fail::new("rows", format!("{} rows, expected {}; extra {extra:?}; missing {missing:?}", g.len(), w.len())));
                    }
                }
            }
            if matches!(q.last(), Some(Step::SortLimit(..))) && got.rows.iter().map(|r| format!("{r:?}")).ne(want.rows.iter().map(|r| format!("{r:?}"))) {
                return Err(Fail::new("order", format!("{:?} expected {:?}", got.rows.first(), want.rows.first())));
            }
            ctx.obs += g.len() as u64 + 1;
        }
        ctx.key(format!("rows:{}", if w.is_empty() { "none" } else if w.len() == n { "all" } else { "some" }));
    }
    Ok(())
}
