//! C19: expressions over a batch; also the filters of C14.
use std::collections::HashSet;
use std::sync::Arc;

use rand::seq::SliceRandom;
use rand::Rng;
use vortex::array::StructArray;
use vortex::compute::Operator as AOp;
use vortex::validity::Validity;
use vortex::{Array, IntoArray};
use vortex_dtype::field::Field;
use vortex_dtype::{DType, FieldNames, Nullability, StructDType};
use vortex_expr::{split_conjunction, BinaryExpr, Column, Identity, Literal, Operator, Select, VortexExpr};

use crate::gen::{self, TyOpts, R};
use crate::model::*;
use crate::observe::*;
use crate::phys::{self, enc_id};
use crate::props_array::{bool_op, check_bool_result, model_cmp, subject_of, Res};
use crate::run::{Ctx, Fail};

#[derive(Clone)]
pub struct Col {
    pub name: String,
    pub dt: DType,
    pub vals: Vec<V>,
}

#[derive(Clone)]
pub struct Table {
    pub cols: Vec<Col>,
    pub n: usize,
}

impl Table {
    pub fn dtype(&self) -> DType {
        let names: Vec<Arc<str>> = self.cols.iter().map(|c| Arc::from(c.name.as_str())).collect();
        DType::Struct(
            StructDType::new(FieldNames::from(names), self.cols.iter().map(|c| c.dt.clone()).collect()),
            Nullability::NonNullable,
        )
    }
    pub fn project(&self, p: &[usize]) -> Table {
        Table {
            cols: p.iter().map(|&i| self.cols[i].clone()).collect(),
            n: self.n,
        }
    }
    pub fn rows(&self, s: usize, t: usize) -> Table {
        Table {
            cols: self
                .cols
                .iter()
                .map(|c| Col {
                    vals: c.vals[s..t].to_vec(),
                    ..c.clone()
                })
                .collect(),
            n: t - s,
        }
    }
    pub fn select(&self, keep: &[bool]) -> Table {
        let n = keep.iter().filter(|k| **k).count();
        Table {
            cols: self
                .cols
                .iter()
                .map(|c| Col {
                    vals: c.vals.iter().zip(keep).filter(|(_, k)| **k).map(|(v, _)| v.clone()).collect(),
                    ..c.clone()
                })
                .collect(),
            n,
        }
    }
    pub fn struct_vals(&self) -> Vec<V> {
        (0..self.n)
            .map(|i| V::Struct(self.cols.iter().map(|c| c.vals[i].clone()).collect()))
            .collect()
    }
}

pub fn gen_table(r: &mut R, ctx: &mut Ctx, o: TyOpts, n: usize, min_cols: usize) -> Table {
    let nc = if n <= 40 && r.gen_ratio(1, 60) {
        *[17usize, 40, 65, 130, 257, 300].choose(r).unwrap()
    } else {
        r.gen_range(min_cols..=min_cols + 3)
    };
    let cols = (0..nc)
        .map(|i| {
            let dt = gen::gen_dtype(r, o, 1);
            let mut vals = gen::gen_vals(r, &dt, n);
            vals.iter_mut().for_each(crate::known::quiet);
            Col {
                name: gen::field_name(r, i),
                dt,
                vals,
            }
        })
        .collect::<Vec<_>>();
    for c in &cols {
        ctx.key(format!("col:{}", dtclass(&c.dt)));
    }
    Table { cols, n }
}

/// One batch of the table with every column in a random physical form.
pub fn batch(r: &mut R, ctx: &mut Ctx, t: &Table) -> Result<Array, Fail> {
    let mut fields = vec![];
    for c in &t.cols {
        let a = if r.gen_bool(0.35) {
            gen::build(r, &c.dt, &c.vals)
        } else {
            subject_of(r, ctx, &c.dt, &c.vals)?
        };
        ctx.key(format!("enc:{}", enc_id(&a)));
        fields.push(a);
    }
    let names: Vec<Arc<str>> = t.cols.iter().map(|c| Arc::from(c.name.as_str())).collect();
    StructArray::try_new(FieldNames::from(names), fields, t.n, Validity::NonNullable)
        .map(|a| a.into_array())
        .map_err(|e| Fail::new(format!("batch {}", gist(&errs(&e))), errs(&e)))
}

pub enum E {
    Col(usize),
    Lit(V),
    Bin(Operator, Box<E>, Box<E>),
}

pub fn aop(o: Operator) -> AOp {
    match o {
        Operator::Eq => AOp::Eq,
        Operator::NotEq => AOp::NotEq,
        Operator::Gt => AOp::Gt,
        Operator::Gte => AOp::Gte,
        Operator::Lt => AOp::Lt,
        Operator::Lte => AOp::Lte,
        _ => unreachable!(),
    }
}

impl E {
    pub fn eval(&self, t: &Table, i: usize) -> V {
        match self {
            E::Col(c) => t.cols[*c].vals[i].clone(),
            E::Lit(v) => v.clone(),
            E::Bin(op, a, b) => {
                let (a, b) = (a.eval(t, i), b.eval(t, i));
                match op {
                    Operator::And => bool_op(true, &a, &b),
                    Operator::Or => bool_op(false, &a, &b),
                    o => model_cmp(aop(*o), &a, &b),
                }
            }
        }
    }
    pub fn eval_all(&self, t: &Table) -> Vec<V> {
        (0..t.n).map(|i| self.eval(t, i)).collect()
    }
    pub fn refs(&self, out: &mut HashSet<usize>) {
        match self {
            E::Col(c) => {
                out.insert(*c);
            }
            E::Lit(_) => {}
            E::Bin(_, a, b) => {
                a.refs(out);
                b.refs(out);
            }
        }
    }
    pub fn show(&self, t: &Table) -> String {
        match self {
            E::Col(c) => format!("#{c}:{}", dtclass(&t.cols[*c].dt)),
            E::Lit(v) => format!("{v:?}"),
            E::Bin(op, a, b) => format!("({} {op} {})", a.show(t), b.show(t)),
        }
    }
}

pub type XE = Arc<dyn VortexExpr>;

const CMPS: [Operator; 6] = [
    Operator::Eq,
    Operator::NotEq,
    Operator::Gt,
    Operator::Gte,
    Operator::Lt,
    Operator::Lte,
];

pub fn comparable(dt: &DType) -> bool {
    !matches!(dt, DType::Null | DType::Struct(..) | DType::List(..))
}

fn col(r: &mut R, t: &Table, i: usize, by_index: bool) -> (E, XE) {
    let f = if by_index && r.gen_bool(0.4) {
        Field::Index(i)
    } else {
        Field::Name(t.cols[i].name.clone())
    };
    (E::Col(i), Arc::new(Column::new(f)))
}

fn lit(r: &mut R, dt: &DType, near: &[V]) -> (E, XE) {
    let dt = if r.gen_bool(0.3) {
        dt.with_nullability(gen::nullability(r))
    } else {
        dt.clone()
    };
    let nn: Vec<&V> = near.iter().filter(|v| !v.is_null()).collect();
    let v = match r.gen_range(0..10) {
        0 if dt.is_nullable() => V::Null,
        1..=7 if !nn.is_empty() => (*nn.choose(r).unwrap()).clone(),
        8 => phys::default_nn(&dt),
        _ => {
            let mut v = gen::gen_vals(r, &nonnull(&dt), 2).pop().unwrap();
            crate::known::quiet(&mut v);
            v
        }
    };
    let s = v_to_scalar(&v, &dt);
    (E::Lit(v), Arc::new(Literal::new(s)))
}

fn bin(op: Operator, a: (E, XE), b: (E, XE)) -> (E, XE) {
    (E::Bin(op, Box::new(a.0), Box::new(b.0)), Arc::new(BinaryExpr::new(a.1, op, b.1)))
}

/// A boolean expression over the table. None when no column can be compared.
pub fn gen_bool(r: &mut R, t: &Table, depth: usize, by_index: bool) -> (E, XE) {
    if depth > 0 && r.gen_bool(0.6) {
        let a = gen_bool(r, t, depth - 1, by_index);
        let b = gen_bool(r, t, depth - 1, by_index);
        let op = if r.gen_bool(0.6) { Operator::And } else { Operator::Or };
        return bin(op, a, b);
    }
    let cs: Vec<usize> = (0..t.cols.len()).filter(|&i| comparable(&t.cols[i].dt)).collect();
    let bs: Vec<usize> = cs.iter().copied().filter(|&i| t.cols[i].dt.is_boolean()).collect();
    let k = r.gen_range(0..20);
    if k == 0 && !bs.is_empty() {
        let i = *bs.choose(r).unwrap();
        return col(r, t, i, by_index);
    }
    if k == 1 || cs.is_empty() {
        let nb = gen::nullability(r);
        return lit(r, &DType::Bool(nb), &[V::Bool(true), V::Bool(false)]);
    }
    let i = *cs.choose(r).unwrap();
    let op = *CMPS.choose(r).unwrap();
    let c = col(r, t, i, by_index);
    let same: Vec<usize> = cs.iter().copied().filter(|&j| nonnull(&t.cols[j].dt) == nonnull(&t.cols[i].dt)).collect();
    let other = if k < 6 && same.len() > 1 {
        let j = *same.choose(r).unwrap();
        col(r, t, j, by_index)
    } else {
        lit(r, &t.cols[i].dt, &t.cols[i].vals)
    };
    if r.gen_bool(0.25) {
        bin(op, other, c)
    } else {
        bin(op, c, other)
    }
}

pub fn c19(r: &mut R, ctx: &mut Ctx) -> Res {
    let n = gen::gen_len(r, ctx.max_len.min(2500));
    let t = gen_table(r, ctx, TyOpts::ALL, n, 1);
    ctx.trivial = n == 0;
    let b = batch(r, ctx, &t)?;
    ctx.step(format!("batch of {n} rows: {}", t.dtype()));
    if r.gen_bool(0.15) {
        return c19_select(r, ctx, &t, &b);
    }
    let depth = r.gen_range(0..4);
    let (e, x) = gen_bool(r, &t, depth, true);
    ctx.step(format!("evaluate {}", e.show(&t)));
    ctx.key(format!("depth:{depth}"));
    ctx.label("evaluate");
    let want = e.eval_all(&t);
    if !matches!(e, E::Lit(_)) {
        ctx.key(format!(
            "result:null={} true={} false={}",
            want.iter().any(|v| v.is_null()),
            want.contains(&V::Bool(true)),
            want.contains(&V::Bool(false))
        ));
    }
    let ev = |x: &XE, b: &Array, w: &str| -> Result<Array, Fail> {
        x.evaluate(b).map_err(|er| Fail::new(format!("{w} error {}", gist(&errs(&er))), errs(&er)))
    };
    let res = ev(&x, &b, "evaluate")?;
    check_bool_result(r, &res, &want)?;
    ctx.obs += n as u64;
    // the conjuncts together mean the same
    ctx.label("split");
    let parts = split_conjunction(&x);
    let mut all: Option<Vec<V>> = None;
    for p in &parts {
        let got = ev(p, &b, "conjunct")?;
        let got = decode(&got).map_err(|er| Fail::new(format!("decode {}", gist(&er)), er))?;
        all = Some(match all {
            None => got,
            Some(a) => a.iter().zip(&got).map(|(x, y)| bool_op(true, x, y)).collect(),
        });
    }
    let all = all.ok_or_else(|| Fail::new("no conjuncts", "split into nothing"))?;
    diff("conjuncts", &all, &want)?;
    // equality of expressions is equality of their structure
    ctx.label("equality");
    let show = format!("{x:?}");
    let mut nodes = 0;
    let same = rebuilt(&x, usize::MAX, &mut nodes);
    if !show.contains("NaN") && (*x != *same.as_any() || *same != *x.as_any()) {
        return Err(Fail::new("equality: copy differs", show));
    }
    let at = r.gen_range(0..nodes);
    let other = rebuilt(&x, at, &mut 0);
    if *x == *other.as_any() || *other == *x.as_any() {
        return Err(Fail::new("equality: different expressions equal", format!("{show} and {other:?}")));
    }
    // a batch with only the columns it reports needing
    ctx.label("references");
    let refs = x.references();
    let mut need = HashSet::new();
    e.refs(&mut need);
    let mut reported = HashSet::new();
    for f in &refs {
        let i = match f {
            Field::Name(nm) => t.cols.iter().position(|c| c.name == *nm),
            Field::Index(i) => Some(*i),
        };
        reported.insert(i.ok_or_else(|| Fail::new("unknown reference", format!("{f}")))?);
    }
    if !need.is_subset(&reported) {
        return Err(Fail::new("missing reference", format!("needs {need:?}, reports {reported:?} for {}", e.show(&t))));
    }
    let by_name = refs.iter().all(|f| matches!(f, Field::Name(_)));
    if by_name && !refs.is_empty() {
        let mut keep: Vec<usize> = reported.iter().copied().collect();
        keep.shuffle(r);
        let sub = t.project(&keep);
        let pb = batch(r, ctx, &sub)?;
        let got = ev(&x, &pb, "projected")?;
        check_bool_result(r, &got, &want)?;
    }
    Ok(())
}

/// A copy, except for the `change`th node.
fn rebuilt(x: &XE, change: usize, n: &mut usize) -> XE {
    let me = *n == change;
    *n += 1;
    if let Some(b) = x.as_any().downcast_ref::<BinaryExpr>() {
        let op = match (me, b.op()) {
            (false, o) => o,
            (true, Operator::Eq) => Operator::NotEq,
            (true, Operator::NotEq) => Operator::Gte,
            (true, Operator::Lt) => Operator::Lte,
            (true, Operator::Or) => Operator::And,
            (true, Operator::And) => Operator::Or,
            _ => Operator::Eq,
        };
        return Arc::new(BinaryExpr::new(rebuilt(b.lhs(), change, n), op, rebuilt(b.rhs(), change, n)));
    }
    if let Some(c) = x.as_any().downcast_ref::<Column>() {
        return Arc::new(Column::new(match c.field() {
            f if !me => f.clone(),
            Field::Name(s) => Field::Name(format!("{s}'")),
            Field::Index(i) => Field::Index(i + 1),
        }));
    }
    if me {
        return Arc::new(Literal::new("no literal of the generator".into()));
    }
    x.clone()
}

fn c19_select(r: &mut R, ctx: &mut Ctx, t: &Table, b: &Array) -> Res {
    let nc = t.cols.len();
    let mut pick: Vec<usize> = (0..nc).collect();
    pick.shuffle(r);
    pick.truncate(r.gen_range(0..=nc));
    let fields: Vec<Field> = pick
        .iter()
        .map(|&i| {
            if r.gen_bool(0.5) {
                Field::Index(i)
            } else {
                Field::Name(t.cols[i].name.clone())
            }
        })
        .collect();
    let (x, want): (XE, Table) = match r.gen_range(0..3) {
        0 => (Arc::new(Identity), t.clone()),
        1 => (Arc::new(Select::include(fields.clone())), t.project(&pick)),
        _ => {
            let rest: Vec<usize> = (0..nc).filter(|i| !pick.contains(i)).collect();
            (Arc::new(Select::exclude(fields.clone())), t.project(&rest))
        }
    };
    ctx.step(format!("{x:?}"));
    ctx.label(format!("select {}", if want.cols.is_empty() { "none" } else { "some" }));
    ctx.key(format!("select:{}", want.cols.len()));
    let got = x.evaluate(b).map_err(|e| Fail::new(format!("error {}", gist(&errs(&e))), errs(&e)))?;
    ctx.obs += t.n as u64;
    check_all(r, &got, &want.dtype(), &want.struct_vals())
}
