//! C20: dates, times and timestamps.

use arrow_schema::{DataType, Field, TimeUnit as ATU};
use rand::seq::SliceRandom;
use rand::Rng;
use vortex::array::{ChunkedArray, ConstantArray, TemporalArray};
use vortex::arrow::{FromArrowArray, FromArrowType};
use vortex::compute::compare;
use vortex::compute::unary::scalar_at;
use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant, IntoCanonical};
use vortex_datetime_dtype::arrow::{make_arrow_temporal_dtype, make_temporal_ext_dtype};
use vortex_datetime_dtype::{TemporalJiff, TemporalMetadata as TM, TimeUnit, DATE_ID, TIMESTAMP_ID, TIME_ID};
use vortex_datetime_parts::{split_temporal, DateTimePartsArray};
use vortex_dtype::{DType, ExtDType, ExtMetadata, Nullability, PType};
use vortex_scalar::Scalar;

use crate::gen::{self, R};
use crate::ipc;
use crate::model::*;
use crate::observe::*;
use crate::phys::{self, enc_id, enc_tree};
use crate::props_array::{describe, model_cmp, select_step, check_bool_result, subject_of, Res, OPS};
use crate::run::{Ctx, Fail};

fn bad<T>(c: impl Into<String>, d: impl std::fmt::Display) -> Result<T, Fail> {
    Err(Fail::new(c, d.to_string()))
}

const ZONES: &[&str] = &[
    "UTC", "Etc/UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "+05:30", "-00:01", "Zürich/Ünïcode", "x", "no such zone",
];

fn meta(r: &mut R, kind: u32) -> TM {
    match kind {
        0 => TM::Date(*[TimeUnit::D, TimeUnit::Ms].choose(r).unwrap()),
        1 => TM::Time(*[TimeUnit::S, TimeUnit::Ms, TimeUnit::Us, TimeUnit::Ns].choose(r).unwrap()),
        _ => TM::Timestamp(
            *[TimeUnit::S, TimeUnit::Ms, TimeUnit::Us, TimeUnit::Ns].choose(r).unwrap(),
            match r.gen_range(0..8) {
                0..=3 => None,
                4..=6 => Some(ZONES.choose(r).unwrap().to_string()),
                _ => Some("z".repeat(*[1usize, 255, 256, 257, 65_535].choose(r).unwrap())),
            },
        ),
    }
}

fn ext_of(m: &TM) -> ExtDType {
    let id = match m {
        TM::Date(_) => DATE_ID.clone(),
        TM::Time(_) => TIME_ID.clone(),
        TM::Timestamp(..) => TIMESTAMP_ID.clone(),
    };
    ExtDType::new(id, Some(m.clone().into()))
}

/// the Arrow type of the same meaning, written down from the Arrow specification
fn arrow_of(m: &TM) -> DataType {
    let u = |u: &TimeUnit| match u {
        TimeUnit::Ns => ATU::Nanosecond,
        TimeUnit::Us => ATU::Microsecond,
        TimeUnit::Ms => ATU::Millisecond,
        TimeUnit::S => ATU::Second,
        TimeUnit::D => unreachable!(),
    };
    match m {
        TM::Date(TimeUnit::D) => DataType::Date32,
        TM::Date(_) => DataType::Date64,
        TM::Time(t @ (TimeUnit::S | TimeUnit::Ms)) => DataType::Time32(u(t)),
        TM::Time(t) => DataType::Time64(u(t)),
        TM::Timestamp(t, z) => DataType::Timestamp(u(t), z.as_ref().map(|z| z.as_str().into())),
    }
}

pub fn per_second(u: TimeUnit) -> i128 {
    match u {
        TimeUnit::Ns => 1_000_000_000,
        TimeUnit::Us => 1_000_000,
        TimeUnit::Ms => 1000,
        TimeUnit::S => 1,
        TimeUnit::D => unreachable!(),
    }
}

/// Values near the edges of days, seconds, the epoch and the representation.
fn gen_ticks(r: &mut R, m: &TM, n: usize) -> Vec<V> {
    let e = ext_of(m);
    let dt = DType::Extension(e.clone(), Nullability::NonNullable);
    let (lo, hi) = int_range(ext_storage_ptype(&e).unwrap());
    let (sec, day) = match m.time_unit() {
        TimeUnit::D => (1, 1),
        u => (per_second(u), 86_400 * per_second(u)),
    };
    match r.gen_range(0..6) {
        0 => gen::gen_flat(r, &dt, n),
        1 => gen::gen_temporal_pool(r, &dt, n),
        _ => {
            let pool: Vec<i128> = (0..r.gen_range(1..12))
                .map(|_| {
                    let k: i128 = match r.gen_range(0..6) {
                        0 => 0,
                        1 => r.gen_range(-3..4) * day,
                        2 => r.gen_range(-100_000..100_000) * sec,
                        3 => r.gen_range(-40_000..60_000) * day + r.gen_range(-1..2) * sec,
                        4 => lo + if r.gen() { 0 } else { r.gen_range(0..3) * day },
                        _ => hi - if r.gen() { 0 } else { r.gen_range(0..3) * day },
                    };
                    (k + r.gen_range(-1..2)).clamp(lo, hi)
                })
                .collect();
            (0..n).map(|_| V::Int(*pool.choose(r).unwrap())).collect()
        }
    }
}

fn with_nulls(r: &mut R, dt: &DType, mut v: Vec<V>) -> Vec<V> {
    if dt.is_nullable() {
        let nn = gen::gen_nulls(r, v.len());
        for (x, isn) in v.iter_mut().zip(nn) {
            if isn {
                *x = V::Null;
            }
        }
    }
    v
}

pub fn c20(r: &mut R, ctx: &mut Ctx) -> Res {
    match r.gen_range(0..10) {
        0..=2 => parts(r, ctx).map_err(|f| f.at("parts")),
        3..=6 => journey(r, ctx).map_err(|f| f.at("journey")),
        7 => metadata(r, ctx).map_err(|f| f.at("metadata")),
        8 => calendar(r, ctx).map_err(|f| f.at("calendar")),
        _ => order(r, ctx).map_err(|f| f.at("order")),
    }
}

// ------------------------------------------------------------------ parts
fn int_child(r: &mut R, ctx: &mut Ctx, vals: &[V], nullable: Nullability) -> Result<Array, Fail> {
    let (lo, hi) = vals.iter().fold((0i128, 0i128), |(l, h), v| if let V::Int(i) = v { (l.min(*i), h.max(*i)) } else { (l, h) });
    let fits: Vec<PType> = gen::INTS.iter().copied().filter(|p| int_range(*p).0 <= lo && hi <= int_range(*p).1).collect();
    let dt = DType::Primitive(*fits.choose(r).unwrap(), nullable);
    subject_of(r, ctx, &dt, vals)
}

fn parts(r: &mut R, ctx: &mut Ctx) -> Res {
    let m = meta(r, 2);
    let dt = DType::Extension(ext_of(&m), gen::nullability(r));
    let n = gen::gen_len(r, ctx.max_len);
    ctx.trivial = n == 0;
    let vals = gen_ticks(r, &m, n);
    let vals = with_nulls(r, &dt, vals);
    // the ticks may be stored in any encoding
    let storage = storage_dtype(&dt);
    let stored = if r.gen() { gen::build(r, &storage, &vals) } else { subject_of(r, ctx, &storage, &vals)? };
    let zone = m.time_zone().map(|z| z.to_string());
    ctx.step(format!("{dt} {} stored as {}", show(&vals), enc_tree(&stored)).chars().take(4000).collect::<String>());
    ctx.key(format!("parts:{:?}/{}/{}", m.time_unit(), zone.is_some(), enc_id(&stored)));
    let t = TemporalArray::new_timestamp(stored, m.time_unit(), zone);
    if t.temporal_metadata() != &m || t.ext_dtype() != &ext_of(&m) {
        return bad("metadata", format!("{:?} expected {m:?}", t.temporal_metadata()));
    }
    ctx.label("split");
    let p = split_temporal(t.clone()).or_else(|e| bad(format!("error {}", gist(&errs(&e))), errs(&e)))?;
    let sec = per_second(m.time_unit());
    let read = |a: &Array, what: &str| -> Result<Vec<V>, Fail> { decode(a).or_else(|e| bad(format!("decode {what}"), e)) };
    let (d, s, u) = (read(&p.days, "days")?, read(&p.seconds, "seconds")?, read(&p.subseconds, "subseconds")?);
    if d.len() != n || s.len() != n || u.len() != n {
        return bad("length", format!("{} {} {} parts of {n}", d.len(), s.len(), u.len()));
    }
    for i in 0..n {
        match (&vals[i], &d[i], &s[i], &u[i]) {
            (V::Null, V::Null, V::Int(_), V::Int(_)) => {}
            (V::Int(v), V::Int(d), V::Int(s), V::Int(u)) => {
                if d * 86_400 * sec + s * sec + u != *v {
                    return bad("sum", format!("row {i}: {v} split into {d} days {s} s {u}"));
                }
                if s.abs() >= 86_400 || u.abs() >= sec {
                    return bad("range", format!("row {i}: {v} split into {d} days {s} s {u}"));
                }
            }
            o => return bad("nulls", format!("row {i}: {o:?}")),
        }
    }
    // parts of any type that holds them, in any encoding; or the same instants in other parts
    let mut d = d;
    let mut s = s;
    let mut u = u;
    if r.gen_bool(0.3) {
        // as floor division would have it
        for i in 0..n {
            if let V::Int(v) = &vals[i] {
                if *v < i64::MIN as i128 + 86_400 * sec {
                    continue; // the floored day would start before the representation does
                }
                let day = v.div_euclid(86_400 * sec);
                let rem = v.rem_euclid(86_400 * sec);
                (d[i], s[i], u[i]) = (V::Int(day), V::Int(rem / sec), V::Int(rem % sec));
            }
        }
        ctx.key("parts:floored");
    }
    let own = r.gen_bool(0.3);
    let kids = if own {
        [p.days.clone(), p.seconds.clone(), p.subseconds.clone()]
    } else {
        [
            int_child(r, ctx, &d, dt.nullability())?,
            int_child(r, ctx, &s, Nullability::NonNullable)?,
            int_child(r, ctx, &u, Nullability::NonNullable)?,
        ]
    };
    ctx.step(format!("parts {}", kids.iter().map(enc_tree).collect::<Vec<_>>().join(" | ")));
    let [kd, ks, ku] = kids;
    ctx.label("join");
    let a = DateTimePartsArray::try_new(dt.clone(), kd, ks, ku).or_else(|e| bad(format!("error {}", gist(&errs(&e))), errs(&e)))?.into_array();
    ctx.obs += n as u64;
    check_all(r, &a, &dt, &vals)?;
    same_kind(&a, &m, &dt)?;
    let mut cur = (vals, a);
    for _ in 0..r.gen_range(0..3) {
        match select_step(r, ctx, &dt, &cur.0, &cur.1)? {
            Some(x) => cur = x,
            None => break,
        }
        same_kind(&cur.1, &m, &dt)?;
        check_all(r, &cur.1, &dt, &cur.0)?;
    }
    Ok(())
}

/// The array, seen as dates and times, has this unit and zone.
fn same_kind(a: &Array, m: &TM, dt: &DType) -> Res {
    if a.dtype() != dt {
        return bad("dtype", format!("{} expected {dt}", a.dtype()));
    }
    let ext = a.clone().into_extension().or_else(|e| bad("canonical", errs(&e)))?;
    let t = TemporalArray::try_from(ext.into_array()).or_else(|e| bad("temporal", errs(&e)))?;
    if t.temporal_metadata() != m || t.temporal_metadata().time_unit() != m.time_unit() || t.temporal_metadata().time_zone() != m.time_zone() {
        return bad("unit or zone", format!("{:?} expected {m:?}", t.temporal_metadata()));
    }
    if t.ext_dtype() != &ext_of(m) {
        return bad("ext dtype", format!("{:?}", t.ext_dtype()));
    }
    Ok(())
}

// ------------------------------------------------------------------ journeys
fn journey(r: &mut R, ctx: &mut Ctx) -> Res {
    let kind = r.gen_range(0..5);
    let m = meta(r, kind);
    let dt = DType::Extension(ext_of(&m), gen::nullability(r));
    let n = gen::gen_len(r, ctx.max_len.min(3000));
    ctx.trivial = n == 0;
    let vals = gen_ticks(r, &m, n);
    let mut vals = with_nulls(r, &dt, vals);
    ctx.key(format!("kind:{}", dtclass(&dt)));
    let mut a = match r.gen_range(0..4) {
        0 => {
            let st = storage_dtype(&dt);
            let s = subject_of(r, ctx, &st, &vals)?;
            let u = m.time_unit();
            match &m {
                TM::Date(_) => TemporalArray::new_date(s, u),
                TM::Time(_) => TemporalArray::new_time(s, u),
                TM::Timestamp(_, z) => TemporalArray::new_timestamp(s, u, z.clone()),
            }
            .into()
        }
        1 => subject_of(r, ctx, &dt, &vals)?,
        _ => gen::build(r, &dt, &vals),
    };
    describe(ctx, "array", &dt, &vals, &a);
    for _ in 0..r.gen_range(1..5) {
        let how = r.gen_range(0..7);
        match how {
            0 | 1 => match select_step(r, ctx, &dt, &vals, &a)? {
                Some(x) => (vals, a) = x,
                None => continue,
            },
            2 => {
                ctx.label(format!("compress {}", enc_id(&a)));
                let c = phys::random_compressor(r);
                a = c.compress(&a, None).or_else(|e| bad(format!("error {}", gist(&errs(&e))), errs(&e)))?.into_array();
                ctx.step(format!("compressed to {}", enc_tree(&a)));
            }
            3 => {
                ctx.label(format!("stream {}", enc_id(&a)));
                if let Some(b) = ipc::roundtrip_one(&a).or_else(|e| bad(format!("error {}", gist(&errs(&e))), errs(&e)))? {
                    a = b;
                    ctx.step("stream round trip");
                }
            }
            4 => {
                ctx.label(format!("arrow {}", enc_id(&a)));
                let arrow = a.clone().into_canonical().and_then(|c| c.into_arrow()).or_else(|e| bad(format!("error {}", gist(&errs(&e))), errs(&e)))?;
                if arrow.data_type() != &arrow_of(&m) {
                    return bad("arrow type", format!("{} expected {}", arrow.data_type(), arrow_of(&m)));
                }
                let got = read_arrow(&arrow, &dt).or_else(|e| bad("arrow read", e))?;
                diff("arrow", &got, &vals)?;
                a = Array::from_arrow(arrow, dt.is_nullable());
                ctx.step("arrow round trip");
            }
            5 => {
                let k = phys::cuts(r, vals.len(), 4);
                let mut chunks = vec![];
                for (s, e) in phys::ranges(&k, vals.len()) {
                    chunks.push(subject_of(r, ctx, &dt, &vals[s..e])?);
                }
                a = ChunkedArray::try_new(chunks, dt.clone()).or_else(|e| bad("chunked", errs(&e)))?.into_array();
                ctx.step(format!("chunked {}", enc_tree(&a)));
            }
            _ => {
                let b = match phys::encode_any(r, &dt, &vals, a.clone(), 2) {
                    Ok(b) => b,
                    Err(_) => continue,
                };
                a = b;
                ctx.step(format!("encoded as {}", enc_tree(&a)));
            }
        }
        ctx.key(format!("step:{how}/{}", enc_id(&a)));
        ctx.label(format!("after step {how}"));
        same_kind(&a, &m, &dt)?;
        check_all(r, &a, &dt, &vals)?;
        ctx.obs += vals.len() as u64;
    }
    Ok(())
}

// ------------------------------------------------------------------ metadata
fn metadata(r: &mut R, ctx: &mut Ctx) -> Res {
    let kind = r.gen_range(0..4);
    let m = meta(r, kind);
    ctx.step(format!("{m:?}"));
    ctx.key(format!("meta:{}", gist(&format!("{m:?}"))));
    let e = ext_of(&m);
    let back = TM::try_from(&e).or_else(|e| bad("decode", errs(&e)))?;
    if back != m {
        return bad("round trip", format!("{back:?} expected {m:?}"));
    }
    let at = arrow_of(&m);
    if make_arrow_temporal_dtype(&e) != at {
        return bad("to arrow", format!("{} expected {at}", make_arrow_temporal_dtype(&e)));
    }
    if make_temporal_ext_dtype(&at) != e {
        return bad("from arrow", format!("{:?} expected {e:?}", make_temporal_ext_dtype(&at)));
    }
    let nullable = r.gen();
    let dt = DType::from_arrow(&Field::new("x", at, nullable));
    if dt != DType::Extension(e.clone(), nullable.into()) {
        return bad("field", format!("{dt}"));
    }
    // different kinds, units and zones are different types
    let k2 = r.gen_range(0..4);
    let m2 = meta(r, k2);
    let e2 = ext_of(&m2);
    if (m == m2) != (e == e2) || (m == m2) != (arrow_of(&m) == make_arrow_temporal_dtype(&e2)) {
        return bad("confused", format!("{m:?} and {m2:?}"));
    }
    // cut or unknown metadata is refused
    let raw: ExtMetadata = m.clone().into();
    let bytes = raw.as_ref().to_vec();
    let mut b = bytes.clone();
    let what = r.gen_range(0..3);
    match what {
        0 => b[0] = r.gen_range(5..=255),
        1 => b.truncate(r.gen_range(0..b.len())),
        _ => b.clear(),
    }
    let meta2 = if what == 2 && r.gen() { None } else { Some(ExtMetadata::from(b.as_slice())) };
    let x = ExtDType::new(e.id().clone(), meta2);
    if let Ok(x) = TM::try_from(&x) {
        return bad("accepted", format!("{b:?} as {x:?}"));
    }
    // only storage of the width belonging to the unit is accepted
    let ptype = *gen::INTS.iter().chain(&[PType::F64, PType::F32]).collect::<Vec<_>>().choose(r).unwrap();
    let unit = *[TimeUnit::Ns, TimeUnit::Us, TimeUnit::Ms, TimeUnit::S, TimeUnit::D].choose(r).unwrap();
    let which = r.gen_range(0..3);
    let vals: Vec<V> = if ptype.is_int() { vec![V::Int(1), V::Int(100)] } else { gen::gen_flat(r, &DType::Primitive(*ptype, Nullability::NonNullable), 2) };
    let a = gen::build_prim(*ptype, &vals, &vals, vortex::validity::Validity::NonNullable).into_array();
    let ok = matches!(
        (which, unit, ptype),
        (0, TimeUnit::D, PType::I32)
            | (0, TimeUnit::Ms, PType::I64)
            | (1, TimeUnit::S | TimeUnit::Ms, PType::I32)
            | (1, TimeUnit::Us | TimeUnit::Ns, PType::I64)
            | (2, TimeUnit::S | TimeUnit::Ms | TimeUnit::Us | TimeUnit::Ns, PType::I64)
    );
    ctx.step(format!("constructor {which} {unit:?} of {ptype}"));
    ctx.key(format!("new:{which}/{unit:?}/{ptype}"));
    ctx.obs += 6;
    let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match which {
        0 => TemporalArray::new_date(a.clone(), unit),
        1 => TemporalArray::new_time(a.clone(), unit),
        _ => TemporalArray::new_timestamp(a.clone(), unit, None),
    }));
    match (made, ok) {
        (Err(_), false) => {
            crate::run::take_panic();
        }
        (Err(_), true) => return bad("refused", format!("{which} {unit:?} of {ptype}")),
        (Ok(_), false) => return bad("accepted width", format!("{which} {unit:?} of {ptype}")),
        (Ok(t), true) => {
            if t.temporal_metadata().time_unit() != unit {
                return bad("unit", format!("{:?}", t.temporal_metadata()));
            }
            let e: Array = t.clone().into();
            let t2 = TemporalArray::try_from(&e).or_else(|e| bad("again", errs(&e)))?;
            if t2.temporal_metadata() != t.temporal_metadata() || t2.ext_dtype() != t.ext_dtype() {
                return bad("again differs", format!("{:?}", t2.temporal_metadata()));
            }
            diff("values", &decode(&t2.temporal_values()).or_else(|e| bad("decode", e))?, &vals)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ calendar
/// days since 1970-01-01 to year, month, day (proleptic Gregorian)
pub fn civil(days: i128) -> (i128, u32, u32) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + i128::from(m <= 2), m, d)
}

fn clock(ns: i128) -> String {
    let s = ns / 1_000_000_000;
    let f = ns % 1_000_000_000;
    let mut t = format!("{:02}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60);
    if f != 0 {
        t += format!(".{f:09}").trim_end_matches('0');
    }
    t
}

fn year(y: i128) -> String {
    if y < 0 {
        format!("-{:06}", -y)
    } else {
        format!("{y:04}")
    }
}

fn calendar(r: &mut R, ctx: &mut Ctx) -> Res {
    let kind = r.gen_range(0..4);
    let mut m = meta(r, kind);
    if let TM::Timestamp(_, Some(z)) = &mut m {
        *z = ["UTC", "Etc/UTC", "Europe/Berlin", "Asia/Kolkata", "America/New_York"].choose(r).unwrap().to_string();
    }
    let dt = DType::Extension(ext_of(&m), gen::nullability(r));
    ctx.key(format!("calendar:{}", dtclass(&dt)));
    for v in gen_ticks(r, &m, 12) {
        let V::Int(mut v) = v else { continue };
        if let TM::Date(TimeUnit::Ms) = m {
            v = v / 86_400_000 * 86_400_000; // whole days
        }
        ctx.step(format!("{m:?} of {v}"));
        ctx.obs += 1;
        let got = m.to_jiff(v as i64);
        // what it should say, if the calendar reaches there (years -9999 to 9999)
        let want = match &m {
            TM::Date(u) => {
                let days = if *u == TimeUnit::D { v } else { v / 86_400_000 };
                let (y, mo, d) = civil(days);
                (-9999..=9999).contains(&y).then(|| format!("{}-{mo:02}-{d:02}", year(y)))
            }
            TM::Time(u) => {
                let k = per_second(*u);
                (0..86_400 * k).contains(&v).then(|| clock(v * (1_000_000_000 / k)))
            }
            TM::Timestamp(u, _) => {
                let ns = v * (1_000_000_000 / per_second(*u));
                let day = ns.div_euclid(86_400_000_000_000);
                let (y, mo, d) = civil(day);
                // instants stop a little short of the civil range
                (-9998..=9998).contains(&y).then(|| format!("{}-{mo:02}-{d:02}T{}Z", year(y), clock(ns.rem_euclid(86_400_000_000_000))))
            }
        };
        let edge = matches!(m, TM::Timestamp(..)) && {
            let ns = v * (1_000_000_000 / per_second(m.time_unit()));
            [-9999, 9999].contains(&civil(ns.div_euclid(86_400_000_000_000)).0)
        };
        let text = match (got, &want) {
            (Err(_), None) => None,
            (Ok(j), None) if edge => Some(j.to_string()),
            (Ok(j), None) => return bad("out of range accepted", format!("{j}")),
            (Err(e), Some(w)) => return bad(format!("error {}", gist(&errs(&e))), format!("{} for {w}", errs(&e))),
            (Ok(TemporalJiff::Zoned(z)), Some(w)) => {
                let TM::Timestamp(u, Some(zone)) = &m else { return bad("kind", "zoned") };
                let ns = v * (1_000_000_000 / per_second(*u));
                if z.timestamp().as_nanosecond() != ns {
                    return bad("instant", format!("{z} expected {w}"));
                }
                if z.timestamp().to_string() != *w {
                    return bad("instant text", format!("{z} expected {w}"));
                }
                if z.time_zone().iana_name() != Some(zone) {
                    return bad("zone", format!("{z} expected {zone}"));
                }
                Some(z.to_string())
            }
            (Ok(j), Some(w)) => {
                let s = j.to_string();
                if s != *w {
                    return bad("text", format!("{s} expected {w}"));
                }
                Some(s)
            }
        };
        // the scalar shows the same
        let s = Scalar::extension(ext_of(&m), v_to_scalar(&V::Int(v), &storage_dtype(&dt)));
        let shown = s.to_string();
        match text {
            Some(t) if shown != t => return bad("scalar text", format!("{shown} expected {t}")),
            None if !shown.contains(&v.to_string()) => return bad("scalar text", format!("{shown} for {v}")),
            _ => {}
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ order
/// Comparing, also across units and zones: by instant, or not at all.
fn order(r: &mut R, ctx: &mut Ctx) -> Res {
    let kind = r.gen_range(0..4);
    let m1 = meta(r, kind);
    let m2 = match r.gen_range(0..5) {
        0 => meta(r, kind),
        1 => {
            let k = r.gen_range(0..4);
            meta(r, k)
        }
        _ => m1.clone(),
    };
    let n = gen::gen_len(r, ctx.max_len.min(2000));
    ctx.trivial = n == 0;
    let side = |r: &mut R, ctx: &mut Ctx, m: &TM, like: Option<&[V]>| -> Result<(DType, Vec<V>, Array), Fail> {
        let dt = DType::Extension(ext_of(m), gen::nullability(r));
        let mut v = gen_ticks(r, m, n);
        if let Some(l) = like {
            let (lo, hi) = int_range(ext_storage_ptype(&ext_of(m)).unwrap());
            for (x, l) in v.iter_mut().zip(l) {
                if let (true, V::Int(i)) = (r.gen_bool(0.5), l) {
                    if (lo..=hi).contains(i) {
                        *x = l.clone();
                    }
                }
            }
        }
        let mut v = with_nulls(r, &dt, v);
        if n > 0 && r.gen_bool(0.3) {
            let s = v_to_scalar(&v[0], &dt);
            v = vec![v[0].clone(); n];
            return Ok((dt, v, ConstantArray::new(s, n).into_array()));
        }
        let a = subject_of(r, ctx, &dt, &v)?;
        Ok((dt, v, a))
    };
    let (d1, v1, a1) = side(r, ctx, &m1, None)?;
    let (_, v2, a2) = side(r, ctx, &m2, Some(&v1))?;
    let op = *OPS.choose(r).unwrap();
    describe(ctx, "left", &d1, &v1, &a1);
    describe(ctx, "right", a2.dtype(), &v2, &a2);
    ctx.label(format!("{} {op} {}", enc_id(&a1), enc_id(&a2)));
    // the same kind of thing measured in one unit, or the instants they stand for
    let scale = |m: &TM, v: &V| -> V {
        match (m, v) {
            (_, V::Null) => V::Null,
            (TM::Date(TimeUnit::D), V::Int(i)) => V::Int(i * 86_400_000_000_000),
            (m, V::Int(i)) => V::Int(i * (1_000_000_000 / per_second(m.time_unit()))),
            (_, o) => panic!("{o:?}"),
        }
    };
    let comparable = matches!((&m1, &m2), (TM::Date(_), TM::Date(_)) | (TM::Time(_), TM::Time(_)) | (TM::Timestamp(..), TM::Timestamp(..)));
    let got = match compare(&a1, &a2, op) {
        Ok(x) => x,
        Err(e) if m1 == m2 => return bad(format!("error {}", gist(&errs(&e))), errs(&e)),
        Err(_) => {
            ctx.refused += 1;
            ctx.key("order:refused");
            return Ok(());
        }
    };
    if !comparable {
        return bad("different kinds compared", format!("{m1:?} {op} {m2:?}"));
    }
    let want: Vec<V> = v1.iter().zip(&v2).map(|(x, y)| model_cmp(op, &scale(&m1, x), &scale(&m2, y))).collect();
    ctx.obs += n as u64;
    check_bool_result(r, &got, &want)?;
    // single elements
    if n > 0 && m1 == m2 {
        let i = r.gen_range(0..n);
        let (x, y) = (scalar_at(&a1, i).or_else(|e| bad("scalar_at", errs(&e)))?, scalar_at(&a2, i).or_else(|e| bad("scalar_at", errs(&e)))?);
        if !v1[i].is_null() && !v2[i].is_null() && x.partial_cmp(&y).is_some_and(|o| o != vcmp(&v1[i], &v2[i])) {
            return bad("scalar order", format!("{x} {y}"));
        }
    }
    Ok(())
}

