//! C11-C16: streams, random access, files, filtered scans, damage, adverse storage.
use std::sync::Arc;

use bytes::BytesMut;
use futures::{pin_mut, Stream, StreamExt};
use rand::seq::SliceRandom;
use rand::Rng;
use vortex::array::{ChunkedArray, PrimitiveArray, StructArray};
use vortex::compute::slice;
use vortex::validity::Validity;
use vortex::stream::{ArrayStream, ArrayStreamExt};
use vortex::variants::StructArrayTrait;
use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
use vortex_buffer::Buffer;
use vortex_dtype::field::Field;
use vortex_dtype::{DType, Nullability, PType};
use vortex_error::{VortexError, VortexResult};
use vortex_serde::chunked_reader::ChunkedArrayReader;
use vortex_serde::io::offset::OffsetReadAt;
use vortex_serde::io::{FuturesAdapter, ObjectStoreExt, TokioAdapter, VortexRead, VortexReadAt, VortexWrite};
use vortex_serde::layouts::{
    LayoutBatchStream, LayoutContext, LayoutDeserializer, LayoutReaderBuilder, LayoutWriter, Projection, RowFilter,
};
use vortex_serde::stream_reader::StreamArrayReader;
use vortex_serde::stream_writer::StreamArrayWriter;

use crate::adv::*;
use crate::gen::{self, TyOpts, R};
use crate::ipc::ctx as enc_ctx;
use crate::model::*;
use crate::observe::*;
use crate::phys::{self, enc_tree};
use crate::props_array::{describe, subject_of, Res};
use crate::props_expr::{batch, gen_bool, gen_table, Table, E, XE};
use crate::props_stats::check_tree;
use crate::run::{Ctx, Fail};

fn fail(what: &str, e: &VortexError) -> Fail {
    Fail::new(format!("{what} error {}", gist(&errs(e))), errs(e))
}

/// Everything a stream delivers up to its first error.
pub async fn drain<S: Stream<Item = VortexResult<Array>>>(s: S) -> (Vec<Array>, Option<VortexError>) {
    pin_mut!(s);
    let mut out = vec![];
    while let Some(x) = s.next().await {
        match x {
            Ok(a) => out.push(a),
            Err(e) => return (out, Some(e)),
        }
    }
    (out, None)
}

// ------------------------------------------------------------------ streams
pub struct Sent {
    pub dt: DType,
    pub vals: Vec<V>,
    pub a: Array,
    /// lengths of the chunks it is written as
    pub lens: Vec<usize>,
}

pub fn chunk_lens(a: &Array) -> Vec<usize> {
    match ChunkedArray::try_from(a.clone()) {
        Ok(c) => c.chunks().map(|x| x.len()).collect(),
        Err(_) => vec![a.len()],
    }
}

pub fn gen_sent(r: &mut R, ctx: &mut Ctx, max: usize) -> Result<Sent, Fail> {
    let dt = gen::gen_dtype(r, TyOpts::ALL, 0);
    let n = gen::gen_len(r, max);
    let mut vals = gen::gen_vals(r, &dt, n);
    vals.iter_mut().for_each(crate::known::quiet);
    let a = if r.gen_bool(0.3) {
        let x = gen::build(r, &dt, &vals);
        phys::encode(r, "chunked", &dt, &vals, &x, 2).ok().flatten().unwrap_or(x)
    } else {
        subject_of(r, ctx, &dt, &vals)?
    };
    describe(ctx, "write", &dt, &vals, &a);
    let lens = chunk_lens(&a);
    Ok(Sent { dt, vals, a, lens })
}

enum Item {
    Arr(Sent),
    Page(Vec<u8>),
}

/// What comes before the second array, read by one reader.
async fn read_items<T: VortexRead>(rd: T, items: &[Item], given: Option<DType>) -> Result<Vec<(DType, Vec<Array>)>, Fail> {
    let mut m = StreamArrayReader::try_new(rd, enc_ctx()).await.map_err(|e| fail("open", &e))?;
    let mut out = vec![];
    for it in items {
        match it {
            Item::Arr(_) if !out.is_empty() => break,
            Item::Arr(_) => {
                m = match &given {
                    Some(d) => m.with_dtype(Arc::new(d.clone())),
                    None => m.load_dtype().await.map_err(|e| fail("read dtype", &e))?,
                };
                let s = m.array_stream();
                let dt = ArrayStream::dtype(&s).clone();
                let (got, e) = drain(s).await;
                if let Some(e) = e {
                    return Err(fail("read chunk", &e));
                }
                out.push((dt, got));
            }
            Item::Page(p) => {
                let got = m.next_page().await.map_err(|e| fail("read page", &e))?;
                match got {
                    Some(b) if b.as_slice() == &p[..] => {}
                    o => return Err(Fail::new("page", format!("page of {} bytes read as {:?}", p.len(), o.map(|b| b.len())))),
                }
            }
        }
    }
    Ok(out)
}

async fn write_items<W: VortexWrite>(w: W, items: &[Item]) -> VortexResult<StreamArrayWriter<W>> {
    let mut w = StreamArrayWriter::new(w);
    for it in items {
        w = match it {
            Item::Arr(s) => w.write_array(s.a.clone()).await?,
            Item::Page(p) => w.write_page(Buffer::from(p.clone())).await?,
        }
    }
    Ok(w)
}

fn gen_items(r: &mut R, ctx: &mut Ctx, max: usize) -> Result<Vec<Item>, Fail> {
    let k = *[1usize, 1, 1, 2, 3].choose(r).unwrap();
    let mut items = vec![];
    for _ in 0..k {
        if r.gen_bool(0.12) {
            let n = *[0usize, 1, 63, 64, 65, 1000].choose(r).unwrap();
            items.push(Item::Page((0..n).map(|_| r.gen()).collect()));
        }
        items.push(Item::Arr(gen_sent(r, ctx, max)?));
    }
    ctx.key(format!("arrays-in-stream:{k}"));
    Ok(items)
}

fn check_items(r: &mut R, ctx: &mut Ctx, items: &[Item], got: &[(DType, Vec<Array>)], stats: bool) -> Res {
    let sents: Vec<&Sent> = items
        .iter()
        .filter_map(|i| match i {
            Item::Arr(s) => Some(s),
            _ => None,
        })
        .collect();
    for (s, (dt, chunks)) in sents.iter().zip(got) {
        ctx.label(format!("stream {}", enc_tree(&s.a).split('(').next().unwrap_or("")));
        if *dt != s.dt {
            return Err(Fail::new("stream dtype", format!("written {}, read {dt}", s.dt)));
        }
        let lens: Vec<usize> = chunks.iter().map(|c| c.len()).collect();
        if lens != s.lens {
            return Err(Fail::new("chunk lengths", format!("written {:?}, read {lens:?}", s.lens)));
        }
        let mut at = 0;
        for c in chunks {
            let part = &s.vals[at..at + c.len()];
            check_all(r, c, &s.dt, part)?;
            if stats {
                check_tree(c, &s.dt, part, ctx, "streamed", 3)?;
            }
            at += c.len();
            ctx.obs += c.len() as u64 + 1;
        }
        if at != s.vals.len() {
            return Err(Fail::new("rows", format!("written {}, read {at}", s.vals.len())));
        }
    }
    Ok(())
}

pub fn c11(r: &mut R, ctx: &mut Ctx) -> Res {
    let max = ctx.max_len;
    let items = gen_items(r, ctx, max)?;
    ctx.trivial = items.iter().all(|i| matches!(i, Item::Arr(s) if s.vals.is_empty()));
    // statistics asked beforehand travel along
    for i in &items {
        if let Item::Arr(s) = i {
            if r.gen_bool(0.5) {
                for st in crate::props_stats::STATS {
                    if r.gen_bool(0.4) {
                        let _ = vortex::stats::ArrayStatistics::statistics(&s.a).compute(st);
                    }
                }
            }
        }
    }
    ctx.label("write");
    let w = futures::executor::block_on(write_items(vec![], &items)).map_err(|e| fail("write", &e))?;
    // recorded offsets describe what was written
    let layouts = w.array_layouts().to_vec();
    let pages = w.page_ranges().to_vec();
    let sents: Vec<&Sent> = items.iter().filter_map(|i| if let Item::Arr(s) = i { Some(s) } else { None }).collect();
    if layouts.len() != sents.len() {
        return Err(Fail::new("layout count", format!("{} arrays, {} layouts", sents.len(), layouts.len())));
    }
    for (l, s) in layouts.iter().zip(&sents) {
        let mut want = vec![0u64];
        for x in &s.lens {
            want.push(want.last().unwrap() + *x as u64);
        }
        if l.chunks.row_offsets != want || l.chunks.byte_offsets.len() != want.len() {
            return Err(Fail::new("row offsets", format!("{:?} for chunks {:?}", l.chunks, s.lens)));
        }
    }
    let bytes = w.into_inner();
    ctx.step(format!("{} bytes", bytes.len()));
    ctx.label("read");
    let mut whole = bytes.clone();
    if r.gen_bool(0.1) {
        // the mark of the end, past which nothing is read
        whole.extend_from_slice(&[0xff; 4]);
        let k = *[0usize, 1, 4, 100].choose(r).unwrap();
        whole.extend((0..k).map(|_| r.gen::<u8>()));
        ctx.key(format!("end mark:{k}"));
    }
    let got = futures::executor::block_on(read_bytes(r, whole, &items, None))?;
    check_items(r, ctx, &items, &got, true)?;
    // each part by itself, found through the recorded places
    let (mut la, mut lp) = (layouts.iter(), pages.iter());
    for it in &items {
        let it = std::slice::from_ref(it);
        match &it[0] {
            Item::Arr(s) => {
                let l = la.next().unwrap();
                let (b, e) = (l.chunks.byte_offsets[0] as usize, *l.chunks.byte_offsets.last().unwrap() as usize);
                if l.dtype.end as usize != b {
                    return Err(Fail::new("byte offsets", format!("{l:?}")));
                }
                let got = if r.gen_bool(0.5) || s.lens.is_empty() {
                    ctx.label("read range");
                    futures::executor::block_on(read_bytes(r, bytes[l.dtype.begin as usize..e].to_vec(), it, None))?
                } else {
                    ctx.label("read range of chunks");
                    futures::executor::block_on(read_bytes(r, bytes[b..e].to_vec(), it, Some(s.dt.clone())))?
                };
                check_items(r, ctx, it, &got, false)?;
            }
            Item::Page(_) => {
                let l = lp.next().unwrap();
                ctx.label("read page");
                futures::executor::block_on(read_bytes(r, bytes[l.begin as usize..l.end as usize].to_vec(), it, None))?;
            }
        }
    }
    Ok(())
}

async fn read_bytes(r: &mut R, bytes: Vec<u8>, items: &[Item], given: Option<DType>) -> Result<Vec<(DType, Vec<Array>)>, Fail> {
    match r.gen_range(0..4) {
        0 => read_items(FuturesAdapter(futures::io::Cursor::new(bytes)), items, given).await,
        1 => read_items(std::io::Cursor::new(bytes), items, given).await,
        2 => read_items(BytesMut::from(&bytes[..]), items, given).await,
        _ => read_items(std::io::Cursor::new(Buffer::from(bytes)), items, given).await,
    }
}

// ------------------------------------------------------------------ random access
pub fn c12(r: &mut R, ctx: &mut Ctx) -> Res {
    let dt = gen::gen_dtype(r, TyOpts::ALL, 0);
    let n = gen::gen_len_cap(r, ctx.max_len, 5000);
    let mut vals = gen::gen_vals(r, &dt, n);
    vals.iter_mut().for_each(crate::known::quiet);
    let x = gen::build(r, &dt, &vals);
    let a = match r.gen_range(0..4) {
        0 => subject_of(r, ctx, &dt, &vals)?,
        _ => phys::encode(r, "chunked", &dt, &vals, &x, 2).ok().flatten().unwrap_or(x),
    };
    describe(ctx, "stored", &dt, &vals, &a);
    ctx.label(format!("take_rows {}", dtclass(&dt)));
    // something before it in the same bytes, at times
    let w = futures::executor::block_on(async {
        let mut w = StreamArrayWriter::new(vec![]);
        if r.gen_bool(0.3) {
            w = w.write_array(PrimitiveArray::from(vec![1i32, 2, 3]).into_array()).await?;
        }
        w.write_array(a.clone()).await
    })
    .map_err(|e| fail("write", &e))?;
    let l = w.array_layouts().last().unwrap().clone();
    let mut bytes = w.into_inner();
    let trailing = r.gen_bool(0.3);
    if trailing {
        bytes.extend_from_slice(&[0xee; 100]);
    }
    // sorted distinct indices
    let idx: Vec<usize> = match r.gen_range(0..6) {
        0 => vec![],
        1 if n > 0 => vec![r.gen_range(0..n)],
        2 => (0..n).collect(),
        3 if n > 0 => {
            // around the chunk edges
            let mut v: Vec<usize> = l.chunks.row_offsets.iter().flat_map(|o| [(*o as usize).saturating_sub(1), *o as usize]).filter(|i| *i < n).collect();
            v.sort_unstable();
            v.dedup();
            v
        }
        4 if n > 0 => {
            let s = r.gen_range(0..n);
            (s..r.gen_range(s..=n)).collect()
        }
        _ => {
            let p = *[0.01, 0.1, 0.5, 0.9].choose(r).unwrap();
            (0..n).filter(|_| r.gen_bool(p)).collect()
        }
    };
    let oob = r.gen_bool(0.08);
    let mut iv: Vec<V> = idx.iter().map(|&i| V::Int(i as i128)).collect();
    if oob {
        iv.push(V::Int((n + r.gen_range(0..3)) as i128));
    }
    let max = iv.last().map_or(0, |v| if let V::Int(i) = v { *i } else { 0 });
    let ps: Vec<PType> = [PType::U8, PType::U16, PType::U32, PType::U64, PType::I16, PType::I32, PType::I64]
        .into_iter()
        .filter(|p| max <= int_range(*p).1 && n as i128 <= int_range(*p).1)
        .collect();
    let ip = *ps.choose(r).unwrap();
    let idt = DType::Primitive(ip, Nullability::NonNullable);
    let ia = if r.gen_bool(0.5) { gen::build(r, &idt, &iv) } else { subject_of(r, ctx, &idt, &iv)? };
    ctx.step(format!("take {} of {n} rows in chunks {:?} by {}", iv.len(), &l.chunks.row_offsets[..l.chunks.row_offsets.len().min(12)], enc_tree(&ia)));
    ctx.key(format!("chunks:{}", l.chunks.row_offsets.len().min(8)));
    ctx.key(format!("idx:{ip}/{}", crate::phys::enc_id(&ia)));
    ctx.trivial = iv.is_empty();
    // from the stream of chunks itself; an index may repeat there
    if r.gen_bool(0.3) {
        ctx.key("from:stream");
        ctx.label("stream take_rows");
        let (mut idx, mut iv) = (idx, iv);
        if !oob && r.gen_bool(0.4) {
            for _ in 0..r.gen_range(0..4) {
                if !idx.is_empty() {
                    let j = r.gen_range(0..idx.len());
                    idx.insert(j, idx[j]);
                    iv.insert(j, iv[j].clone());
                }
            }
        }
        let ia = if r.gen_bool(0.5) { gen::build(r, &idt, &iv) } else { subject_of(r, ctx, &idt, &iv)? };
        let (s0, e0) = (l.dtype.begin as usize, *l.chunks.byte_offsets.last().unwrap() as usize);
        let part = bytes[s0..e0].to_vec();
        let plan = Plan::hostile(r);
        let (got, e) = futures::executor::block_on(async {
            let m = match StreamArrayReader::try_new(AdvRead::new(part, plan), enc_ctx()).await {
                Ok(m) => m,
                Err(e) => return (vec![], Some(e)),
            };
            let m = match m.load_dtype().await {
                Ok(m) => m,
                Err(e) => return (vec![], Some(e)),
            };
            match m.into_array_stream().take_rows(ia) {
                Ok(s) => drain(s).await,
                Err(e) => (vec![], Some(e)),
            }
        });
        ctx.obs += 1;
        match (oob, e) {
            (true, Some(_)) => return Ok(()),
            (true, None) => return Err(Fail::new("out of range accepted", format!("rows {iv:?} of {n}"))),
            (false, Some(e)) => return Err(fail("take_rows", &e)),
            (false, None) => {}
        }
        let want: Vec<V> = idx.iter().map(|&i| vals[i].clone()).collect();
        let mut at = 0;
        for c in &got {
            if at + c.len() > want.len() {
                return Err(Fail::new("too many rows", format!("{} expected", want.len())));
            }
            check_all(r, c, &dt, &want[at..at + c.len()])?;
            at += c.len();
        }
        if at != want.len() {
            return Err(Fail::new("missing rows", format!("{at} of {}", want.len())));
        }
        return Ok(());
    }
    let off = |r: &mut R, v: &[u64]| -> Array {
        if r.gen_bool(0.7) {
            PrimitiveArray::from(v.to_vec()).into_array()
        } else {
            let dt = DType::Primitive(PType::U64, Nullability::NonNullable);
            let vs: Vec<V> = v.iter().map(|x| V::Int(*x as i128)).collect();
            let b = gen::build(r, &dt, &vs);
            phys::encode_any(r, &dt, &vs, b.clone(), 1).unwrap_or(b)
        }
    };
    let (bo, ro) = (off(r, &l.chunks.byte_offsets), off(r, &l.chunks.row_offsets));
    let plan = Plan::hostile(r);
    if r.gen_bool(0.05) {
        // offsets that do not belong together
        let k = l.chunks.row_offsets.len();
        let (bo, ro) = if r.gen_bool(0.5) {
            (bo, slice(&ro, 0, r.gen_range(0..k)).map_err(|e| fail("slice", &e))?)
        } else {
            (slice(&bo, 0, r.gen_range(0..k)).map_err(|e| fail("slice", &e))?, ro)
        };
        ctx.label("offsets apart");
        ctx.key("offsets apart");
        ctx.obs += 1;
        return match ChunkedArrayReader::try_new(AdvAt::new(bytes, plan), enc_ctx(), Arc::new(dt.clone()), bo.clone(), ro.clone()) {
            Ok(_) => Err(Fail::new("accepted", format!("{} byte offsets with {} row offsets", bo.len(), ro.len()))),
            Err(_) => Ok(()),
        };
    }
    if !trailing && r.gen_bool(0.15) {
        // all the rows, in order
        ctx.label("read all chunks");
        ctx.key("from:array_stream");
        let rd = AdvAt::new(bytes, plan);
        let mut cr = ChunkedArrayReader::try_new(rd, enc_ctx(), Arc::new(dt.clone()), bo, ro).map_err(|e| fail("open", &e))?;
        let (got, e) = futures::executor::block_on(async {
            let s = cr.array_stream().await;
            futures::pin_mut!(s);
            drain(s).await
        });
        if let Some(e) = e {
            return Err(fail("array_stream", &e));
        }
        let mut at = 0;
        for c in &got {
            if at + c.len() > n {
                return Err(Fail::new("too many rows", format!("{n} expected")));
            }
            check_all(r, c, &dt, &vals[at..at + c.len()])?;
            at += c.len();
        }
        ctx.obs += n as u64 + 1;
        return if at == n { Ok(()) } else { Err(Fail::new("missing rows", format!("{at} of {n}"))) };
    }
    let rd = AdvAt::new(bytes, plan);
    let mut cr = ChunkedArrayReader::try_new(rd, enc_ctx(), Arc::new(dt.clone()), bo, ro).map_err(|e| fail("open", &e))?;
    let res = futures::executor::block_on(cr.take_rows(&ia));
    if oob {
        ctx.obs += 1;
        return match res {
            Ok(x) => Err(Fail::new("out of range accepted", format!("rows {iv:?} of {n} gave {} rows", x.len()))),
            Err(_) => Ok(()),
        };
    }
    let got = res.map_err(|e| fail("take_rows", &e))?;
    let want: Vec<V> = idx.iter().map(|&i| vals[i].clone()).collect();
    ctx.obs += want.len() as u64 + 1;
    check_all(r, &got, &dt, &want)
}

// ------------------------------------------------------------------ files
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    Batches,
    Chunked,
    Stream,
}

pub fn gen_batches(r: &mut R, ctx: &mut Ctx, t: &Table) -> Result<Vec<Array>, Fail> {
    if t.n == 0 && r.gen_bool(0.4) {
        ctx.step("no batches".to_string());
        ctx.key("batches:0".to_string());
        return Ok(vec![]);
    }
    let cs = phys::cuts(r, t.n, 5);
    let mut v = vec![];
    for (s, e) in phys::ranges(&cs, t.n) {
        v.push(batch(r, ctx, &t.rows(s, e))?);
    }
    ctx.step(format!("{} batches {:?}: {}", v.len(), cs, v.iter().map(enc_tree).collect::<Vec<_>>().join(" | ")));
    ctx.key(format!("batches:{}", v.len()));
    Ok(v)
}

pub async fn write_file<W: VortexWrite>(w: W, how: How, dt: &DType, batches: &[Array]) -> VortexResult<W> {
    let mut lw = LayoutWriter::new(w);
    // without a batch there is nothing to take the type from
    match if batches.is_empty() && how == How::Batches { How::Stream } else { how } {
        How::Batches => {
            for b in batches {
                lw = lw.write_array_columns(b.clone()).await?;
            }
        }
        How::Chunked => {
            lw = lw.write_array_columns(ChunkedArray::try_new(batches.to_vec(), dt.clone())?.into_array()).await?;
        }
        How::Stream => {
            let s = vortex::stream::ArrayStreamAdapter::new(dt.clone(), futures::stream::iter(batches.to_vec().into_iter().map(Ok)));
            lw = lw.write_array_columns_stream(s).await?;
        }
    }
    lw.finalize().await
}

#[derive(Clone)]
pub struct Scan {
    pub proj: Option<(Vec<usize>, Vec<Field>)>,
    pub batch_size: Option<usize>,
    pub filter: Option<XE>,
    pub size: Option<u64>,
}

pub fn gen_scan(r: &mut R, ctx: &mut Ctx, t: &Table) -> Scan {
    let nc = t.cols.len();
    let proj = if r.gen_bool(0.4) {
        None
    } else {
        let mut p: Vec<usize> = (0..nc).collect();
        p.shuffle(r);
        p.truncate(r.gen_range(1..=nc));
        if r.gen_bool(0.5) {
            p.sort_unstable();
        }
        let style = r.gen_range(0..3);
        let f = p
            .iter()
            .map(|&i| {
                if style == 0 || style == 2 && r.gen_bool(0.5) {
                    Field::Index(i)
                } else {
                    Field::Name(t.cols[i].name.clone())
                }
            })
            .collect();
        Some((p, f))
    };
    let n = t.n;
    let bs = match r.gen_range(0..8) {
        0..=2 => None,
        3 => Some((n / 150).max(1)),
        4 => Some((n / 7).max(1)),
        5 => Some(n.max(1)),
        6 => Some(n + 1),
        _ => Some((n / 150).max(*[1usize, 2, 7, 64, 100, 1000, 1024].choose(r).unwrap())),
    };
    ctx.key(format!("proj:{}", proj.as_ref().map_or(99, |p| p.0.len())));
    Scan {
        proj,
        batch_size: bs,
        filter: None,
        size: None,
    }
}

pub async fn open<RD: VortexReadAt>(rd: RD, s: &Scan) -> VortexResult<LayoutBatchStream<RD>> {
    let mut b = LayoutReaderBuilder::new(rd, LayoutDeserializer::new(enc_ctx(), Arc::new(LayoutContext::default())));
    if let Some(p) = &s.proj {
        b = b.with_projection(Projection::Flat(p.1.clone()));
    }
    if let Some(n) = s.batch_size {
        b = b.with_batch_size(n);
    }
    if let Some(f) = &s.filter {
        b = b.with_row_filter(RowFilter::new(f.clone()));
    }
    if let Some(n) = s.size {
        b = b.with_size(n);
    }
    b.build().await
}

pub struct Got {
    pub schema: Option<DType>,
    pub batches: Vec<Array>,
    pub err: Option<VortexError>,
}

pub async fn scan<RD: VortexReadAt + Unpin + Send + 'static>(rd: RD, s: &Scan) -> Got {
    match open(rd, s).await {
        Err(e) => Got {
            schema: None,
            batches: vec![],
            err: Some(e),
        },
        Ok(st) => {
            let schema = Some(st.schema().dtype().clone());
            let (batches, err) = drain(st).await;
            Got { schema, batches, err }
        }
    }
}

/// The rows a scan delivered are the given ones, in order (or a prefix of them).
pub fn check_rows(r: &mut R, ctx: &mut Ctx, got: &[Array], want: &Table, prefix: bool, deep: bool) -> Result<usize, Fail> {
    let dt = want.dtype();
    let rows = want.struct_vals();
    let mut at = 0;
    for b in got {
        if at + b.len() > rows.len() {
            return Err(Fail::new("too many rows", format!("delivered at least {}, expected {}", at + b.len(), rows.len())));
        }
        let part = &rows[at..at + b.len()];
        if deep {
            check_all(r, b, &dt, part)?;
            check_tree(b, &dt, part, ctx, "file", 3)?;
        } else {
            check_shape(b, &dt, part.len())?;
            check_decode(b, &dt, part)?;
        }
        at += b.len();
        ctx.obs += b.len() as u64 + 1;
    }
    if at != rows.len() && !prefix {
        return Err(Fail::new("missing rows", format!("delivered {at}, expected {}", rows.len())));
    }
    Ok(at)
}

pub fn project(t: &Table, s: &Scan) -> Table {
    match &s.proj {
        None => t.clone(),
        Some((p, _)) => t.project(p),
    }
}

/// Row count in the footer.
fn footer_rows(bytes: &[u8]) -> Result<u64, String> {
    use vortex_flatbuffers::footer as fb;
    let n = bytes.len();
    let ps = flatbuffers::root::<fb::Postscript>(&bytes[n - 40..n - 8]).map_err(|e| e.to_string())?;
    let at = ps.footer_offset() as usize;
    let f = flatbuffers::root::<fb::Footer>(&bytes[at + 4..n - 40]).map_err(|e| e.to_string())?;
    Ok(f.row_count())
}

pub fn gen_how(r: &mut R) -> How {
    *[How::Batches, How::Chunked, How::Stream].choose(r).unwrap()
}

/// More chunks than any 16 bit number counts, and a footer larger than the first read of the file.
fn many_chunks(r: &mut R, ctx: &mut Ctx, filtered: bool) -> Res {
    let n = r.gen_range(65_536..72_000usize);
    let nc = if ctx.index / 5000 % 2 == 0 { 4usize } else { 1 };
    let cols: Vec<Vec<i32>> = (0..nc).map(|c| (0..n).map(|i| (i * (c + 1)) as i32 ^ (c as i32 * 77)).collect()).collect();
    let names: Vec<String> = (0..nc).map(|c| format!("c{c}")).collect();
    let table = |s: usize, e: usize| {
        let f: Vec<(&str, Array)> = (0..nc).map(|c| (names[c].as_str(), PrimitiveArray::from(cols[c][s..e].to_vec()).into_array())).collect();
        StructArray::from_fields(&f).map(|a| a.into_array())
    };
    let batches: Vec<Array> = (0..n).map(|i| table(i, i + 1)).collect::<VortexResult<_>>().map_err(|e| fail("build", &e))?;
    ctx.label("many chunks");
    ctx.step(format!("{n} batches of one row, {nc} columns, filtered {filtered}"));
    ctx.key(format!("many-chunks:{nc}"));
    let dt = batches[0].dtype().clone();
    let bytes = futures::executor::block_on(write_file(vec![], gen_how(r), &dt, &batches)).map_err(|e| fail("write", &e))?;
    let footer = {
        let k = bytes.len();
        let ps = flatbuffers::root::<vortex_flatbuffers::footer::Postscript>(&bytes[k - 40..k - 8]).map_err(|e| Fail::new("postscript", e.to_string()))?;
        k - ps.footer_offset() as usize
    };
    ctx.step(format!("footer of {footer} bytes"));
    ctx.key(format!("large-footer:{}", footer > 8 << 20));
    let mut s = Scan {
        proj: None,
        batch_size: Some(r.gen_range(300..2000)),
        filter: None,
        size: None,
    };
    let cut = r.gen_range(0..n as i32);
    if filtered {
        s.filter = Some(Arc::new(vortex_expr::BinaryExpr::new(
            Arc::new(vortex_expr::Column::new(Field::from("c0"))),
            vortex_expr::Operator::Gte,
            Arc::new(vortex_expr::Literal::new(cut.into())),
        )));
    }
    let got = futures::executor::block_on(scan(bytes, &s));
    if let Some(e) = &got.err {
        return Err(fail("read", e));
    }
    let mut at = if filtered { cut as usize } else { 0 };
    for b in &got.batches {
        let st = b.clone().into_struct().map_err(|e| fail("decode", &e))?;
        for (c, col) in cols.iter().enumerate() {
            let p = st.field(c).and_then(|f| f.into_primitive().ok()).ok_or_else(|| Fail::new("column", format!("{c}")))?;
            let want = col.get(at..at + b.len()).unwrap_or(&[]);
            if p.maybe_null_slice::<i32>() != want {
                return Err(Fail::new("rows", format!("column {c}, batch of {} rows at row {at}", b.len())));
            }
        }
        at += b.len();
        ctx.obs += 1;
    }
    if at != n {
        return Err(Fail::new("missing rows", format!("{at} of {n}")));
    }
    Ok(())
}

/// Only the columns of a table are stored, so the rows of a file are never null: tables whose rows could be null read
/// back as tables whose rows cannot, with the same columns. That null rows become valid is finding C13-null-rows.
fn nullable_rows(r: &mut R, ctx: &mut Ctx) -> Res {
    let n = gen::gen_len(r, ctx.max_len.min(300));
    let t = gen_table(r, ctx, TyOpts::ALL, n, 1);
    let p = *[0.0, 0.0, 0.01, 0.3, 1.0].choose(r).unwrap();
    let valid: Vec<bool> = (0..n).map(|_| !r.gen_bool(p)).collect();
    let nulls = valid.iter().filter(|v| !**v).count();
    let mut batches = vec![];
    let mut dt = t.dtype().as_nullable();
    for (s, e) in phys::ranges(&phys::cuts(r, n, 4), n) {
        let b = batch(r, ctx, &t.rows(s, e))?;
        let st = StructArray::try_from(&b).map_err(|e| fail("build", &e))?;
        let v = match (valid[s..e].iter().all(|v| *v), r.gen::<bool>()) {
            (true, true) => Validity::AllValid,
            _ => Validity::from(valid[s..e].to_vec()),
        };
        let x = StructArray::try_new(st.names().clone(), st.children().collect(), e - s, v).map_err(|e| fail("build", &e))?;
        dt = x.dtype().clone();
        batches.push(x.into_array());
    }
    let how = gen_how(r);
    ctx.trivial = n == 0;
    ctx.step(format!("{} batches {how:?}, {nulls} of {n} rows null", batches.len()));
    ctx.key(format!("null-rows:{}", nulls > 0));
    ctx.label("write nullable rows");
    let bytes = match futures::executor::block_on(write_file(vec![], how, &dt, &batches)) {
        Err(_) if nulls > 0 => return Ok(()),
        Err(e) => return Err(fail("write", &e)),
        Ok(b) => b,
    };
    let s = Scan {
        proj: None,
        batch_size: None,
        filter: None,
        size: None,
    };
    ctx.label("read nullable rows");
    let got = futures::executor::block_on(scan(bytes, &s));
    if let Some(e) = &got.err {
        return Err(fail("read", e));
    }
    if got.schema.as_ref() != Some(&t.dtype()) {
        return Err(Fail::new("schema", format!("{:?} expected {}", got.schema, t.dtype())));
    }
    check_rows(r, ctx, &got.batches, &t, false, true).map(|_| ())
}

/// Whether a table with a null row is written and comes back with that row valid.
pub fn null_rows_probe() -> bool {

    let x = vortex::array::PrimitiveArray::from(vec![7i64, 8]).into_array();
    let v = Validity::from(vec![true, false]);
    let a = StructArray::try_new(["a".into()].into(), vec![x], 2, v).unwrap().into_array();
    let Ok(bytes) = futures::executor::block_on(write_file(vec![], How::Batches, a.dtype(), &[a.clone()])) else {
        return false;
    };
    let s = Scan {
        proj: None,
        batch_size: None,
        filter: None,
        size: None,
    };
    let got = futures::executor::block_on(scan(bytes, &s));
    got.err.is_none() && got.batches.iter().any(|b| (0..b.len()).all(|i| b.with_dyn(|b| b.is_valid(i))))
}

/// One file holds one table: a batch of another type does not go into it.
fn other_batch(r: &mut R, ctx: &mut Ctx, t: &Table) -> Res {
    let mut t2 = t.clone();
    let k = t2.cols.len();
    let what = match r.gen_range(0..5) {
        0 if k > 1 => {
            t2.cols.pop();
            "a column less"
        }
        1 if k > 0 => {
            let mut c = t2.cols[r.gen_range(0..k)].clone();
            c.name = format!("{}'", c.name).into();
            t2.cols.push(c);
            "a column more"
        }
        2 if k > 0 => {
            let i = r.gen_range(0..k);
            t2.cols[i].name = format!("{}'", t2.cols[i].name).into();
            "another name"
        }
        3 if k > 0 => {
            let i = r.gen_range(0..k);
            if !t2.cols[i].vals.iter().any(V::is_null) && t2.cols[i].dt.is_nullable() {
                t2.cols[i].dt = t2.cols[i].dt.as_nonnullable();
            } else {
                t2.cols[i].dt = t2.cols[i].dt.as_nullable();
            }
            "nullability"
        }
        _ if k > 0 => {
            let i = r.gen_range(0..k);
            let mut d = gen::gen_dtype(r, TyOpts::ALL, 0);
            while d == t2.cols[i].dt {
                d = gen::gen_dtype(r, TyOpts::ALL, 0);
            }
            t2.cols[i].vals = gen::gen_vals(r, &d, t2.n);
            t2.cols[i].dt = d;
            "another type"
        }
        _ => return Ok(()),
    };
    if t.dtype() == t2.dtype() {
        return Ok(());
    }
    ctx.step(format!("batch with {what}: {} then {}", t.dtype(), t2.dtype()));
    ctx.label("batch of another type");
    ctx.key(format!("refuse:{what}"));
    let a = gen::build(r, &t.dtype(), &t.struct_vals());
    let b = gen::build(r, &t2.dtype(), &t2.struct_vals());
    let res = futures::executor::block_on(async {
        let w = LayoutWriter::new(vec![]).write_array_columns(a).await?;
        w.write_array_columns(b).await.map(|_| ())
    });
    ctx.obs += 1;
    match res {
        Ok(()) => Err(Fail::new("accepted", format!("{what}: a batch of {} after one of {}", t2.dtype(), t.dtype()))),
        Err(_) => Ok(()),
    }
}

pub fn c13(r: &mut R, ctx: &mut Ctx) -> Res {
    if ctx.index % 5000 == 17 {
        return many_chunks(r, ctx, false);
    }
    if r.gen_bool(0.05) {
        return nullable_rows(r, ctx);
    }
    let n = gen::gen_len_cap(r, ctx.max_len, 5000);
    let t = gen_table(r, ctx, TyOpts::ALL, n, 1);
    ctx.trivial = n == 0;
    let batches = gen_batches(r, ctx, &t)?;
    let how = gen_how(r);
    ctx.label("write file");
    let bytes = futures::executor::block_on(write_file(vec![], how, &t.dtype(), &batches)).map_err(|e| fail("write", &e))?;
    let rows = footer_rows(&bytes).map_err(|e| Fail::new("footer", e))?;
    if rows != n as u64 {
        return Err(Fail::new("row count", format!("file says {rows}, written {n}")));
    }
    let all = Scan {
        proj: None,
        batch_size: None,
        filter: None,
        size: None,
    };
    for k in 0..2 {
        let s = if k == 0 { all.clone() } else { gen_scan(r, ctx, &t) };
        ctx.step(format!("read {:?} batch size {:?}", s.proj.as_ref().map(|p| &p.1), s.batch_size));
        ctx.label(if k == 0 { "read file" } else { "scan file" });
        let want = project(&t, &s);
        if k == 1 && r.gen_bool(0.2) {
            // all at once
            let a = futures::executor::block_on(async { open(bytes.clone(), &s).await?.read_all().await }).map_err(|e| fail("read_all", &e))?;
            check_all(r, &a, &want.dtype(), &want.struct_vals())?;
            continue;
        }
        let got = futures::executor::block_on(scan(bytes.clone(), &s));
        if let Some(e) = &got.err {
            return Err(fail("read", e));
        }
        if got.schema.as_ref() != Some(&want.dtype()) {
            return Err(Fail::new("schema", format!("{:?} expected {}", got.schema, want.dtype())));
        }
        if let Some(b) = s.batch_size {
            ctx.key(format!("got-batches:{}", got.batches.len().min(6)));
            if let Some(x) = got.batches.iter().find(|x| x.len() > b) {
                return Err(Fail::new("batch size", format!("batch of {} rows, batch size {b}", x.len())));
            }
        }
        check_rows(r, ctx, &got.batches, &want, false, true)?;
    }
    if r.gen_bool(0.05) {
        other_batch(r, ctx, &t)?;
    }
    // a column that is not there
    if r.gen_bool(0.1) {
        ctx.label("missing column");
        let f = if r.gen_bool(0.5) { Field::Index(t.cols.len()) } else { Field::Name("no such column".into()) };
        let s = Scan {
            proj: Some((vec![], vec![f])),
            ..all
        };
        let got = futures::executor::block_on(scan(bytes, &s));
        if got.err.is_none() {
            return Err(Fail::new("accepted", format!("projection of a missing column gave {:?}", got.schema)));
        }
    }
    Ok(())
}

/// A filter with its table columns; values arranged so that whole stretches match or don't.
fn gen_filter_table(r: &mut R, ctx: &mut Ctx, n: usize) -> Table {
    let mut t = gen_table(r, ctx, TyOpts::ALL, n, 1);
    if r.gen_bool(0.5) {
        // stretches of equal values make whole batches fail the filter
        for c in t.cols.iter_mut() {
            if n > 4 && r.gen_bool(0.6) {
                let k = r.gen_range(1..=4);
                let pick: Vec<V> = (0..=k).map(|_| c.vals[r.gen_range(0..n)].clone()).collect();
                for i in 0..n {
                    c.vals[i] = pick[i * k / n].clone();
                }
            }
        }
    }
    t
}

pub fn c14(r: &mut R, ctx: &mut Ctx) -> Res {
    if ctx.index % 5000 == 17 {
        return many_chunks(r, ctx, true);
    }
    let n = gen::gen_len_cap(r, ctx.max_len, 4000);
    let t = gen_filter_table(r, ctx, n);
    ctx.trivial = n == 0;
    let batches = gen_batches(r, ctx, &t)?;
    let how = gen_how(r);
    ctx.label("write file");
    let bytes = futures::executor::block_on(write_file(vec![], how, &t.dtype(), &batches)).map_err(|e| fail("write", &e))?;
    for _ in 0..2 {
        let depth = r.gen_range(0..3);
        let (e, x) = gen_bool(r, &t, depth, true);
        let mut s = gen_scan(r, ctx, &t);
        s.filter = Some(x);
        let keep: Vec<bool> = e.eval_all(&t).iter().map(|v| *v == V::Bool(true)).collect();
        let want = project(&t.select(&keep), &s);
        let bs = s.batch_size.unwrap_or(65536);
        let dead = keep.chunks(bs).filter(|c| c.iter().all(|k| !k)).count();
        let multi = keep.len() > bs;
        ctx.key(format!("rows:{}", if want.n == 0 { "none" } else if want.n == n { "all" } else { "some" }));
        ctx.key(format!("empty batches:{} multi:{multi}", dead.min(3)));
        ctx.key(format!("filter:{}", matches!(e, E::Lit(_))));
        ctx.step(format!("filter {} project {:?} batch size {:?} keeps {} of {n}", e.show(&t), s.proj.as_ref().map(|p| &p.1), s.batch_size, want.n));
        ctx.label("scan");
        let got = futures::executor::block_on(scan(bytes.clone(), &s));
        if let Some(e) = &got.err {
            return Err(fail("scan", e));
        }
        if got.schema.as_ref() != Some(&want.dtype()) {
            return Err(Fail::new("schema", format!("{:?} expected {}", got.schema, want.dtype())));
        }
        check_rows(r, ctx, &got.batches, &want, false, true)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ damage
fn kinds(r: &mut R) -> std::io::ErrorKind {
    use std::io::ErrorKind::*;
    *[Other, PermissionDenied, ConnectionReset, TimedOut, NotFound, InvalidData].choose(r).unwrap()
}

pub fn c15(r: &mut R, ctx: &mut Ctx) -> Res {
    match r.gen_range(0..10) {
        0..=5 => c15_file(r, ctx),
        6..=8 => c15_stream(r, ctx),
        _ => c15_write(r, ctx),
    }
}

fn small(r: &mut R) -> usize {
    *[0usize, 1, 3, 20, 70, 300, 1100].choose(r).unwrap()
}

fn c15_file(r: &mut R, ctx: &mut Ctx) -> Res {
    let n = small(r);
    let t = gen_table(r, ctx, TyOpts::ALL, n, 1);
    let batches = gen_batches(r, ctx, &t)?;
    let bytes = futures::executor::block_on(write_file(vec![], gen_how(r), &t.dtype(), &batches)).map_err(|e| fail("write", &e))?;
    let mut s = gen_scan(r, ctx, &t);
    let mut want = t.clone();
    if r.gen_bool(0.4) {
        let (e, x) = gen_bool(r, &t, 1, false);
        let keep: Vec<bool> = e.eval_all(&t).iter().map(|v| *v == V::Bool(true)).collect();
        s.filter = Some(x);
        want = t.select(&keep);
    }
    let want = project(&want, &s);
    let len = bytes.len();
    for _ in 0..6 {
        let mut rd = AdvAt::new(bytes.clone(), Plan::hostile(r));
        let mut s = s.clone();
        let what = match r.gen_range(0..7) {
            6 => {
                // the beginning is missing
                let k = match r.gen_range(0..3) {
                    0 => len - r.gen_range(0..=len.min(60)),
                    1 => len - r.gen_range(0..=len.min(600)),
                    _ => r.gen_range(1..len),
                }
                .max(1);
                rd.data = Arc::new(bytes[k..].to_vec());
                ctx.key("damage:no-start");
                format!("first {k} of {len} bytes missing")
            }
            0 | 1 => {
                // cut short; the ends of the file are the delicate places
                let k = match r.gen_range(0..4) {
                    0 => r.gen_range(0..len.min(60)),
                    1 => len - r.gen_range(1..=len.min(120)),
                    _ => r.gen_range(0..len),
                };
                let mut b = bytes.clone();
                b.truncate(k);
                rd.data = Arc::new(b);
                ctx.key("damage:cut");
                format!("cut to {k} of {len} bytes")
            }
            2 => {
                // shorter than the catalogue says
                let k = r.gen_range(0..len);
                let mut b = bytes.clone();
                b.truncate(k);
                rd.data = Arc::new(b);
                if r.gen_bool(0.5) {
                    s.size = Some(len as u64);
                } else {
                    rd.claim = Some(len as u64);
                }
                ctx.key("damage:cut-stale-size");
                format!("cut to {k} of {len} bytes, size says {len}")
            }
            3 => {
                // wrong end marker
                let mut b = bytes.clone();
                let i = *[len - 8, len - 7, len - 4, len - 3, len - 2, len - 1].choose(r).unwrap();
                b[i] ^= 1 << r.gen_range(0..8);
                rd.data = Arc::new(b);
                ctx.key("damage:end-marker");
                let got = run_on(Exec::Futures, scan(rd, &s));
                if got.err.is_none() {
                    return Err(Fail::new("end marker accepted", format!("byte {i} of {len} changed, still read")));
                }
                ctx.obs += 1;
                continue;
            }
            _ => {
                // storage error at the k-th operation of an intact file
                let k = r.gen_range(0..12);
                rd.plan.fail_at = Some(k);
                rd.plan.kind = kinds(r);
                ctx.key("damage:io-error");
                format!("operation {k} fails with {:?}", rd.plan.kind)
            }
        };
        ctx.step(what.clone());
        ctx.label(format!("damaged file {}", what.split(' ').next().unwrap_or("")));
        let (ops, fail_at, intact) = (rd.ops.clone(), rd.plan.fail_at, rd.data.len() == len);
        let other = if fail_at.is_some() || rd.claim.is_some() { 9 } else { r.gen_range(0..9) };
        ctx.key(format!("damaged-storage:{}", other.min(4)));
        let got = match other {
            0 => {
                // the same damage behind an object store
                run_on(Exec::TokioMulti, async {
                    let st: Arc<dyn object_store::ObjectStore> = Arc::new(object_store::memory::InMemory::new());
                    let path = object_store::path::Path::from("d.vortex");
                    st.put(&path, rd.data.to_vec().into()).await.unwrap();
                    scan(vortex_serde::io::ObjectStoreReadAt::new(st, path), &s).await
                })
            }
            1 => run_on(Exec::TokioCurrent, async {
                let d = tempfile::tempdir().unwrap();
                let p = d.path().join("d.vortex");
                std::fs::write(&p, rd.data.as_slice()).unwrap();
                scan(tokio::fs::File::open(&p).await.unwrap(), &s).await
            }),
            2 => {
                let mut b = vec![9u8; 64];
                b.extend_from_slice(&rd.data);
                rd.data = Arc::new(b);
                run_on(*EXECS.choose(r).unwrap(), scan(OffsetReadAt::new(rd, 64), &s))
            }
            3 => run_on(*EXECS.choose(r).unwrap(), scan(Buffer::from(rd.data.to_vec()), &s)),
            _ => run_on(*EXECS.choose(r).unwrap(), scan(rd, &s)),
        };
        let at = check_rows(r, ctx, &got.batches, &want, true, false)?;
        let hit = fail_at.is_some_and(|k| ops.load(std::sync::atomic::Ordering::SeqCst) > k);
        ctx.key(format!("outcome:{}/{}", if got.err.is_some() { "error" } else { "clean" }, at.min(1)));
        if got.err.is_none() {
            if hit {
                return Err(Fail::new("storage error swallowed", format!("{what}: reading ended cleanly after {at} rows")));
            }
            if intact && at != want.n {
                return Err(Fail::new("missing rows", format!("{what}: {at} of {} rows", want.n)));
            }
            if !intact && at != want.n {
                return Err(Fail::new("damage unreported", format!("{what}: {at} of {} rows and no error", want.n)));
            }
        }
        ctx.obs += 1;
    }
    Ok(())
}

/// (array delivered, error)
async fn read_damaged<T: VortexRead>(rd: T) -> (Vec<(DType, Vec<Array>)>, Option<VortexError>) {
    let mut out = vec![];
    let m = match StreamArrayReader::try_new(rd, enc_ctx()).await {
        Ok(m) => m,
        Err(e) => return (out, Some(e)),
    };
    let m = match m.load_dtype().await {
        Ok(d) => d,
        Err(e) => return (out, Some(e)),
    };
    let s = m.into_array_stream();
    let dt = ArrayStream::dtype(&s).clone();
    let (got, e) = drain(s).await;
    out.push((dt, got));
    (out, e)
}

fn c15_stream(r: &mut R, ctx: &mut Ctx) -> Res {
    let k = r.gen_range(1..=2);
    let mut items = vec![];
    for _ in 0..k {
        let n = small(r);
        items.push(Item::Arr(gen_sent(r, ctx, n)?));
    }
    let w = futures::executor::block_on(write_items(vec![], &items)).map_err(|e| fail("write", &e))?;
    let first = w.array_layouts()[0].clone();
    let bytes = w.into_inner();
    let len = bytes.len();
    for _ in 0..6 {
        let mut cut = None;
        let mut b = bytes.clone();
        let mut plan = Plan::hostile(r);
        let what = if r.gen_bool(0.65) {
            let k = match r.gen_range(0..3) {
                0 => r.gen_range(0..len.min(80)),
                1 => (r.gen_range(0..len) / 64 * 64 + *[0usize, 1, 3, 4, 5].choose(r).unwrap()).min(len - 1),
                _ => r.gen_range(0..len),
            };
            b.truncate(k);
            cut = Some(k as u64);
            format!("cut to {k} of {len}")
        } else {
            plan.fail_at = Some(r.gen_range(0..20));
            plan.kind = kinds(r);
            format!("fails at operation {:?}", plan.fail_at)
        };
        let kind = r.gen_range(0..5);
        ctx.step(format!("{what}, reader {kind}"));
        ctx.key(format!("stream-damage:{}/{kind}", what.split(' ').next().unwrap_or("")));
        ctx.label(format!("damaged stream {}", what.split(' ').next().unwrap_or("")));
        let (got, err) = run_on(Exec::Futures, async {
            match kind {
                0 => read_damaged(FuturesAdapter(AdvSeq::new(b, plan))).await,
                1 => read_damaged(TokioAdapter(AdvSeq::new(b, plan))).await,
                2 => read_damaged(BytesMut::from(&b[..])).await,
                3 => read_damaged(std::io::Cursor::new(b)).await,
                _ => read_damaged(AdvRead::new(b, plan)).await,
            }
        });
        ctx.key(format!("stream-outcome:{}", if err.is_some() { "error" } else { "clean" }));
        // a message cut in two is not a clean end (there is no end marker: a cut between messages is one)
        if let (Some(k), None) = (cut, &err) {
            let ends = &first.chunks.byte_offsets;
            if k < first.dtype.end || k < *ends.last().unwrap() && !ends.iter().any(|e| (*e..e + 4).contains(&k)) {
                return Err(Fail::new("cut unnoticed", format!("{what}, messages end at {ends:?}, reading ended cleanly")));
            }
        }
        // what was delivered is a prefix of what was written
        for (i, ((dt, chunks), it)) in got.iter().zip(&items).enumerate() {
            let Item::Arr(s) = it else { continue };
            if *dt != s.dt {
                return Err(Fail::new("dtype", format!("{what}: read {dt}, written {}", s.dt)));
            }
            let mut at = 0;
            for c in chunks {
                if at + c.len() > s.vals.len() {
                    return Err(Fail::new("too many rows", what));
                }
                check_shape(c, dt, c.len())?;
                check_decode(c, dt, &s.vals[at..at + c.len()])?;
                at += c.len();
                ctx.obs += 1;
            }
            if at < s.vals.len() && i + 1 < got.len() {
                return Err(Fail::new("hole", format!("{what}: array {i} has {at} of {} rows and reading went on", s.vals.len())));
            }
        }
        ctx.obs += 1;
    }
    Ok(())
}

/// Writing onto failing storage reports the error; what reached the storage is not taken for the whole.
fn c15_write(r: &mut R, ctx: &mut Ctx) -> Res {
    let n = small(r);
    let t = gen_table(r, ctx, TyOpts::ALL, n, 1);
    let batches = gen_batches(r, ctx, &t)?;
    let mut plan = Plan::hostile(r);
    plan.fail_at = Some(r.gen_range(0..40));
    plan.kind = kinds(r);
    ctx.label("failing write");
    ctx.key("damage:write-error");
    let how = gen_how(r);
    // keep the sink observable after a failure
    // as files do, it may tell of a failed write only at the next operation
    let late = r.gen_bool(0.5);
    struct Sink(Arc<std::sync::Mutex<AdvWrite>>, bool, Option<std::io::Error>);
    impl VortexWrite for Sink {
        async fn write_all<B: vortex_buffer::io_buf::IoBuf>(&mut self, b: B) -> std::io::Result<B> {
            if let Some(e) = self.2.take() {
                return Err(e);
            }
            let mut w = self.0.lock().unwrap();
            let (op, plan) = (w.op, w.plan);
            w.op += 1;
            if plan.fail_at == Some(op) {
                let s = b.as_slice();
                w.data.extend_from_slice(&s[..s.len() / 2]);
                let e = std::io::Error::new(plan.kind, "injected storage error");
                if self.1 {
                    self.2 = Some(e);
                    return Ok(b);
                }
                return Err(e);
            }
            w.data.extend_from_slice(b.as_slice());
            Ok(b)
        }
        async fn flush(&mut self) -> std::io::Result<()> {
            self.2.take().map_or(Ok(()), Err)
        }
        async fn shutdown(&mut self) -> std::io::Result<()> {
            self.2.take().map_or(Ok(()), Err)
        }
    }
    if r.gen_bool(0.3) {
        // one of the last operations
        let dry = Arc::new(std::sync::Mutex::new(AdvWrite::new(Plan { fail_at: None, ..plan })));
        let _ = futures::executor::block_on(write_file(Sink(dry.clone(), false, None), how, &t.dtype(), &batches)).map_err(|e| fail("write", &e))?;
        let ops = dry.lock().unwrap().op;
        plan.fail_at = Some(ops - 1 - r.gen_range(0..ops.min(4)));
    }
    let sink = Arc::new(std::sync::Mutex::new(AdvWrite::new(plan)));
    let res = futures::executor::block_on(write_file(Sink(sink.clone(), late, None), how, &t.dtype(), &batches));
    let w = sink.lock().unwrap();
    let hit = w.op > plan.fail_at.unwrap();
    ctx.step(format!("write fails at {:?} of {} operations, late {late}", plan.fail_at, w.op));
    ctx.obs += 1;
    if hit && res.is_ok() {
        return Err(Fail::new("write error swallowed", format!("operation {:?} failed", plan.fail_at)));
    }
    if !hit && res.is_err() {
        return Err(fail("write", res.as_ref().err().unwrap()));
    }
    let s = Scan {
        proj: None,
        batch_size: None,
        filter: None,
        size: None,
    };
    let got = futures::executor::block_on(scan(w.data.clone(), &s));
    if hit && got.err.is_none() {
        return Err(Fail::new("half a file read as whole", format!("{} batches", got.batches.len())));
    }
    check_rows(r, ctx, &got.batches, &t, hit, false)?;
    Ok(())
}

// ------------------------------------------------------------------ adverse storage
pub fn c16(r: &mut R, ctx: &mut Ctx) -> Res {
    if r.gen_bool(0.4) {
        c16_stream(r, ctx)
    } else {
        c16_file(r, ctx)
    }
}

fn c16_stream(r: &mut R, ctx: &mut Ctx) -> Res {
    let items = gen_items(r, ctx, ctx.max_len.min(2500))?;
    ctx.label("write");
    let reference = futures::executor::block_on(write_items(vec![], &items)).map_err(|e| fail("write", &e))?.into_inner();
    let plan = Plan::hostile(r);
    let exec = *EXECS.choose(r).unwrap();
    let kind = r.gen_range(0..4);
    ctx.step(format!("writer {kind} late {} piece {} on {exec:?}", plan.late, plan.piece));
    ctx.key(format!("stream-writer:{kind}/{exec:?}"));
    let bytes = run_on(exec, async {
        VortexResult::Ok(match kind {
            0 => write_items(TokioAdapter(AdvSink::new(plan)), &items).await?.into_inner().0.data,
            1 => write_items(AdvWrite::new(plan), &items).await?.into_inner().data,
            2 => write_items(std::io::Cursor::new(vec![]), &items).await?.into_inner().into_inner(),
            _ => {
                let mut v = vec![];
                write_items(&mut v, &items).await?;
                v
            }
        })
    })
    .map_err(|e| fail("write", &e))?;
    if bytes != reference {
        return Err(Fail::new("bytes differ", format!("writer {kind}: {} bytes instead of {}", bytes.len(), reference.len())));
    }
    let plan = Plan::hostile(r);
    let exec = *EXECS.choose(r).unwrap();
    let kind = r.gen_range(0..7);
    ctx.step(format!("reader {kind} late {} piece {} on {exec:?}", plan.late, plan.piece));
    ctx.key(format!("stream-reader:{kind}/{exec:?}"));
    ctx.label(format!("read kind {kind}"));
    let got = run_on(exec, async {
        match kind {
            0 => read_items(FuturesAdapter(AdvSeq::new(bytes, plan)), &items, None).await,
            1 => read_items(TokioAdapter(AdvSeq::new(bytes, plan)), &items, None).await,
            2 => read_items(AdvRead::new(bytes, plan), &items, None).await,
            3 => read_items(std::io::Cursor::new(AdvAt::new(bytes, plan)), &items, None).await,
            4 => read_items(BytesMut::from(&bytes[..]), &items, None).await,
            5 => {
                let mut b = vec![0u8; 100];
                b.extend_from_slice(&bytes);
                read_items(std::io::Cursor::new(OffsetReadAt::new(AdvAt::new(b, plan), 100)), &items, None).await
            }
            _ => read_items(std::io::Cursor::new(Arc::new(Buffer::from(bytes))), &items, None).await,
        }
    })?;
    check_items(r, ctx, &items, &got, false)
}

fn c16_file(r: &mut R, ctx: &mut Ctx) -> Res {
    let n = gen::gen_len_cap(r, ctx.max_len, 2500);
    let t = gen_table(r, ctx, TyOpts::ALL, n, 1);
    let batches = gen_batches(r, ctx, &t)?;
    let how = gen_how(r);
    let dt = t.dtype();
    ctx.label("write file");
    let reference = futures::executor::block_on(write_file(vec![], how, &dt, &batches)).map_err(|e| fail("write", &e))?;
    let plan = Plan::hostile(r);
    let mut exec = *EXECS.choose(r).unwrap();
    let kind = r.gen_range(0..6);
    if kind >= 3 && exec == Exec::Futures {
        exec = Exec::TokioMulti;
    }
    let dir = if kind == 3 || kind == 5 || r.gen_bool(0.2) { Some(tempfile::tempdir().map_err(|e| Fail::new("tempdir", e.to_string()))?) } else { None };
    let store: Arc<dyn object_store::ObjectStore> = match (kind, &dir) {
        (5, Some(d)) => Arc::new(object_store::local::LocalFileSystem::new_with_prefix(d.path()).map_err(|e| Fail::new("store", e.to_string()))?),
        _ => Arc::new(object_store::memory::InMemory::new()),
    };
    let path = object_store::path::Path::from("a/t.vortex");
    ctx.step(format!("file writer {kind} late {} piece {} on {exec:?}", plan.late, plan.piece));
    ctx.key(format!("file-writer:{kind}/{exec:?}"));
    ctx.label(format!("file writer {kind}"));
    let bytes: Vec<u8> = run_on(exec, async {
        Ok::<_, VortexError>(match kind {
            0 => write_file(TokioAdapter(AdvSink::new(plan)), how, &dt, &batches).await?.0.data,
            1 => write_file(AdvWrite::new(plan), how, &dt, &batches).await?.data,
            2 => write_file(std::io::Cursor::new(vec![]), how, &dt, &batches).await?.into_inner(),
            3 => {
                let p = dir.as_ref().unwrap().path().join("t.vortex");
                let f = tokio::fs::File::create(&p).await?;
                let mut f = write_file(f, how, &dt, &batches).await?;
                VortexWrite::flush(&mut f).await?;
                VortexWrite::shutdown(&mut f).await?;
                drop(f);
                std::fs::read(&p)?
            }
            _ => {
                let w = store.vortex_writer(&path).await?;
                let mut w = write_file(w, how, &dt, &batches).await?;
                w.flush().await?;
                w.shutdown().await?;
                store.get(&path).await.map_err(VortexError::ObjectStore)?.bytes().await.map_err(VortexError::ObjectStore)?.to_vec()
            }
        })
    })
    .map_err(|e| fail("write", &e))?;
    if bytes != reference {
        return Err(Fail::new("bytes differ", format!("writer {kind}: {} bytes instead of {}", bytes.len(), reference.len())));
    }
    for _ in 0..2 {
        let mut s = gen_scan(r, ctx, &t);
        let mut want = t.clone();
        if r.gen_bool(0.4) {
            let (e, x) = gen_bool(r, &t, 1, false);
            let keep: Vec<bool> = e.eval_all(&t).iter().map(|v| *v == V::Bool(true)).collect();
            s.filter = Some(x);
            want = t.select(&keep);
        }
        let want = project(&want, &s);
        let plan = Plan::hostile(r);
        let mut exec = *EXECS.choose(r).unwrap();
        let kind = r.gen_range(0..8);
        if kind >= 5 && exec == Exec::Futures {
            exec = Exec::TokioMulti;
        }
        ctx.step(format!("file reader {kind} late {} on {exec:?}, batch size {:?}", plan.late, s.batch_size));
        ctx.key(format!("file-reader:{kind}/{exec:?}"));
        ctx.label(format!("file reader {kind}"));
        let bytes = bytes.clone();
        let got = run_on(exec, async {
            match kind {
                0 | 1 => scan(AdvAt::new(bytes, plan), &s).await,
                2 => scan(bytes, &s).await,
                3 => scan(Buffer::from(bytes), &s).await,
                4 => {
                    let mut b = vec![7u8; 64];
                    b.extend_from_slice(&bytes);
                    scan(OffsetReadAt::new(AdvAt::new(b, plan), 64), &s).await
                }
                5 => {
                    let d = tempfile::tempdir().unwrap();
                    let p = d.path().join("r.vortex");
                    std::fs::write(&p, &bytes).unwrap();
                    scan(tokio::fs::File::open(&p).await.unwrap(), &s).await
                }
                6 => {
                    let st: Arc<dyn object_store::ObjectStore> = Arc::new(object_store::memory::InMemory::new());
                    st.put(&path, bytes.into()).await.unwrap();
                    scan(vortex_serde::io::ObjectStoreReadAt::new(st, path.clone()), &s).await
                }
                _ => scan(Arc::new(AdvAt::new(bytes, plan)), &s).await,
            }
        });
        if let Some(e) = &got.err {
            return Err(fail("read", e));
        }
        check_rows(r, ctx, &got.batches, &want, false, false)?;
        if got.schema.as_ref() != Some(&want.dtype()) {
            return Err(Fail::new("schema", format!("{:?} expected {}", got.schema, want.dtype())));
        }
    }
    Ok(())
}
