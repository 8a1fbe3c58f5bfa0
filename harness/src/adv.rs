//! Adversarial storage: late answers, small pieces, any completion order, errors at a chosen operation.
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, OnceLock};
use std::task::{Context, Poll};

use bytes::BytesMut;
use rand::Rng;
use vortex_buffer::io_buf::IoBuf;
use vortex_serde::io::{VortexRead, VortexReadAt, VortexWrite};

use crate::gen::R;

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

/// Not ready for `n` polls; wakes itself, now and then from another thread.
pub struct Later {
    n: u32,
    thread: bool,
}
impl Future for Later {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.n == 0 {
            return Poll::Ready(());
        }
        self.n -= 1;
        let w = cx.waker().clone();
        if self.thread {
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_micros(50));
                w.wake()
            });
        } else {
            w.wake();
        }
        Poll::Pending
    }
}

#[derive(Clone, Copy)]
pub struct Plan {
    pub seed: u64,
    /// maximal number of not-ready answers per operation
    pub late: u32,
    pub threads: bool,
    /// maximal piece size of one read/write (0: no limit)
    pub piece: usize,
    /// this operation reports an error
    pub fail_at: Option<u64>,
    pub kind: io::ErrorKind,
}
impl Plan {
    pub fn calm() -> Plan {
        Plan {
            seed: 0,
            late: 0,
            threads: false,
            piece: 0,
            fail_at: None,
            kind: io::ErrorKind::Other,
        }
    }
    pub fn hostile(r: &mut R) -> Plan {
        Plan {
            seed: r.gen(),
            late: *[0u32, 1, 3, 8].get(r.gen_range(0..4)).unwrap(),
            threads: r.gen_bool(0.03),
            piece: *[0usize, 1, 3, 64, 1000, 4096].get(r.gen_range(0..6)).unwrap(),
            fail_at: None,
            kind: io::ErrorKind::Other,
        }
    }
    fn late(&self, op: u64) -> Later {
        Later {
            n: if self.late == 0 { 0 } else { (mix(self.seed ^ op) % (self.late as u64 + 1)) as u32 },
            thread: self.threads && mix(self.seed ^ op ^ 77) % 8 == 0,
        }
    }
    /// Some storage answers with memory of its own, at any address.
    fn answer(&self, op: u64, mut buffer: BytesMut, data: &[u8]) -> BytesMut {
        if self.seed % 4 != 1 {
            buffer.copy_from_slice(data);
            return buffer;
        }
        let k = 1 + (mix(self.seed ^ op ^ 9) % 15) as usize;
        let mut b = BytesMut::with_capacity(data.len() + k);
        b.extend_from_slice(&[0xa5; 16][..k]);
        b.extend_from_slice(data);
        b.split_off(k)
    }
    fn piece_len(&self, op: u64, n: usize) -> usize {
        if self.piece == 0 || n == 0 {
            n
        } else {
            (1 + (mix(self.seed ^ op ^ 5) as usize) % self.piece).min(n)
        }
    }
    fn err(&self) -> io::Error {
        io::Error::new(self.kind, "injected storage error")
    }
}

/// Random access storage.
#[derive(Clone)]
pub struct AdvAt {
    pub data: Arc<Vec<u8>>,
    pub plan: Plan,
    pub ops: Arc<AtomicU64>,
    /// reported instead of the real size
    pub claim: Option<u64>,
}
impl AdvAt {
    pub fn new(data: Vec<u8>, plan: Plan) -> AdvAt {
        AdvAt {
            data: Arc::new(data),
            plan,
            ops: Arc::new(AtomicU64::new(0)),
            claim: None,
        }
    }
}
impl VortexReadAt for AdvAt {
    async fn read_at_into(&self, pos: u64, buffer: BytesMut) -> io::Result<BytesMut> {
        let op = self.ops.fetch_add(1, Ordering::SeqCst);
        self.plan.late(op).await;
        if self.plan.fail_at == Some(op) {
            return Err(self.plan.err());
        }
        let (s, e) = (pos as usize, (pos as usize).saturating_add(buffer.len()));
        if e > self.data.len() {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
        // data of an earlier operation may arrive after that of a later one
        Ok(self.plan.answer(op, buffer, &self.data[s..e]))
    }
    async fn size(&self) -> u64 {
        self.claim.unwrap_or(self.data.len() as u64)
    }
}

/// Sequential storage in small pieces, as futures and tokio AsyncRead.
pub struct AdvSeq {
    pub data: Vec<u8>,
    pub pos: usize,
    pub plan: Plan,
    op: u64,
    wait: Option<Later>,
}
impl AdvSeq {
    pub fn new(data: Vec<u8>, plan: Plan) -> AdvSeq {
        AdvSeq {
            data,
            pos: 0,
            plan,
            op: 0,
            wait: None,
        }
    }
    fn step(&mut self, cx: &mut Context<'_>, max: usize) -> Poll<io::Result<&[u8]>> {
        if self.wait.is_none() {
            self.wait = Some(self.plan.late(self.op));
        }
        match Pin::new(self.wait.as_mut().unwrap()).poll(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(()) => self.wait = None,
        }
        let op = self.op;
        self.op += 1;
        if self.plan.fail_at == Some(op) {
            return Poll::Ready(Err(self.plan.err()));
        }
        let n = self.plan.piece_len(op, max.min(self.data.len() - self.pos));
        let s = self.pos;
        self.pos += n;
        Poll::Ready(Ok(&self.data[s..s + n]))
    }
}
impl futures::AsyncRead for AdvSeq {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let m = buf.len();
        match self.step(cx, m) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(b)) => {
                buf[..b.len()].copy_from_slice(b);
                Poll::Ready(Ok(b.len()))
            }
        }
    }
}
impl tokio::io::AsyncRead for AdvSeq {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let m = buf.remaining();
        match self.step(cx, m) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(b)) => {
                buf.put_slice(b);
                Poll::Ready(Ok(()))
            }
        }
    }
}

/// VortexRead that fails at a chosen operation.
pub struct AdvRead {
    pub data: Vec<u8>,
    pub pos: usize,
    pub plan: Plan,
    op: u64,
}
impl AdvRead {
    pub fn new(data: Vec<u8>, plan: Plan) -> AdvRead {
        AdvRead {
            data,
            pos: 0,
            plan,
            op: 0,
        }
    }
}
impl VortexRead for AdvRead {
    async fn read_into(&mut self, buffer: BytesMut) -> io::Result<BytesMut> {
        let op = self.op;
        self.op += 1;
        self.plan.late(op).await;
        if self.plan.fail_at == Some(op) {
            return Err(self.plan.err());
        }
        if self.pos + buffer.len() > self.data.len() {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
        let n = buffer.len();
        self.pos += n;
        Ok(self.plan.answer(op, buffer, &self.data[self.pos - n..self.pos]))
    }
}

/// Writer in small pieces (tokio AsyncWrite).
pub struct AdvSink {
    pub data: Vec<u8>,
    pub plan: Plan,
    op: u64,
    wait: Option<Later>,
}
impl AdvSink {
    pub fn new(plan: Plan) -> AdvSink {
        AdvSink {
            data: vec![],
            plan,
            op: 0,
            wait: None,
        }
    }
}
impl tokio::io::AsyncWrite for AdvSink {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if self.wait.is_none() {
            let l = self.plan.late(self.op);
            self.wait = Some(l);
        }
        match Pin::new(self.wait.as_mut().unwrap()).poll(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(()) => self.wait = None,
        }
        let op = self.op;
        self.op += 1;
        if self.plan.fail_at == Some(op) {
            return Poll::Ready(Err(self.plan.err()));
        }
        let n = self.plan.piece_len(op, buf.len());
        self.data.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

/// VortexWrite that fails at a chosen operation.
pub struct AdvWrite {
    pub data: Vec<u8>,
    pub plan: Plan,
    pub op: u64,
}
impl AdvWrite {
    pub fn new(plan: Plan) -> AdvWrite {
        AdvWrite {
            data: vec![],
            plan,
            op: 0,
        }
    }
}
impl VortexWrite for AdvWrite {
    async fn write_all<B: IoBuf>(&mut self, buffer: B) -> io::Result<B> {
        let op = self.op;
        self.op += 1;
        self.plan.late(op).await;
        if self.plan.fail_at == Some(op) {
            // part of it may have reached the storage
            let s = buffer.as_slice();
            self.data.extend_from_slice(&s[..s.len() / 2]);
            return Err(self.plan.err());
        }
        self.data.extend_from_slice(buffer.as_slice());
        Ok(buffer)
    }
    async fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
    async fn shutdown(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Exec {
    Futures,
    TokioCurrent,
    TokioMulti,
}
pub const EXECS: [Exec; 3] = [Exec::Futures, Exec::TokioCurrent, Exec::TokioMulti];

pub fn multi() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| {
        tokio::runtime::Builder::new_multi_thread()
            .worker_threads(4)
            .enable_all()
            .build()
            .expect("runtime")
    })
}

thread_local! {
    static CUR: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
}

pub fn run_on<F: Future>(e: Exec, f: F) -> F::Output {
    match e {
        Exec::Futures => futures::executor::block_on(f),
        Exec::TokioCurrent => CUR.with(|rt| rt.block_on(f)),
        Exec::TokioMulti => multi().block_on(f),
    }
}
