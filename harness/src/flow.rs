//! Uniform handling of the asynchronous wrappers.
use std::pin::Pin;
use std::sync::Mutex;
use std::task::{Context, Poll};

use blocking_permit::{deregister_dispatch_pool, register_dispatch_pool, DispatchPool, Semaphore, Semaphorish};
use body_image::{BodyImage, BodySink, Tunables};
use body_image_futio::*;
use bytes::{Buf, Bytes};
use futures_core::stream::Stream;
use futures_sink::Sink;

use crate::exec::{Driver, Lost};
use crate::rng::Rng;

/// Semaphores live for good, but stay reachable for leak checkers.
static SEMS: Mutex<Vec<&'static Semaphore>> = Mutex::new(Vec::new());

pub fn semaphore(n: usize) -> &'static Semaphore {
    let s: &'static Semaphore = Box::leak(Box::new(Semaphore::default_new(n)));
    SEMS.lock().unwrap().push(s);
    s
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SinkKind { Direct, Permit, Dispatch }
pub const SINKS: [SinkKind; 3] = [SinkKind::Direct, SinkKind::Permit, SinkKind::Dispatch];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum StreamKind { Direct, Yield, Split, Permit, Dispatch }
pub const STREAMS: [StreamKind; 5] = [StreamKind::Direct, StreamKind::Yield, StreamKind::Split, StreamKind::Permit, StreamKind::Dispatch];

/// A dispatch pool registered with this thread until dropped.
pub struct Registered;
impl Drop for Registered { fn drop(&mut self) { deregister_dispatch_pool(); } }

pub fn register(pool: DispatchPool) -> Registered {
    register_dispatch_pool(pool);
    Registered
}

/// A pool of 1-4 threads with bounded or unbounded queue.
pub fn pool(r: &mut Rng) -> (DispatchPool, String) {
    let size = 1 + r.usize(4);
    let queue = match r.below(4) { 0 => Some(1 + r.usize(3)), _ => None };
    let mut b = DispatchPool::builder();
    b.pool_size(size).name_prefix("vh-pool-");
    if let Some(q) = queue { b.queue_length(q); }
    (b.create(), format!("pool {} queue {:?}", size, queue))
}

/// A pool whose queue takes everything, so that no work is ever run by the
/// thread that queues it, and whose threads may still finish abandoned work.
pub fn open_pool(r: &mut Rng) -> (DispatchPool, String) {
    let size = 1 + r.usize(4);
    let mut b = DispatchPool::builder();
    b.pool_size(size).name_prefix("vh-pool-");
    (b.create(), format!("pool {}", size))
}

/// Every file operation of the wrapper happens on the polling thread (or the
/// wrapper cannot be woken by anyone else).
pub fn alone_sink(k: SinkKind) -> bool { k == SinkKind::Direct }
pub fn alone_stream(k: StreamKind) -> bool { matches!(k, StreamKind::Direct | StreamKind::Yield | StreamKind::Split) }

pub enum AnySink<B: InputBuf> {
    Direct(AsyncBodySink<B>),
    Permit(PermitBodySink<B>),
    Dispatch(DispatchBodySink<B>),
}

macro_rules! each {
    ($s:expr, $x:ident => $e:expr) => {
        match $s { AnySink::Direct($x) => $e, AnySink::Permit($x) => $e, AnySink::Dispatch($x) => $e }
    };
}

impl<B: InputBuf> AnySink<B> {
    pub fn new(k: SinkKind, body: BodySink, tune: FutioTunables) -> Self {
        match k {
            SinkKind::Direct => AnySink::Direct(AsyncBodySink::new(body, tune)),
            SinkKind::Permit => AnySink::Permit(<PermitBodySink<B> as SinkWrapper<B>>::new(body, tune)),
            SinkKind::Dispatch => AnySink::Dispatch(<DispatchBodySink<B> as SinkWrapper<B>>::new(body, tune)),
        }
    }
    pub fn into_inner(self) -> BodySink { each!(self, x => x.into_inner()) }
    pub fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>> { each!(self, x => Sink::<B>::poll_ready(Pin::new(x), cx)) }
    pub fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>> { each!(self, x => Sink::<B>::poll_flush(Pin::new(x), cx)) }
    pub fn poll_close(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>> { each!(self, x => Sink::<B>::poll_close(Pin::new(x), cx)) }
    pub fn start_send(&mut self, b: B) -> Result<(), FutioError> { each!(self, x => Sink::<B>::start_send(Pin::new(x), b)) }

    /// Send everything, then flush or close.
    pub fn send_all(&mut self, items: Vec<B>, d: &mut Driver) -> Result<Result<(), FutioError>, Lost> {
        for b in items {
            if let Err(e) = d.run(|cx| self.poll_ready(cx))? { return Ok(Err(e)); }
            if let Err(e) = self.start_send(b) { return Ok(Err(e)); }
            if d.rng.chance(1, 5) {
                if let Err(e) = d.run(|cx| self.poll_flush(cx))? { return Ok(Err(e)); }
            }
        }
        let close = d.rng.chance(1, 2);
        d.run(|cx| if close { self.poll_close(cx) } else { self.poll_flush(cx) })
    }
}

/// Buffers a stream yields, as bytes.
pub trait Item: OutputBuf + AsRef<[u8]> + Into<Bytes> { const NAME: &'static str; }
impl Item for Bytes { const NAME: &'static str = "Bytes"; }
impl Item for UniBodyBuf { const NAME: &'static str = "UniBodyBuf"; }

pub enum AnyStream<B: Item + blocking_permit::Splittable> {
    Direct(AsyncBodyImage<B>),
    Yield(Box<YieldBodyImage<B>>),
    Split(Box<SplitBodyImage<B>>),
    Permit(PermitBodyImage<B>),
    Dispatch(DispatchBodyImage<B>),
}

impl<B: Item + blocking_permit::Splittable> AnyStream<B> {
    pub fn new(k: StreamKind, body: BodyImage, tune: FutioTunables) -> Self {
        match k {
            StreamKind::Direct => AnyStream::Direct(AsyncBodyImage::new(body, tune)),
            StreamKind::Yield => AnyStream::Yield(Box::new(<YieldBodyImage<B> as StreamWrapper>::new(body, tune))),
            StreamKind::Split => AnyStream::Split(Box::new(<SplitBodyImage<B> as StreamWrapper>::new(body, tune))),
            StreamKind::Permit => AnyStream::Permit(<PermitBodyImage<B> as StreamWrapper>::new(body, tune)),
            StreamKind::Dispatch => AnyStream::Dispatch(<DispatchBodyImage<B> as StreamWrapper>::new(body, tune)),
        }
    }
    pub fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Option<std::io::Result<B>>> {
        match self {
            AnyStream::Direct(x) => Pin::new(x).poll_next(cx),
            AnyStream::Yield(x) => Pin::new(&mut **x).poll_next(cx),
            AnyStream::Split(x) => Pin::new(&mut **x).poll_next(cx),
            AnyStream::Permit(x) => Pin::new(x).poll_next(cx),
            AnyStream::Dispatch(x) => Pin::new(x).poll_next(cx),
        }
    }
    /// (size hint lower, upper, end-of-stream flag), for those usable as an
    /// HTTP body.
    pub fn meta(&self) -> Option<(u64, Option<u64>, bool)> {
        use http_body::Body;
        let (h, e) = match self {
            AnyStream::Direct(x) => (Body::size_hint(x), x.is_end_stream()),
            AnyStream::Permit(x) => (Body::size_hint(x), x.is_end_stream()),
            AnyStream::Dispatch(x) => (Body::size_hint(x), x.is_end_stream()),
            _ => return None,
        };
        Some((h.lower(), h.upper(), e))
    }
    pub fn poll_data(&mut self, cx: &mut Context<'_>) -> Poll<Option<std::io::Result<B>>> {
        use http_body::Body;
        match self {
            AnyStream::Direct(x) => Pin::new(x).poll_data(cx),
            AnyStream::Permit(x) => Pin::new(x).poll_data(cx),
            AnyStream::Dispatch(x) => Pin::new(x).poll_data(cx),
            _ => self.poll(cx),
        }
    }
    pub fn poll_trailers(&mut self, cx: &mut Context<'_>) -> Poll<std::io::Result<Option<http::HeaderMap>>> {
        use http_body::Body;
        match self {
            AnyStream::Direct(x) => Pin::new(x).poll_trailers(cx),
            AnyStream::Permit(x) => Pin::new(x).poll_trailers(cx),
            AnyStream::Dispatch(x) => Pin::new(x).poll_trailers(cx),
            _ => Poll::Ready(Ok(None)),
        }
    }
}

pub fn futio(image: Tunables, k: Option<BlockingPolicy>, item: usize) -> FutioTunables {
    let mut t = FutioTuner::new();
    t.set_image(image).set_stream_item_size(item);
    if let Some(p) = k { t.set_blocking_policy(p); }
    t.finish()
}

pub fn sink_policy(k: SinkKind, sem: &'static Semaphore) -> BlockingPolicy {
    match k { SinkKind::Direct => BlockingPolicy::Direct, SinkKind::Permit => BlockingPolicy::Permit(sem), SinkKind::Dispatch => BlockingPolicy::Dispatch }
}
pub fn stream_policy(k: StreamKind, sem: &'static Semaphore) -> BlockingPolicy {
    match k { StreamKind::Permit => BlockingPolicy::Permit(sem), StreamKind::Dispatch => BlockingPolicy::Dispatch, _ => BlockingPolicy::Direct }
}

/// The remaining bytes of a buffer.
pub fn rest<B: Buf>(mut b: B) -> Vec<u8> {
    let mut v = Vec::with_capacity(b.remaining());
    while b.has_remaining() {
        let n = b.chunk().len();
        assert!(n > 0, "empty chunk with bytes remaining");
        v.extend_from_slice(b.chunk());
        b.advance(n);
    }
    v
}

/// A memory-mapped `UniBodyBuf` of exactly `data`.
pub fn mapped_buf(r: &mut Rng, data: &[u8], dir: &std::path::Path) -> UniBodyBuf {
    if data.is_empty() { return UniBodyBuf::from(Bytes::new()); }
    let st = *r.pick(&[crate::gen::State::MapFs, crate::gen::State::MapFile, crate::gen::State::MapSlice]);
    let b = crate::gen::body(r, st, data, dir);
    let mut s = AsyncBodyImage::<UniBodyBuf>::new(b, FutioTunables::default());
    let w = futures_util::task::noop_waker();
    let mut cx = Context::from_waker(&w);
    match Pin::new(&mut s).poll_next(&mut cx) {
        Poll::Ready(Some(Ok(b))) => b,
        other => panic!("mapped stream gave {:?}", other.map(|o| o.map(|r| r.is_ok()))),
    }
}
