//! Runtime of the monitored target programs: value conversion, hostile streams, allocation monitor, event log.
#![allow(dead_code)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::fmt::Write as _;
use std::io::{self, BufRead, Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

// ------------------------------------------------------------------ allocation monitor
pub struct Mon;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
/// single requests above this are reported and end the process with code 77
const HUGE: usize = 1 << 30;
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HUGE { eprintln!("HUGE-ALLOC {}", l.size()); std::process::exit(77); }
        let n = LIVE.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(n, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
}
#[cfg(not(any(miri, ps_asan)))]
#[global_allocator]
static A: Mon = Mon;
pub fn mem_reset() -> usize { let l = LIVE.load(Relaxed); PEAK.store(l, Relaxed); l }
pub fn mem_peak(base: usize) -> usize { PEAK.load(Relaxed).saturating_sub(base) }

// ------------------------------------------------------------------ values
#[derive(Clone, Debug, PartialEq)]
pub enum Val { I(u128), F(u32), D(u64), B(bool), S(String), L(Vec<Val>), C(Vec<Val>), N, O(Box<Val>), V(String, Box<Val>) }
impl Val {
    pub fn ser(&self, o: &mut String) {
        match self {
            Val::I(x) => write!(o, "i{} ", x).unwrap(),
            Val::F(x) => write!(o, "f{} ", x).unwrap(),
            Val::D(x) => write!(o, "d{} ", x).unwrap(),
            Val::B(x) => write!(o, "b{} ", *x as u8).unwrap(),
            Val::S(x) => write!(o, "s{} ", hex(x.as_bytes())).unwrap(),
            Val::L(x) => { write!(o, "l{} ", x.len()).unwrap(); for v in x { v.ser(o) } }
            Val::C(x) => { write!(o, "c{} ", x.len()).unwrap(); for v in x { v.ser(o) } }
            Val::N => o.push_str("n "),
            Val::O(x) => { o.push_str("o "); x.ser(o) }
            Val::V(n, x) => { write!(o, "v{} ", n).unwrap(); x.ser(o) }
        }
    }
    pub fn parse(t: &mut dyn Iterator<Item = &str>) -> Val {
        let w = t.next().expect("value");
        let r = &w[1..];
        match w.as_bytes()[0] {
            b'i' => Val::I(r.parse().unwrap()),
            b'f' => Val::F(r.parse().unwrap()),
            b'd' => Val::D(r.parse().unwrap()),
            b'b' => Val::B(r == "1"),
            b's' => Val::S(String::from_utf8(unhex(r)).unwrap()),
            b'l' => Val::L((0..r.parse::<usize>().unwrap()).map(|_| Val::parse(t)).collect()),
            b'c' => Val::C((0..r.parse::<usize>().unwrap()).map(|_| Val::parse(t)).collect()),
            b'n' => Val::N,
            b'o' => Val::O(Box::new(Val::parse(t))),
            b'v' => Val::V(r.to_string(), Box::new(Val::parse(t))),
            _ => panic!("bad value {}", w),
        }
    }
    pub fn fields(&self) -> &[Val] { match self { Val::C(x) => x, v => panic!("container expected, got {:?}", v) } }
}
pub fn hex(b: &[u8]) -> String { let mut s = String::with_capacity(b.len() * 2); for x in b { s.push(char::from_digit((x >> 4) as u32, 16).unwrap()); s.push(char::from_digit((x & 15) as u32, 16).unwrap()); } s }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

pub trait Conv { fn to(&self) -> Val; fn from(v: &Val) -> Self; }
macro_rules! ints { ($($t:ty => $u:ty),*) => { $(impl Conv for $t {
    fn to(&self) -> Val { Val::I(*self as $u as u128) }
    fn from(v: &Val) -> Self { match v { Val::I(x) => *x as $t, v => panic!("int expected {:?}", v) } }
})* } }
ints!(u8 => u8, u16 => u16, u32 => u32, u64 => u64, u128 => u128, i8 => u8, i16 => u16, i32 => u32, i64 => u64, i128 => u128);
impl Conv for f32 { fn to(&self) -> Val { Val::F(self.to_bits()) } fn from(v: &Val) -> Self { match v { Val::F(x) => f32::from_bits(*x), _ => panic!() } } }
impl Conv for f64 { fn to(&self) -> Val { Val::D(self.to_bits()) } fn from(v: &Val) -> Self { match v { Val::D(x) => f64::from_bits(*x), _ => panic!() } } }
impl Conv for bool { fn to(&self) -> Val { Val::B(*self) } fn from(v: &Val) -> Self { match v { Val::B(x) => *x, _ => panic!() } } }
impl Conv for String { fn to(&self) -> Val { Val::S(self.clone()) } fn from(v: &Val) -> Self { match v { Val::S(x) => x.clone(), _ => panic!() } } }
impl<T: Conv> Conv for Vec<T> { fn to(&self) -> Val { Val::L(self.iter().map(|x| x.to()).collect()) } fn from(v: &Val) -> Self { match v { Val::L(x) => x.iter().map(T::from).collect(), v => panic!("list expected {:?}", v) } } }
impl<T: Conv> Conv for Option<T> { fn to(&self) -> Val { match self { None => Val::N, Some(x) => Val::O(Box::new(x.to())) } } fn from(v: &Val) -> Self { match v { Val::N => None, Val::O(x) => Some(T::from(x)), v => panic!("option expected {:?}", v) } } }
impl<T: Conv> Conv for Box<T> { fn to(&self) -> Val { (**self).to() } fn from(v: &Val) -> Self { Box::new(T::from(v)) } }

// ------------------------------------------------------------------ transforms
pub fn xf_enc(name: &str, a: &[u8], d: &[u8]) -> Vec<u8> {
    match name {
        "xadd" => { let k = *a.get(0).unwrap_or(&1); d.iter().map(|b| b.wrapping_add(k)).collect() }
        "xxor" | "sxor" => d.iter().map(|b| b ^ a[0]).collect(),
        "sadd" => d.iter().map(|b| b.wrapping_add(a[0])).collect(),
        "xrot" => { let j = *a.get(1).unwrap_or(&0); d.iter().map(|b| b.rotate_left(a[0] as u32 % 8).wrapping_sub(j)).collect() }
        "hexy" => d.iter().flat_map(|b| vec![0x40 | (b >> 4), 0x40 | (b & 15)]).collect(),
        _ => panic!(),
    }
}
pub fn xf_dec(name: &str, a: &[u8], d: &[u8]) -> io::Result<Vec<u8>> {
    Ok(match name {
        "xadd" => { let k = *a.get(0).unwrap_or(&1); d.iter().map(|b| b.wrapping_sub(k)).collect() }
        "xxor" | "sxor" => d.iter().map(|b| b ^ a[0]).collect(),
        "sadd" => d.iter().map(|b| b.wrapping_sub(a[0])).collect(),
        "xrot" => { let j = *a.get(1).unwrap_or(&0); d.iter().map(|b| b.wrapping_add(j).rotate_right(a[0] as u32 % 8)).collect() }
        "hexy" => {
            if d.len() % 2 != 0 || d.iter().any(|b| b & 0xf0 != 0x40) { return Err(io::Error::new(io::ErrorKind::InvalidData, "hexy")); }
            d.chunks(2).map(|c| (c[0] & 15) << 4 | (c[1] & 15)).collect()
        }
        _ => panic!(),
    })
}
pub struct BufEnc<'a, W: Write + ?Sized> { name: &'static str, inner: &'a mut W, args: Vec<u8>, buf: Vec<u8> }
impl<'a, W: Write + ?Sized> BufEnc<'a, W> { pub fn new(name: &'static str, inner: &'a mut W, args: Vec<u8>) -> Self { BufEnc { name, inner, args, buf: vec![] } } }
impl<'a, W: Write + ?Sized> Write for BufEnc<'a, W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.buf.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { let d = std::mem::take(&mut self.buf); self.inner.write_all(&xf_enc(self.name, &self.args, &d)) }
}
pub fn buf_dec<R: Read>(name: &str, mut r: R, a: &[u8]) -> io::Result<io::Cursor<Vec<u8>>> {
    let mut raw = vec![];
    r.read_to_end(&mut raw)?;
    Ok(io::Cursor::new(xf_dec(name, a, &raw)?))
}
pub struct StreamDec<R> { name: &'static str, inner: R, key: u8, have: Option<[u8; 1]> }
impl<R: Read> StreamDec<R> { pub fn new(name: &'static str, inner: R, a: [u8; 1]) -> Self { StreamDec { name, inner, key: a[0], have: None } } }
impl<R: Read> Read for StreamDec<R> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        if let Some(x) = self.have.take() { b[0] = x[0]; return Ok(1); }
        let n = self.inner.read(b)?;
        let t = xf_dec(self.name, &[self.key], &b[..n])?;
        b[..n].copy_from_slice(&t);
        Ok(n)
    }
}
impl<R: Read> BufRead for StreamDec<R> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.have.is_none() {
            let mut x = [0u8; 1];
            loop { match self.inner.read(&mut x) { Ok(0) => return Ok(&[]), Ok(_) => break, Err(e) if e.kind() == io::ErrorKind::Interrupted => (), Err(e) => return Err(e) } }
            self.have = Some([xf_dec(self.name, &[self.key], &x)?[0]]);
        }
        Ok(&self.have.as_ref().unwrap()[..])
    }
    fn consume(&mut self, n: usize) { if n > 0 { self.have = None; } }
}

// ------------------------------------------------------------------ hostile streams
#[derive(Clone, Copy)]
pub struct Rnd(pub u64);
impl Rnd { pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11 } pub fn below(&mut self, n: u64) -> u64 { self.next() % n } }

#[derive(Clone, Copy, Debug)]
pub enum RMode { Full, Chunk(usize), Rand(u64), Fail(usize) }
pub struct HReader<'a> { pub data: &'a [u8], pub pos: usize, win: usize, mode: RMode, rnd: Rnd, idle: usize, pub calls: usize, pub intr: usize, inspected: u64 }
pub const LIVELOCK: &str = "LIVELOCK";
impl<'a> HReader<'a> {
    pub fn new(data: &'a [u8], mode: RMode) -> Self { let s = if let RMode::Rand(s) = mode { s } else { 1 }; HReader { data, pos: 0, win: 0, mode, rnd: Rnd(s | 1), idle: 0, calls: 0, intr: 0, inspected: 0 } }
    fn tick(&mut self) { self.calls += 1; self.idle += 1; if self.idle > 20_000 { panic!("{}", LIVELOCK); } }
    fn window(&mut self) -> io::Result<()> {
        if let RMode::Fail(k) = self.mode { if self.pos >= k { return Err(io::Error::new(io::ErrorKind::Other, "injected-read-fault")); } }
        if self.win <= self.pos {
            let n = match self.mode { RMode::Full => usize::MAX, RMode::Chunk(n) => n, RMode::Rand(_) => 1 + self.rnd.below(7) as usize, RMode::Fail(k) => k - self.pos };
            self.win = self.pos.saturating_add(n).min(self.data.len());
        }
        Ok(())
    }
}
impl<'a> Read for HReader<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.tick();
        // a reader may look at the buffer it is handed
        for x in b.iter().take(64) { self.inspected = self.inspected.wrapping_mul(31).wrapping_add(*x as u64); }
        if b.is_empty() { return Ok(0); }
        if let RMode::Rand(_) = self.mode { if self.rnd.below(4) == 0 { self.intr += 1; return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")); } }
        self.window()?;
        let n = (self.win - self.pos).min(b.len());
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if n > 0 { self.idle = 0; }
        Ok(n)
    }
}
impl<'a> BufRead for HReader<'a> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> { self.tick(); self.window()?; Ok(&self.data[self.pos..self.win]) }
    fn consume(&mut self, n: usize) { assert!(self.pos + n <= self.win.max(self.pos), "MISUSE consume beyond the buffer"); self.pos += n; if n > 0 { self.idle = 0; } }
}

#[derive(Clone, Copy, Debug)]
pub enum WMode { Full, Short(u64), Fail(usize), Zero(usize) }
pub struct HWriter { pub out: Vec<u8>, mode: WMode, rnd: Rnd, pub calls: usize, pub intr: usize, pub flushes: usize }
impl HWriter { pub fn new(mode: WMode) -> Self { let s = if let WMode::Short(s) = mode { s } else { 1 }; HWriter { out: vec![], mode, rnd: Rnd(s | 1), calls: 0, intr: 0, flushes: 0 } } }
impl HWriter {
    fn accept(&mut self, b: &[u8], allow_intr: bool) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() { return Ok(0); }
        let n = match self.mode {
            WMode::Full => b.len(),
            WMode::Short(_) => { if allow_intr && self.rnd.below(4) == 0 { self.intr += 1; return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")); } (1 + self.rnd.below(3) as usize).min(b.len()) }
            WMode::Fail(k) => { if self.out.len() >= k { return Err(io::Error::new(io::ErrorKind::Other, "injected-write-fault")); } (k - self.out.len()).min(b.len()) }
            WMode::Zero(k) => (k - self.out.len().min(k)).min(b.len()),
        };
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
}
impl Write for HWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.accept(b, true) }
    fn flush(&mut self) -> io::Result<()> { self.flushes += 1; Ok(()) }
}

// ------------------------------------------------------------------ async streams
#[cfg(ps_async)]
pub mod aio {
    use super::*;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, AsyncReadExt, ReadBuf};
    use std::sync::atomic::Ordering;

    pub struct HAReader<'a> { pub inner: HReader<'a>, pub rnd: Rnd, pub pendings: usize }
    impl<'a> HAReader<'a> {
        pub fn new(data: &'a [u8], mode: RMode, seed: u64) -> Self { HAReader { inner: HReader::new(data, match mode { RMode::Rand(s) => RMode::Chunk(1 + (s % 5) as usize), m => m }), rnd: Rnd(seed | 1), pendings: 0 } }
        fn pend(&mut self, cx: &mut Context<'_>) -> bool { if self.rnd.below(3) == 0 { self.pendings += 1; cx.waker().wake_by_ref(); true } else { false } }
    }
    impl<'a> AsyncRead for HAReader<'a> {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            if self.pend(cx) { return Poll::Pending; }
            let s = &mut *self;
            s.inner.tick();
            if let Err(e) = s.inner.window() { return Poll::Ready(Err(e)); }
            let n = (s.inner.win - s.inner.pos).min(buf.remaining());
            buf.put_slice(&s.inner.data[s.inner.pos..s.inner.pos + n]);
            s.inner.pos += n;
            if n > 0 { s.inner.idle = 0; }
            Poll::Ready(Ok(()))
        }
    }
    impl<'a> AsyncBufRead for HAReader<'a> {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            let s = self.get_mut();
            if s.pend(cx) { return Poll::Pending; }
            Poll::Ready(s.inner.fill_buf())
        }
        fn consume(mut self: Pin<&mut Self>, n: usize) { self.inner.consume(n) }
    }
    pub struct HAWriter { pub inner: HWriter, pub rnd: Rnd, pub pendings: usize }
    impl HAWriter { pub fn new(mode: WMode, seed: u64) -> Self { HAWriter { inner: HWriter::new(mode), rnd: Rnd(seed | 1), pendings: 0 } } }
    impl AsyncWrite for HAWriter {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            if self.rnd.below(3) == 0 { self.pendings += 1; cx.waker().wake_by_ref(); return Poll::Pending; }
            Poll::Ready(self.inner.accept(b, false))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    }
    pub struct ABufEnc<'a, W: AsyncWrite + Unpin + ?Sized> { name: &'static str, inner: &'a mut W, args: Vec<u8>, buf: Vec<u8>, out: Vec<u8>, at: usize }
    impl<'a, W: AsyncWrite + Unpin + ?Sized> ABufEnc<'a, W> { pub fn new(name: &'static str, inner: &'a mut W, args: Vec<u8>) -> Self { ABufEnc { name, inner, args, buf: vec![], out: vec![], at: 0 } } }
    impl<'a, W: AsyncWrite + Unpin + ?Sized> AsyncWrite for ABufEnc<'a, W> {
        fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { self.buf.extend_from_slice(b); Poll::Ready(Ok(b.len())) }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            let s = self.get_mut();
            if !s.buf.is_empty() { let d = std::mem::take(&mut s.buf); s.out.extend(xf_enc(s.name, &s.args, &d)); }
            while s.at < s.out.len() {
                match Pin::new(&mut *s.inner).poll_write(cx, &s.out[s.at..]) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(Ok(0)) => return Poll::Ready(Err(io::ErrorKind::WriteZero.into())),
                    Poll::Ready(Ok(n)) => s.at += n,
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                }
            }
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.poll_flush(cx) }
    }
    pub struct ABuf { data: Vec<u8>, pos: usize }
    impl AsyncRead for ABuf {
        fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let n = (self.data.len() - self.pos).min(buf.remaining());
            let p = self.pos; buf.put_slice(&self.data[p..p + n]); self.pos += n; Poll::Ready(Ok(()))
        }
    }
    impl AsyncBufRead for ABuf {
        fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<&[u8]>> { let s = self.get_mut(); Poll::Ready(Ok(&s.data[s.pos..])) }
        fn consume(mut self: Pin<&mut Self>, n: usize) { self.pos += n }
    }
    pub async fn abuf_dec<R: AsyncRead + Unpin>(name: &str, mut r: R, a: &[u8]) -> io::Result<ABuf> {
        let mut raw = vec![];
        r.read_to_end(&mut raw).await?;
        Ok(ABuf { data: xf_dec(name, a, &raw)?, pos: 0 })
    }
    pub struct AStreamDec<R> { name: &'static str, inner: R, key: u8, have: Option<[u8; 1]> }
    impl<R> AStreamDec<R> { pub fn new(name: &'static str, inner: R, a: [u8; 1]) -> Self { AStreamDec { name, inner, key: a[0], have: None } } }
    impl<R: AsyncRead + Unpin> AStreamDec<R> {
        fn fill(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            if self.have.is_none() {
                let mut x = [0u8; 1];
                let mut rb = ReadBuf::new(&mut x);
                match Pin::new(&mut self.inner).poll_read(cx, &mut rb) { Poll::Pending => return Poll::Pending, Poll::Ready(Err(e)) => return Poll::Ready(Err(e)), Poll::Ready(Ok(())) => () }
                if rb.filled().len() == 1 { let b = rb.filled()[0]; self.have = Some([xf_dec(self.name, &[self.key], &[b])?[0]]); }
            }
            Poll::Ready(Ok(()))
        }
    }
    impl<R: AsyncRead + Unpin> AsyncRead for AStreamDec<R> {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            if buf.remaining() == 0 { return Poll::Ready(Ok(())); }
            match self.fill(cx) { Poll::Ready(Ok(())) => (), o => return o }
            if let Some(x) = self.have.take() { buf.put_slice(&x); }
            Poll::Ready(Ok(()))
        }
    }
    impl<R: AsyncRead + Unpin> AsyncBufRead for AStreamDec<R> {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            let s = self.get_mut();
            match s.fill(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(Err(e)) => return Poll::Ready(Err(e)), _ => () }
            Poll::Ready(Ok(match &s.have { Some(x) => &x[..], None => &[] }))
        }
        fn consume(mut self: Pin<&mut Self>, n: usize) { if n > 0 { self.have = None; } }
    }
    pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
        struct W(AtomicUsize);
        impl std::task::Wake for W { fn wake(self: std::sync::Arc<Self>) { self.0.fetch_add(1, Ordering::Relaxed); } }
        let w = std::sync::Arc::new(W(AtomicUsize::new(0)));
        let waker = std::task::Waker::from(w.clone());
        let mut cx = Context::from_waker(&waker);
        let mut f = Box::pin(f);
        let mut lost = 0;
        loop {
            let before = w.0.load(Ordering::Relaxed);
            match f.as_mut().poll(&mut cx) {
                Poll::Ready(x) => return x,
                Poll::Pending => { if w.0.load(Ordering::Relaxed) == before { lost += 1; if lost > 100 { panic!("LOST-WAKEUP"); } } }
            }
        }
    }
}
#[cfg(ps_async)]
pub use aio::*;

// ------------------------------------------------------------------ operations
pub struct Op { pub kind: String, pub args: Vec<Val>, pub val: Option<Val>, pub data: Vec<u8>, pub rmode: RMode, pub wmode: WMode, pub seed: u64 }
pub struct Res { pub line: String }

fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".to_string() }
    })
}
fn clean(s: &str) -> String { s.replace(|c: char| c.is_control(), " ") }

impl Op {
    pub fn parse(words: &[&str]) -> Op {
        // kind rmode wmode seed hexdata|- nargs args.. value?
        let mut it = words.iter().copied();
        let kind = it.next().unwrap().to_string();
        let m = it.next().unwrap();
        let num = |s: &str| s[1..].parse::<u64>().unwrap_or(0);
        let rmode = match m.as_bytes()[0] { b'c' => RMode::Chunk(num(m) as usize), b'r' => RMode::Rand(num(m)), b'x' => RMode::Fail(num(m) as usize), _ => RMode::Full };
        let m = it.next().unwrap();
        let wmode = match m.as_bytes()[0] { b's' => WMode::Short(num(m)), b'x' => WMode::Fail(num(m) as usize), b'z' => WMode::Zero(num(m) as usize), _ => WMode::Full };
        let seed = it.next().unwrap().parse().unwrap();
        let d = it.next().unwrap();
        let data = if d == "-" { vec![] } else { unhex(d) };
        let n: usize = it.next().unwrap().parse().unwrap();
        let args = (0..n).map(|_| Val::parse(&mut it)).collect();
        let val = if kind.contains("enc") || kind.contains("rt") { Some(Val::parse(&mut it)) } else { None };
        Op { kind, args, val, data, rmode, wmode, seed }
    }
    pub fn enc(&self, f: impl FnOnce(&mut HWriter) -> Result<(), String>) -> String {
        let mut w = HWriter::new(self.wmode);
        let base = mem_reset();
        let r = caught(|| f(&mut w));
        let peak = mem_peak(base);
        let tail = format!("{} {} {} {}", if w.out.is_empty() { "-".to_string() } else { hex(&w.out) }, w.calls, w.intr, peak);
        match r { Ok(Ok(())) => format!("ok {}", tail), Ok(Err(e)) => format!("err {} {}", tail, clean(&e)), Err(p) => format!("panic {} {}", tail, clean(&p)) }
    }
    pub fn dec(&self, f: impl FnOnce(&mut HReader) -> Result<Val, String>) -> String {
        let mut r = HReader::new(&self.data, self.rmode);
        let base = mem_reset();
        let res = caught(|| f(&mut r));
        let peak = mem_peak(base);
        let tail = format!("{} {} {} {}", r.pos, r.calls, r.intr, peak);
        match res { Ok(Ok(v)) => { let mut s = String::new(); v.ser(&mut s); format!("ok {} {}", tail, s.trim_end()) } Ok(Err(e)) => format!("err {} {}", tail, clean(&e)), Err(p) => format!("panic {} {}", tail, clean(&p)) }
    }
    /// encode, then decode what came out
    pub fn rt(&self, e: impl FnOnce(&mut HWriter) -> Result<(), String>, d: impl FnOnce(&mut HReader) -> Result<Val, String>) -> String {
        let base = mem_reset();
        let mut w = HWriter::new(WMode::Full);
        let mut pos = 0;
        let r = caught(|| { e(&mut w)?; let mut r = HReader::new(&w.out, self.rmode); let v = d(&mut r); pos = r.pos; v });
        let peak = mem_peak(base);
        let tail = format!("{} {} 0 {}", if w.out.is_empty() { "-".to_string() } else { hex(&w.out) }, pos, peak);
        match r { Ok(Ok(v)) => { let mut s = String::new(); v.ser(&mut s); format!("ok {} {}", tail, s.trim_end()) } Ok(Err(e)) => format!("err {} {}", tail, clean(&e)), Err(p) => format!("panic {} {}", tail, clean(&p)) }
    }
    #[cfg(ps_async)]
    pub fn art(&self, e: impl FnOnce(&mut HAWriter) -> Result<(), String>, d: impl FnOnce(&mut HAReader) -> Result<Val, String>) -> String {
        let base = mem_reset();
        let mut w = HAWriter::new(WMode::Full, self.seed);
        let mut pos = 0;
        let r = caught(|| { e(&mut w)?; let mut r = HAReader::new(&w.inner.out, self.rmode, self.seed ^ 77); let v = d(&mut r); pos = r.inner.pos; v });
        let peak = mem_peak(base);
        let tail = format!("{} {} 0 {}", if w.inner.out.is_empty() { "-".to_string() } else { hex(&w.inner.out) }, pos, peak);
        match r { Ok(Ok(v)) => { let mut s = String::new(); v.ser(&mut s); format!("ok {} {}", tail, s.trim_end()) } Ok(Err(e)) => format!("err {} {}", tail, clean(&e)), Err(p) => format!("panic {} {}", tail, clean(&p)) }
    }
    #[cfg(ps_async)]
    pub fn aenc(&self, f: impl FnOnce(&mut HAWriter) -> Result<(), String>) -> String {
        let mut w = HAWriter::new(self.wmode, self.seed);
        let base = mem_reset();
        let r = caught(|| f(&mut w));
        let peak = mem_peak(base);
        let tail = format!("{} {} {} {}", if w.inner.out.is_empty() { "-".to_string() } else { hex(&w.inner.out) }, w.inner.calls, w.pendings, peak);
        match r { Ok(Ok(())) => format!("ok {}", tail), Ok(Err(e)) => format!("err {} {}", tail, clean(&e)), Err(p) => format!("panic {} {}", tail, clean(&p)) }
    }
    #[cfg(ps_async)]
    pub fn adec(&self, f: impl FnOnce(&mut HAReader) -> Result<Val, String>) -> String {
        let mut r = HAReader::new(&self.data, self.rmode, self.seed);
        let base = mem_reset();
        let res = caught(|| f(&mut r));
        let peak = mem_peak(base);
        let tail = format!("{} {} {} {}", r.inner.pos, r.inner.calls, r.pendings, peak);
        match res { Ok(Ok(v)) => { let mut s = String::new(); v.ser(&mut s); format!("ok {} {}", tail, s.trim_end()) } Ok(Err(e)) => format!("err {} {}", tail, clean(&e)), Err(p) => format!("panic {} {}", tail, clean(&p)) }
    }
}

/// Reads commands, one per line (`id key kind ...`), and appends `B id` before and `E id result` after each to the log.
pub fn main_loop(dispatch: fn(&str, &Op) -> Option<String>) {
    let args: Vec<String> = std::env::args().collect();
    let cmds = std::fs::read_to_string(&args[1]).unwrap();
    let skip: usize = args.get(3).map_or(0, |s| s.parse().unwrap());
    let mut log = std::fs::OpenOptions::new().append(true).create(true).open(&args[2]).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    for line in cmds.lines().skip(skip) {
        let words: Vec<&str> = line.split_ascii_whitespace().collect();
        log.write_all(format!("B {}\n", words[0]).as_bytes()).unwrap();
        let r = caught(|| { let op = Op::parse(&words[2..]); dispatch(words[1], &op) });
        let r = match r { Ok(Some(r)) => r, Ok(None) => "harness nokey".to_string(), Err(p) => format!("harness {}", clean(&p)) };
        log.write_all(format!("E {} {}\n", words[0], r).as_bytes()).unwrap();
    }
    log.write_all(b"DONE\n").unwrap();
}
