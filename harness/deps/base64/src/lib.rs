//! Stand-in for the parts of base64 0.13 that generated code uses (the crate is not available offline).
#[derive(Clone, Copy)]
pub struct Config;
pub const STANDARD: Config = Config;
const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn val(b: u8) -> Option<u32> { A.iter().position(|x| *x == b).map(|x| x as u32) }
pub mod write {
    use super::*;
    use std::io::{self, Write};
    pub struct EncoderWriter<W: Write> { inner: Option<W>, extra: Vec<u8>, panicked: bool }
    impl<W: Write> EncoderWriter<W> {
        pub fn new(w: W, _c: Config) -> Self { EncoderWriter { inner: Some(w), extra: vec![], panicked: false } }
        pub fn finish(&mut self) -> io::Result<W> { self.last()?; Ok(self.inner.take().expect("finish twice")) }
        fn put(&mut self, d: &[u8]) -> io::Result<()> { self.panicked = true; let r = self.inner.as_mut().expect("finished").write_all(d); self.panicked = false; r }
        fn last(&mut self) -> io::Result<()> {
            if self.inner.is_none() || self.extra.is_empty() { return Ok(()); }
            let e = std::mem::take(&mut self.extra);
            let n = (e[0] as u32) << 16 | (*e.get(1).unwrap_or(&0) as u32) << 8;
            let o = [A[(n >> 18) as usize & 63], A[(n >> 12) as usize & 63], if e.len() > 1 { A[(n >> 6) as usize & 63] } else { b'=' }, b'='];
            self.put(&o)
        }
    }
    impl<W: Write> Write for EncoderWriter<W> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.extra.extend_from_slice(b);
            let n = self.extra.len() / 3 * 3;
            let full: Vec<u8> = self.extra.drain(..n).collect();
            let mut o = vec![];
            for c in full.chunks(3) { let n = (c[0] as u32) << 16 | (c[1] as u32) << 8 | c[2] as u32; for s in [18, 12, 6, 0] { o.push(A[(n >> s) as usize & 63]); } }
            self.put(&o)?;
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> { self.inner.as_mut().expect("finished").flush() }
    }
    impl<W: Write> Drop for EncoderWriter<W> { fn drop(&mut self) { if !self.panicked { let _ = self.last(); } } }
}
pub mod read {
    use super::*;
    use std::io::{self, Read};
    pub struct DecoderReader<'a, R: Read> { inner: &'a mut R, out: Vec<u8>, done: bool }
    impl<'a, R: Read> DecoderReader<'a, R> { pub fn new(r: &'a mut R, _c: Config) -> Self { DecoderReader { inner: r, out: vec![], done: false } } }
    fn bad() -> io::Error { io::Error::new(io::ErrorKind::InvalidData, "base64") }
    impl<'a, R: Read> Read for DecoderReader<'a, R> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            if b.is_empty() { return Ok(0); }
            if self.out.is_empty() {
                let mut q = vec![];
                (&mut *self.inner).take(4).read_to_end(&mut q)?;
                if q.is_empty() { return Ok(0); }
                if q.len() != 4 || self.done { return Err(bad()); }
                let pad = q.iter().rev().take_while(|x| **x == b'=').count();
                if pad > 2 { return Err(bad()); }
                let mut n = 0;
                for x in &q[..4 - pad] { n = n << 6 | val(*x).ok_or_else(bad)?; }
                n <<= 6 * pad;
                if n & ((1u32 << (8 * pad)) - 1) != 0 { return Err(bad()); }
                self.done = pad > 0;
                self.out = n.to_be_bytes()[1..4 - pad].to_vec();
            }
            let n = self.out.len().min(b.len());
            b[..n].copy_from_slice(&self.out[..n]);
            self.out.drain(..n);
            Ok(n)
        }
    }
}
