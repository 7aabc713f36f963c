//! Transports the harness owns: chunked, interrupted, pending, failing.
use crate::engine::Source;
use futures::io::{AsyncRead, AsyncWrite};
use std::future::Future;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub trait RS: Read + Seek {}
impl<T: Read + Seek> RS for T {}
pub trait AR: AsyncRead + Unpin + Send {}
impl<T: AsyncRead + Unpin + Send> AR for T {}
pub trait AW: AsyncWrite + Unpin + Send {}
impl<T: AsyncWrite + Unpin + Send> AW for T {}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Take(usize),
    /// Interrupted (sync) / Pending with a wake-up (async)
    Stall,
}

/// A cyclic plan with at least one Take.
pub fn plan(s: &mut Source, stall: bool) -> Vec<Act> {
    let n = 1 + s.below(6);
    let mut v: Vec<Act> = (0..n)
        .map(|_| {
            if stall && s.chance(1, 3) {
                Act::Stall
            } else {
                Act::Take(match s.weighted(&[4, 3, 1]) {
                    0 => 1,
                    1 => s.range(2, 9) as usize,
                    _ => s.range(10, 5000) as usize,
                })
            }
        })
        .collect();
    if !v.iter().any(|a| matches!(a, Act::Take(_))) {
        v.push(Act::Take(1));
    }
    v
}

pub const KINDS: [ErrorKind; 25] = [
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionRefused,
    ErrorKind::NotConnected,
    ErrorKind::AlreadyExists,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::Other,
    ErrorKind::NotFound,
    ErrorKind::ConnectionAborted,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::WouldBlock,
    ErrorKind::NotADirectory,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::InvalidInput,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
];

pub const EOF_LIMIT: usize = 10_000;

pub struct Reader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub plan: Vec<Act>,
    pub step: usize,
    pub fault: Option<(usize, ErrorKind)>,
    pub calls: usize,
    pub eofs: usize,
    pub stalls: usize,
    pub faulted: bool,
}

impl<'a> Reader<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Self::planned(data, vec![Act::Take(usize::MAX)])
    }
    pub fn planned(data: &'a [u8], plan: Vec<Act>) -> Self {
        Reader { data, pos: 0, plan, step: 0, fault: None, calls: 0, eofs: 0, stalls: 0, faulted: false }
    }
    fn go(&mut self, buf: &mut [u8]) -> Result<Option<usize>, ErrorKind> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(Some(0));
        }
        if self.plan.len() > 1 || self.plan[0] == Act::Stall {
            let a = self.plan[self.step % self.plan.len()];
            self.step += 1;
            if a == Act::Stall {
                self.stalls += 1;
                return Ok(None);
            }
            return self.take(a, buf);
        }
        self.take(self.plan[0], buf)
    }
    fn take(&mut self, a: Act, buf: &mut [u8]) -> Result<Option<usize>, ErrorKind> {
        let Act::Take(mut n) = a else { unreachable!() };
        if self.data.len() > 100_000 {
            // `futures` zeroes the rest of the buffer again after each pending answer: few enough of them
            n = n.saturating_mul(self.data.len() / 2000);
        }
        let mut avail = self.data.len().saturating_sub(self.pos);
        if let Some((at, k)) = self.fault {
            if self.pos >= at {
                self.faulted = true;
                return Err(k);
            }
            avail = avail.min(at - self.pos);
        }
        let n = n.min(buf.len()).min(avail);
        if n == 0 {
            self.eofs += 1;
            if self.eofs > EOF_LIMIT {
                panic!("does not terminate: still reading after {EOF_LIMIT} end-of-file answers");
            }
            return Ok(Some(0));
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(Some(n))
    }
}

impl Read for Reader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.go(buf) {
            Ok(Some(n)) => Ok(n),
            Ok(None) => Err(io::Error::new(ErrorKind::Interrupted, "interrupted")),
            Err(k) => Err(io::Error::new(k, "injected read fault")),
        }
    }
}
impl Seek for Reader<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let n = match p {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(d) => self.data.len() as i64 + d,
            SeekFrom::Current(d) => self.pos as i64 + d,
        };
        if n < 0 {
            return Err(io::Error::new(ErrorKind::InvalidInput, "seek before start"));
        }
        self.pos = n as usize;
        Ok(n as u64)
    }
}
impl AsyncRead for Reader<'_> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        match self.go(buf) {
            Ok(Some(n)) => Poll::Ready(Ok(n)),
            Ok(None) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Err(k) => Poll::Ready(Err(io::Error::new(k, "injected read fault"))),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WFault {
    Err(ErrorKind),
    /// the sink is full: write answers Ok(0)
    Zero,
}

pub struct Writer {
    pub out: Vec<u8>,
    pub plan: Vec<Act>,
    pub step: usize,
    pub fault: Option<(usize, WFault)>,
    pub flushes: usize,
    pub flush_fault: Option<ErrorKind>,
    pub stalls: usize,
    pub shorts: usize,
    pub zeros: usize,
    pub hit: bool,
}

impl Writer {
    pub fn new() -> Self {
        Self::planned(vec![Act::Take(usize::MAX)])
    }
    pub fn planned(plan: Vec<Act>) -> Self {
        Writer { out: vec![], plan, step: 0, fault: None, flushes: 0, flush_fault: None, stalls: 0, shorts: 0, zeros: 0, hit: false }
    }
    fn go(&mut self, buf: &[u8]) -> Result<Option<usize>, ErrorKind> {
        if buf.is_empty() {
            return Ok(Some(0));
        }
        let a = self.plan[self.step % self.plan.len()];
        self.step += 1;
        let Act::Take(n) = a else {
            self.stalls += 1;
            return Ok(None);
        };
        let n = if buf.len() > 100_000 { n.saturating_mul(buf.len() / 2000) } else { n };
        let mut n = n.min(buf.len());
        if let Some((at, f)) = self.fault {
            if self.out.len() >= at {
                self.hit = true;
                match f {
                    WFault::Err(k) => return Err(k),
                    WFault::Zero => {
                        self.zeros += 1;
                        if self.zeros > EOF_LIMIT {
                            panic!("does not terminate: still writing after {EOF_LIMIT} zero-length answers");
                        }
                        return Ok(Some(0));
                    }
                }
            }
            n = n.min(at - self.out.len());
        }
        if n < buf.len() {
            self.shorts += 1;
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(Some(n))
    }
}

impl Write for Writer {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match self.go(buf) {
            Ok(Some(n)) => Ok(n),
            Ok(None) => Err(io::Error::new(ErrorKind::Interrupted, "interrupted")),
            Err(k) => Err(io::Error::new(k, "injected write fault")),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        match self.flush_fault {
            Some(k) => Err(io::Error::new(k, "injected flush fault")),
            None => Ok(()),
        }
    }
}
impl AsyncWrite for Writer {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        match self.go(buf) {
            Ok(Some(n)) => Poll::Ready(Ok(n)),
            Ok(None) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Err(k) => Poll::Ready(Err(io::Error::new(k, "injected write fault"))),
        }
    }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.flushes += 1;
        Poll::Ready(match self.flush_fault {
            Some(k) => Err(io::Error::new(k, "injected flush fault")),
            None => Ok(()),
        })
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// Poll to completion on this thread. A Pending without a wake-up would hang a real executor and
/// is reported as such; so is an unreasonable number of polls.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    for _ in 0..100_000_000u64 {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return v,
            Poll::Pending => {
                if !flag.0.swap(false, Ordering::SeqCst) {
                    panic!("future is pending but nothing will wake it");
                }
            }
        }
    }
    panic!("future did not complete after 100 million polls");
}
